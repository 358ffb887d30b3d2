From 003943eba2d77f585b8d65f09e891cca9afe9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 01/25] fix: R2rot returned NaN or a wrong axis for rotations
 by nearly pi

The square root was taken of diagonal elements that are negative by rounding,
and the signs of the axis were derived from a component that may be almost zero.
---
 .../general_robotics_toolbox.py                        | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bea5303..09e7886 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -110,14 +110,10 @@ def R2rot(R):
         if (cos_theta > 0):
             return [0,0,1], 0
         else:
+            # B = k*k^T, use the column with the largest diagonal element
             B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt([B[0,0], B[1,1], B[2,2]])
-            if np.abs(k[0]) > 1e-6:
-                k[1] = k[1] * np.sign(B[0,1] / k[0])
-                k[2] = k[2] * np.sign(B[0,2] / k[0])
-            elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[0,2] / k[1])
-            return k, np.pi
+            k = B[:,np.argmax(np.diag(B))]
+            return k/np.linalg.norm(k), np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
     return k, theta
-- 
2.43.0


From 91e18a0bedba438a52b9312e17edf8300e065d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 02/25] fix: q2rot returned NaN or a zero axis for quaternions
 near +-[1,0,0,0]

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 09e7886..10c4be4 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -203,10 +203,11 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(q[0])
-    if np.abs(theta) < 1e-6:
+    sin_theta2 = np.linalg.norm(q[1:4])
+    if sin_theta2 < 5e-7:
         return np.array([0,0,1]), 0.0
-    k = q[1:4]/np.sin(theta/2.0)
+    theta = 2 * np.arctan2(sin_theta2, q[0])
+    k = q[1:4]/sin_theta2
     return k, theta
 
 def rot2q(k, theta):
-- 
2.43.0


From 41acc4ffcec86515f1693a0c8dbdef6fea274fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 03/25] fix: slerp returned NaN for equal quaternions whose dot
 product rounds above one

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 10c4be4..5bd2f5f 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -318,7 +318,7 @@ def slerp(q0, q1, t):
     if (np.dot(q0,q1) < 0):
         q0 = -q0
     
-    theta = np.arccos(np.dot(q0,q1))
+    theta = np.arccos(np.clip(np.dot(q0,q1),-1.0,1.0))
     
     if (np.abs(theta) < 1e-6):
         return q0
-- 
2.43.0


From 9049dcfcc02d1867fca836c914979f41d0272864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 04/25] fix: subproblem0 accepted vectors with a negative
 component along the axis

The tolerance is now relative, so that rounding error in perpendicular vectors
of any length is not rejected either.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 5bd2f5f..612ab28 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -654,11 +654,12 @@ def subproblem0(p, q, k):
     """
     
     eps = np.finfo(np.float64).eps    
-    assert (np.dot(k,p) < eps) and (np.dot(k,q) < eps), \
-           "k must be perpendicular to p and q"
-    
     norm = np.linalg.norm
     
+    tol = np.sqrt(eps)
+    assert (np.abs(np.dot(k,p)) <= tol*norm(p)) and (np.abs(np.dot(k,q)) <= tol*norm(q)), \
+           "k must be perpendicular to p and q"
+    
     ep = p / norm(p)
     eq = q / norm(q)
     
-- 
2.43.0


From 712cbfe8b42b933c54cc2310bebc015a6edc152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 05/25] fix: subproblem1 raised AssertionError for vectors
 close to the axis

The projection of such vectors is perpendicular to the axis only up to
amplified rounding error, which the assertion in subproblem0 rejected.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 612ab28..0a10d34 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -701,7 +701,7 @@ def subproblem1(p, q, k):
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
-    theta = subproblem0(epp, eqp, k)
+    theta = np.arctan2(np.dot(k,np.cross(epp, eqp)), np.dot(epp, eqp))
     
     if (np.abs(norm(p) - norm(q)) > norm(p)*1e-2):
         warnings.warn("||p|| and ||q|| must be the same!!!")
-- 
2.43.0


From cb5b438d3b2dc767e6ffa157430c3ce53c6505e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 06/25] fix: subproblem2 returned wrong angles when the cones
 touch

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 0a10d34..be349d0 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -760,8 +760,8 @@ def subproblem2(p, q, k1, k2):
     if (np.abs(gamma) < eps):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
-        theta2 = subproblem1(k2, p, c1)
-        theta1 = -subproblem1(k1, q, c1)
+        theta2 = subproblem1(p, c1, k2)
+        theta1 = -subproblem1(q, c1, k1)
         return [(theta1, theta2)]
     
     cm=np.array([k1, k2, np.cross(k1,k2)]).T
-- 
2.43.0


From 32c7ddfdb9f095f1b7032523786190f962840690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 07/25] fix: subproblem4 returned NaN for displacements below
 the reachable range

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index be349d0..100b522 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -845,7 +845,7 @@ def subproblem4(p, q, k, d):
     
     d = c / np.linalg.norm([a,b])
     
-    if d > 1:
+    if np.abs(d) > 1:
         return []
     
     psi = np.arcsin(d)
-- 
2.43.0


From 9dee74fd4a2c5ddc30abdda950edc7fa37c5e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 08/25] fix: closed form invkin raised ValueError for
 unreachable poses with last_joints

---
 .../general_robotics_toolbox_invkin.py                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8606696..0471c50 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -220,7 +220,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -319,7 +319,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From a61ddff08d52e853129cb50cf38983521056fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 09/25] fix: ur_invkin ignored the limits and last_joints of
 joint 5

---
 .../general_robotics_toolbox_invkin.py                        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 0471c50..5057f14 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -278,6 +278,10 @@ def ur_invkin(robot, desired_pose, last_joints = None):
         Q24_Q5 = rox.subproblem2(p4, v4, H[:,3], H[:,4])
 
         for q24, q5 in Q24_Q5:
+            q5 = normalize(4, [q5])
+            if len(q5) == 0:
+                continue
+            q5 = q5[0]
             R04 = np.matmul(rox.rot(H[:,0],q1),rox.rot(H[:,3],q24))
             
             p23p = p04 - P[:,0] - np.matmul(R01,P[:,1]) - np.matmul(R04,P[:,4])
-- 
2.43.0


From cb006aacc864deb129627004a46d2eab162db24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 10/25] fix: equivalent_configurations returned configurations
 that were already given

---
 .../general_robotics_toolbox_invkin.py                       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 5057f14..56b8107 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -383,9 +383,8 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     theta_ret =[]
 
     for eq_theta in equiv_theta:
-        for theta1 in theta_v:
-            if np.allclose(theta1, eq_theta):
-                continue
+        if any(np.allclose(theta1, eq_theta) for theta1 in theta_v):
+            continue
         theta_ret.append(eq_theta)
     
     if last_joints is not None:
-- 
2.43.0


From 9fc42c529e1e284f6ab41f3f751beaf166a5a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 11/25] fix: equivalent_configurations raised ValueError when
 there are none and last_joints is given

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 56b8107..2b4a94a 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -387,7 +387,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
             continue
         theta_ret.append(eq_theta)
     
-    if last_joints is not None:
+    if last_joints is not None and len(theta_ret) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)
         return [theta_ret[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From 97253f63d2185507b8ecccb15001183c7806bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 12/25] fix: iterative_invkin shifted prismatic joints by
 multiples of 2 pi

---
 .../general_robotics_toolbox_invkin.py                        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2b4a94a..81428f0 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -44,6 +44,7 @@ class normalize_joints(object):
     """
     
     def __init__(self, robot, last_joints, _ignore_limits = False):
+        self._joint_type = robot.joint_type
         self._lower_limit = robot.joint_lower_limit
         self._upper_limit = robot.joint_upper_limit
         self._check_limits = self._lower_limit is not None \
@@ -65,7 +66,8 @@ class normalize_joints(object):
                     return None                
                 theta += (a[c[0]]).item()
         
-        if self._use_last_joints:
+        # Full turns are only meaningful for rotary joints
+        if self._use_last_joints and self._joint_type[joint] in (0,2):
             diff = self._last_joints[joint] - theta                               
             n_diff = np.floor_divide(diff, 2*np.pi)
             r_diff = np.remainder(diff, 2*np.pi)
-- 
2.43.0


From 5dc9741f0a73e7093dcd11f8f64e01e48917ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 13/25] fix: iterative_invkin did not accept a list or tuple as
 seed

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 81428f0..f8b1741 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -434,7 +434,7 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
     normalize = normalize_joints(robot, q_current, _ignore_limits = True)
     
     q_cur = d_q # initial guess on the current joint angles
-    q_cur = q_cur.reshape((num_joints,1)) 
+    q_cur = np.reshape(q_cur,(num_joints,1)) 
     
     # hist_b = []
     
-- 
2.43.0


From 6a1c76de879821cd551c2f59dff1491625e14d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 14/25] fix: iterative_invkin raised TypeError for robots with
 a single joint

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index f8b1741..5ae24c3 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -496,6 +496,6 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         itr += 1 # Increase the iteration
 
 
-    q_normed = normalize(np.arange(num_joints), [np.squeeze(q_cur)])
+    q_normed = normalize(np.arange(num_joints), [q_cur.flatten()])
     
     return converged, q_normed
\ No newline at end of file
-- 
2.43.0


From 43461acb42b7b138b23a5826972424d9bea2dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 15/25] fix: robot6_sphericalwrist_invkin modified the P matrix
 of the robot

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 5ae24c3..a421d67 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -145,7 +145,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.copy(robot.P)
     
     theta_v = []
     
-- 
2.43.0


From 61c93a79611cf8fe1c29e963174c2e774836f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 16/25] fix: Robot Raconteur loader ignored the joint_numbers
 of the selected chain

---
 src/general_robotics_toolbox/robotraconteur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 216b01b..5554379 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -122,7 +122,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
     joint_names = [None]*joint_count
 
     for i in range(joint_count):
-        j = robot_yml["joint_info"][i]
+        j = robot_yml["joint_info"][chain["joint_numbers"][i]]
         if j["joint_type"] == "revolute":
             # Revolute joint
             joint_type[i] = 0
-- 
2.43.0


From bc72dc7697cc07928ad136701b3fa5056fa23b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 17/25] fix: Robot Raconteur loader did not check the first
 joint number and negative numbers

---
 src/general_robotics_toolbox/robotraconteur.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 5554379..7d74f9b 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -87,17 +87,17 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
         robot_yml = yaml.safe_load(robot_info_file)
     _check_list(
         robot_yml["chains"], "could not find kinematic chain number " + str(chain_number))
-    if chain_number >= len(robot_yml["chains"]):
+    if chain_number < 0 or chain_number >= len(robot_yml["chains"]):
         raise ValueError("invalid kinematic chain number " + str(chain_number))
 
     chain = robot_yml["chains"][chain_number]
     joint_count = len(chain["joint_numbers"])
-    for i in range(1, joint_count):
-        if chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
+    for i in range(joint_count):
+        if i > 0 and chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-        if chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
+        if chain["joint_numbers"][i] < 0 or chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
             raise ValueError(
                 "joint number out of bounds in chain number " + str(chain_number))
 
-- 
2.43.0


From 50168e57865bf2e3dddd4b63995d44e8ac1586d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 18/25] fix: URDF loader raised TypeError for movable joints
 with the default axis

---
 src/general_robotics_toolbox/urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index b5fa7b3..ea19ac6 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -136,7 +136,7 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
         if j.joint_type == 'fixed':
             pass            
         elif j.joint_type == 'revolute' or j.joint_type == 'prismatic':            
-            H[:,i] = np.matmul(R,j.axis)
+            H[:,i] = np.matmul(R,j.axis if j.axis is not None else [1,0,0])
             joint_type[i] = 0 if j.joint_type == 'revolute' else 1
             if j.limit is not None:
                 joint_lower_limit[i] = j.limit.lower
-- 
2.43.0


From 993a7deb72bce9a2be4618ab09a63e7c17876d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 19/25] fix: UR parameters ignored the last offset of the robot
 in d6

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6725650..3b0d12c 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -1004,7 +1004,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     d5 = -np.sum(P2[2,4:5]).item()
     assert np.allclose(P2[2,5:], 0.0)
     assert np.allclose(P2[0,5:], 0.0)
-    d6 = -np.sum(P2[1,5:6]).item()
+    d6 = -np.sum(P2[1,5:]).item()
 
     ret = URInvKinParameters(d1,a2,a3,d4,d5,d6)
 
-- 
2.43.0


From 7ee704936407c6fb41ec7eff43b54bca5e63e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 20/25] fix: UR parameters were wrong for robots aligned with
 +x

The axes tested for were those of no UR robot (the first axis pointed down), and the
flange and base frames required were those of the -x alignment.
---
 src/general_robotics_toolbox/tesseract.py | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 3b0d12c..d684a96 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -973,24 +973,30 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
-    assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
-    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
-
-    assert robot.T_base
-    assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
-    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
-
     minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-    plus_x = np.allclose(robot.H, -np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
     P2 = robot.P
 
     assert minus_x or plus_x
 
+    R_flange = np.array([ex, ez, -ey]).T
+    R_base = rox.rot([0,0,1], np.pi)
+
     if plus_x:
+        # Same robot, with the half turn of the base frame moved from T_base into H, P, and T_flange
         R = rox.rot(ez,np.pi)
         P2 = np.matmul(R, P2)
+        R_flange = np.matmul(R, R_flange)
+        R_base = np.eye(3)
+
+    assert robot.T_flange
+    assert np.allclose(robot.T_flange.R, R_flange, atol=1e-6)
+    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
+
+    assert robot.T_base
+    assert np.allclose(robot.T_base.R, R_base, atol=1e-6)
+    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
 
     assert np.allclose(P2[0:2,0], 0.0)
     d1 = P2[2,0].item()
-- 
2.43.0


From d01bcae9ff1c84a3a132c6db4c9b7adb15126bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 21/25] fix: OPW parameters required the wrong flange for
 robots outstretched along z

---
 src/general_robotics_toolbox/tesseract.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index d684a96..0cf4fd8 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -635,7 +635,6 @@ def robot_to_opw_inv_kin_parameters(robot):
     ez = np.array([0.,0.,1.])
 
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
@@ -655,6 +654,12 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert axis_sign(robot.H[:,3], robot.H[:,5]) != 0
     assert axis_sign(robot.H[:,5], ez) != 0 or axis_sign(robot.H[:,5], ex) != 0
 
+    # z of the flange must point along the sixth axis of the robot
+    if axis_sign(robot.H[:,5], ex) != 0:
+        assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
+    else:
+        assert np.allclose(robot.T_flange.R, np.eye(3))
+
     H2 = np.copy(robot.H)
     P2 = np.copy(robot.P)
 
-- 
2.43.0


From 2d7be5469fe1f9b43d2becab77c6db1ad75e0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 22/25] fix: closed form invkin was wrong for robots with a
 horizontal offset of the first axis

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index a421d67..9249872 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -163,7 +163,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
         P[:,5] = np.zeros(3)       
     
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])
-    v1 = p0T - R06.dot(P[:,6])    
+    v1 = p0T - R06.dot(P[:,6]) - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
@@ -174,7 +174,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 
         R01=rox.rot(H[:,0], q1)
         
-        p26_q1 = R01.T.dot(p0T - R06.dot(P[:,6])) - (P[:,0] + P[:,1])
+        p26_q1 = R01.T.dot(v1) - P[:,1]
         
         d3 = np.linalg.norm(p26_q1)
         v3 = P[:,2]        
@@ -262,7 +262,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
     p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])
-    v1 = p04
+    v1 = p04 - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
-- 
2.43.0


From 2f45bf7ca70236ff12f5a0c99a03cdca1f6f457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 23/25] fix: closed form invkin returned NaN joint angles at
 wrist singularities

subproblem1 divided by zero for vectors exactly on the axis.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 100b522..36095bf 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -698,6 +698,10 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    if norm(pp) == 0 or norm(qp) == 0:
+        # On the axis, every angle is equivalent
+        return 0.0
+    
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
-- 
2.43.0


From 5b2d8f0e4d8ea1d374f81052d143fb27a7fb665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:43 +0000
Subject: [PATCH 24/25] fix: subproblem4 returned NaN for vectors on the axis

Closed form inverse kinematics of robots without shoulder offset returned
NaN joint angles when the wrist center is on the first axis.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 36095bf..56ad0ec 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -845,9 +845,14 @@ def subproblem4(p, q, k, d):
     b = -np.matmul(p, np.matmul(hat(k),hat(k).dot(q)))
     c = np.subtract(d, (np.dot(p,q) -b))
     
+    ab = np.linalg.norm([a,b])
+    if ab == 0:
+        # p or q on the axis, the displacement is the same for every angle
+        return [0.0] if c == 0 else []
+    
     phi = np.arctan2(b, a)
     
-    d = c / np.linalg.norm([a,b])
+    d = c / ab
     
     if np.abs(d) > 1:
         return []
-- 
2.43.0


From 5c204b97c7fe7fe391a5ffdfe7c88c805407ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:41 +0000
Subject: [PATCH 25/25] fix: OPW parameters contained a zero sign for wrist
 axes that differ at the tolerance

---
 src/general_robotics_toolbox/tesseract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 0cf4fd8..8b8911c 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -709,6 +709,7 @@ def robot_to_opw_inv_kin_parameters(robot):
     expected_axes = [ez,ey,ey,ez,ey,ez]
     for i in range(len(expected_axes)):
         sign_corrections[i] = axis_sign(H2[:,i], expected_axes[i])
+        assert sign_corrections[i] != 0
 
     return OPWInvKinParameters(
         a1,
-- 
2.43.0

