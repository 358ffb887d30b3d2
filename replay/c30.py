from base import *
import os


def search(S):
    g = import_g()
    from general_robotics_toolbox import tesseract as T
    from tesseract_robotics import tesseract_scene_graph as sgm, tesseract_environment as en
    REV, PRI, FIX = sgm.JointType_REVOLUTE, sgm.JointType_PRISMATIC, sgm.JointType_FIXED
    for k in S.loop(250):
        n = int(S.rng.integers(1, 8))
        r = chain(S, g, n=n, limits=True)
        r.joint_vel_limit, r.joint_acc_limit = S.rng.uniform(0.1, 3, n), S.rng.uniform(0.1, 3, n)
        s = 1 + np.sum(np.abs(r.P))
        for a in (r.p_tool, r.T_flange and r.T_flange.p, r.T_base and r.T_base.p):
            if a is not None:
                s += np.sum(np.abs(a))
        if S.flip():
            r.joint_names = ["j_%d" % S.rng.permutation(90)[0] + "_%d" % i for i in range(n)]
        i = dict(robot=r)
        before = freeze(r)
        sg, links, jn, chain_links = S.call("robot_to_scene_graph", lambda: T.robot_to_scene_graph(r, True), i)
        want = list(r.joint_names) if r.joint_names is not None else ["joint_%d" % (j + 1) for j in range(n)]
        S.ok("joint names", list(jn) == want, i, list(jn), want)
        S.ok("link names are those of the graph", len(set(links)) == len(links) == len(sg.getLinks()) and all(sg.getLink(x) is not None for x in links), i, list(links))
        S.ok("chain link names", list(chain_links) == list(links)[:n + 1], i, list(chain_links))
        tip = links[-1]
        # the chain from tip to base
        th = S.rng.uniform(-3, 3, n)
        M = np.eye(4)
        seen = []
        x = tip
        while True:
            js = sg.getInboundJoints(x)
            S.ok("every link but the base has one parent joint", len(js) == (0 if x == "base_link" else 1), i, x)
            if not len(js):
                break
            j = js[0]
            O = np.array(j.parent_to_joint_origin_transform.matrix())
            if j.type == FIX:
                M = O @ M
            else:
                q = n - 1 - len(seen)
                ax = np.array(j.axis).reshape(3)
                S.ok("joint name", j.getName() == want[q], i, j.getName(), want[q])
                S.ok("joint type", j.type == (REV if r.joint_type[q] == 0 else PRI), i)
                S.close("joint axis", ax, r.H[:, q], 1e-12, i)
                l = j.limits
                S.close("joint limits", [l.lower, l.upper, l.velocity, l.acceleration], [r.joint_lower_limit[q], r.joint_upper_limit[q], r.joint_vel_limit[q], r.joint_acc_limit[q]], 1e-12, i)
                M = O @ (mat_h(rod(ax, th[q]), np.zeros(3)) if j.type == REV else mat_h(np.eye(3), ax * th[q])) @ M
                seen.append(j.getName())
            x = j.parent_link_name
        S.ok("one chain", len(seen) == n and x == "base_link", i, seen)
        S.ok("no other links", len(sg.getLinks()) == n + 2 + (r.T_flange is not None) + (r.R_tool is not None), i)
        B = T4(r.T_base) if r.T_base is not None else np.eye(4)
        W = fk(r, th)
        S.close("composed joint transforms are fwdkin", B @ M, W, 1e-8 * (s + 10), dict(i, theta=th))
        S.ok("frame: the robot is not modified", freeze(r) == before, i)
        if k % 4 == 0:
            w = S.flip()
            nm = S.pick(["robot", "r2", "Arm_A"])
            cmds, l, j = S.call("robot_to_tesseract_env_commands", lambda: T.robot_to_tesseract_env_commands(r, nm, w, True), i)
            S.ok("reported link names", list(l) == (["world"] if w else []) + [nm + "_" + x for x in links], i, list(l))
            S.ok("reported joint names", list(j) == [nm + "_" + x for x in want], i, list(j))
            S.ok("number of commands", len(cmds) == (3 if w else 2), i)
            if w:
                env = en.Environment()
                S.ok("the environment accepts the commands", env.init(cmds), i)
                st = env.getState(list(j), th)
                F = np.array(st.link_transforms[nm + "_" + tip].matrix())
                S.close("pose of the tip in the world", F, W, 1e-7 * (s + 10), dict(i, theta=th))
                S.ok("links of the environment", sorted(env.getLinkNames()) == sorted(l), i, sorted(env.getLinkNames()))
                grp = env.getKinematicGroup(nm)
                S.ok("joints of the group", list(grp.getJointNames()) == list(j), i)
                F = np.array(grp.calcFwdKin(th)[nm + "_" + tip].matrix())
                S.close("pose of the tip by the group", F, W, 1e-7 * (s + 10), dict(i, theta=th))
