"""offline setup: the verifier is plain Python; checks that the interpreters and solvers are there"""
import subprocess, shutil, sys, os
vt = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
subprocess.check_call([vt, "-c", "import z3, cvc5, numpy; print('z3', z3.get_version_string(), 'numpy', numpy.__version__)"])
subprocess.check_call(["/opt/venv/bin/python", "-c", "import numpy; print('repository interpreter: numpy', numpy.__version__)"])
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "replay"), exist_ok=True)
