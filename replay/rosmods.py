"""stand-ins of the ROS packages for the replay (the message classes of contracts/ros.py)"""
import importlib.util, os, sys
_s = importlib.util.spec_from_file_location("verif_ros", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "ros.py"))
ros = importlib.util.module_from_spec(_s)
_s.loader.exec_module(ros)


def install(mods):
    for k, v in mods.items():
        sys.modules[k] = v
