"""sanity check of the installed pieces; nothing is built"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from contracts import all as a, common
a.load()
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
subprocess.check_call(["/opt/venv/bin/python", "-c", "import six"])
print("units:", len(common.UNITS))
