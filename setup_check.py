#!/opt/venv/bin/python
"""setup: nothing to build; make sure that the back ends are there"""
import os
import subprocess
import sys

subprocess.run(["/opt/venv/bin/python", "-c",
                "import sys; sys.path.insert(0, %r); from dv.core import z3; import dv.prop; print('z3', z3.get_version_string())"
                % os.path.dirname(os.path.abspath(__file__))], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
sys.exit(0)
