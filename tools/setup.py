"""setup: nothing to build ahead; verify that the tools the checks use are present"""
import subprocess, sys
r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, cvc5; print('z3', z3.get_version_string())"])
r2 = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, ldpc, qiskit, stim; print('numpy', numpy.__version__)"])
sys.exit(r.returncode or r2.returncode)
