"""Sanity of a fresh sandbox: the specifications parse, the repository imports."""
import subprocess, os, sys, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
r = subprocess.run(['tla-sany', 'Trace.tla'], cwd=os.path.join(here, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
if r.returncode:
    print(r.stdout.decode()[-2000:])
    sys.exit(1)
r = subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import sys; sys.path.insert(0, "/repo"); import pycomplex'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(r.stdout.decode()[-500:])
sys.exit(r.returncode)
