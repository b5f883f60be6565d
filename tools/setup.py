"""Nothing to build: checks that the interpreters the checks use are there."""
import subprocess, sys
for cmd in (["python3-vt", "-c", "import z3"], ["/opt/venv/bin/python", "-c", "import httplint"]):
    subprocess.run(cmd, check=True, timeout=120)
print("ok")
