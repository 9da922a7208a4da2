# Nothing is compiled: check that the tools the checks need are present.
import shutil, subprocess, sys
ok = True
for c in ('python3-vt', 'z3', 'cvc5', '/opt/venv/bin/python', '/opt/venv-slow/bin/python'):
    if not shutil.which(c):
        print('missing:', c)
        ok = False
subprocess.check_call(['python3-vt', '-c', 'import z3'])
sys.exit(0 if ok else 1)
