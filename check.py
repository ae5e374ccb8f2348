#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--runs N] [--replay FILE] [--seed N]

Deterministic simulation of pykeepass: decides one property by seeded search over histories, schedules and faults.
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
SO = os.path.join(HERE, 'build', 'libvsim.so')


def reexec():
    src = os.path.join(HERE, 'sim', 'shim.c')
    if not os.path.exists(SO) or os.path.getmtime(SO) < os.path.getmtime(src):
        subprocess.run(['bash', os.path.join(HERE, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    env = dict(os.environ, LD_PRELOAD=SO, VSIM_CHILD='1', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    env.setdefault('PYTHONHASHSEED', '0')
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-X', 'utf8', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    if os.environ.get('VSIM_CHILD') != '1':
        try:
            reexec()
        except Exception as e:
            print('HARNESS-ERROR: cannot start the simulator: %s' % e)
            sys.exit(2)
    sys.path.insert(0, HERE)
    from sim.main import main
    sys.exit(main(HERE))
