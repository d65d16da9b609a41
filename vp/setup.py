"""python3 -m vp.setup: checks that the analysis itself is in working order."""
import os
import subprocess
import sys
from . import project


def main():
    r = subprocess.call([sys.executable, os.path.join(project.HERE, 'tests', 'selftest.py')], cwd=project.HERE)
    if r:
        return r
    if project.finder('denorm') is None:
        print('no source to analyse under %s' % project.REPO)
        return 2
    os.makedirs(os.path.join(project.HERE, 'evidence'), exist_ok=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
