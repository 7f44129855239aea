"""Make and confirm planted bugs: python3 plant.py FILE [ID...]

FILE is a Python file defining BUGS, a list of dicts with id, property, edits (file, old, new),
demo (Python text), needs, breaks.  Each is confirmed in a scratch copy of /repo: the stable tests
pass, the demonstration fails with the change and passes without it, lines of the original
repository are changed.  What is confirmed is kept in /verif/seeded/<id>/.
"""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '5f4c0cc'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/sh
# exit 0 when the property holds
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def tests_pass(copy):
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--doctest-glob=README.rst',
                        '--ignore=conda.recipe'], cwd=copy, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                                PY_IGNORE_IMPORTMISMATCH='1'))
    m = re.search(r'(\d+) passed', r.stdout)
    return r.returncode == 0 and m and int(m.group(1)) >= 176, r.stdout[-1500:]


def demo(folder, copy):
    r = subprocess.run(['sh', os.path.join(folder, 'demo.sh')], cwd=copy, capture_output=True, text=True, timeout=250)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def original(copy, diff):
    """are lines of the original repository changed?"""
    n, f, old = 0, None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            b = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f], cwd=copy, capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'):
            old = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            n += b[old - 1].startswith('^')
            old += 1
        elif l.startswith(' '):
            old += 1
    return n


def plant(b):
    tmp = tempfile.mkdtemp(prefix='plant-')
    copy = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    out = os.path.join(tmp, 'seed')
    os.mkdir(out)
    try:
        open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        rc, text = demo(out, copy)
        if rc:
            return 'demo fails on the unchanged tree: ' + text
        for f, old, new in b['edits']:
            p = os.path.join(copy, 'quantities', f)
            t = open(p).read()
            if t.count(old) != 1:
                return '%s: %d times %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True, text=True).stdout
        if not original(copy, diff):
            return 'no original line changed'
        rc, text = demo(out, copy)
        if not rc:
            return 'demo passes with the change'
        ok, log = tests_pass(copy)
        if not ok:
            return 'tests fail: ' + log
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        dest = os.path.join(ROOT, 'seeded', b['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.move(out, dest)
        return 'kept (%s)' % text.strip().splitlines()[-1][:100]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
            print(b['id'], b['property'], plant(b), flush=True)
