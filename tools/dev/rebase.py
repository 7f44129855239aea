"""regenerate the patches of planted bugs after a change of /repo: offsets, and a three-way merge where needed"""
import glob, runpy, subprocess, sys, os
sys.argv = ['x']
m = runpy.run_path('/verif/tools/plant.py', run_name='p')
run = lambda *a: subprocess.run(a, cwd='/tmp/rb', capture_output=True, text=True)
subprocess.run('rm -rf /tmp/rb; git clone -q /repo /tmp/rb', shell=True)
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    run('git', 'checkout', '-q', '--', '.')
    run('git', 'reset', '-q', '--hard')
    r = run('git', 'apply', d)
    if r.returncode:
        r = run('patch', '-p1', '-F3', '-i', d)
        if r.returncode:
            print('does not apply', d)
            continue
        print('fuzzy', d)
    run('sh', '-c', 'find . -name "*.orig" -delete')
    t = run('git', 'diff').stdout
    if t != open(d).read():
        print('rewritten', d)
        open(d, 'w').write(t)
    if not m['original']('/repo', t):
        print('no original line', d)
subprocess.run('rm -rf /tmp/rb', shell=True)
