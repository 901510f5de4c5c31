"""mut.py PROP[,PROP] FILE OLD NEW [FILE OLD NEW ...]: run checks against an edited scratch copy of /repo/src (evidence goes to a scratch dir)"""
import sys, os, subprocess, tempfile, shutil
props, rest = sys.argv[1].split(','), sys.argv[2:]
d = tempfile.mkdtemp(prefix='l1cmut_')
try:
    subprocess.run('cp -a /repo/src /repo/include /repo/interfaces %s/' % d, shell=True, check=True)
    for i in range(0, len(rest), 3):
        f = os.path.join(d, rest[i]); s = open(f).read()
        old, new = rest[i+1].encode().decode('unicode_escape'), rest[i+2].encode().decode('unicode_escape')
        if s.count(old) < 1: print('NOT FOUND', old); sys.exit(2)
        open(f, 'w').write(s.replace(old, new, 1))
    env = dict(os.environ, L1C_REPO=d, L1C_EVID=d)
    for p in props:
        r = subprocess.run(['python3-vt', os.path.join(os.environ.get('VROOT', '/verif'), 'check.py'), p], env=env, capture_output=True, text=True, cwd=os.environ.get('VROOT', '/verif'))
        print(p, r.returncode, r.stdout.strip().replace('\n', ' | ')[:400], r.stderr[-300:])
finally:
    shutil.rmtree(d)
