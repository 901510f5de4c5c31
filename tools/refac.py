"""refac.py [-p PROP,PROP] [-j N] [name ...]: run the checks on behaviour-preserving edits (tools/refacs_*.py) of /repo's sources.
Quiet (exit 0) is required; 'bounded' marks a run decided by the bounded stand-in."""
import sys, os, subprocess, tempfile, shutil, importlib, glob, re, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
BASE = os.environ.get('L1C_REPO', '/repo')
R = {}
for f in sorted(glob.glob(HERE + '/refacs_*.py')): R.update(importlib.import_module(os.path.basename(f)[:-3]).R)
args = sys.argv[1:]; only = None; J = 1
if args[:1] == ['-p']: only = args[1].split(','); args = args[2:]
if args[:1] == ['-j']: J = int(args[1]); args = args[2:]
names = args or list(R)
def one(name):
    props, edits = R[name]
    d = tempfile.mkdtemp(prefix='l1crf_')
    out = []
    try:
        subprocess.run('cp -a %s/src %s/include %s/interfaces %s/' % (BASE, BASE, BASE, d), shell=True, check=True)
        files = set()
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if old not in s: return ['%-18s NOT FOUND %r' % (name, old[:60])]
            s = s.replace(old, new) if name.endswith('-all') or name in ('vcl-helper', 'd2-helper') else s.replace(old, new, 1)
            open(p, 'w').write(s); files.add(p)
        for p in files:
            cc = 'g++ -std=c++11' if p.endswith('cpp') else 'gcc -std=gnu11 -Wall'
            r = subprocess.run('%s -fopenmp -march=x86-64-v3 -I%s/include -I%s/src -I%s/src/vcl -I/repo/_build/include -I/repo/_build -I%s/interfaces/mex -I/usr/include/octave-8.4.0/octave $(/usr/bin/python3-config --includes) -I$(/usr/bin/python3 -c "import numpy;print(numpy.get_include())") -fsyntax-only %s' % (cc, d, d, d, d, p), shell=True, capture_output=True, text=True)
            if r.returncode: return ['%-18s DOES NOT COMPILE %s' % (name, r.stderr[:300])]
        for pr in props:
            if only and pr not in only: continue
            ev = os.path.join(d, 'ev'); os.makedirs(ev, exist_ok=True); t = time.time()
            r = subprocess.run(['python3-vt', ROOT + '/check.py', pr], env=dict(os.environ, L1C_REPO=d, L1C_EVID=ev), capture_output=True, text=True, cwd=ROOT)
            out.append('%-18s %s rc=%d %4.0fs %s %s' % (name, pr, r.returncode, time.time() - t, r.stdout.strip().replace('\n', ' | ')[:330], r.stderr[-200:]))
    finally: shutil.rmtree(d)
    return out
with ThreadPoolExecutor(J) as ex:
    for o in ex.map(one, names):
        for l in o: print(l, flush=True)
