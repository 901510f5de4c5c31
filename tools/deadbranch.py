"""deadbranch.py: vacuity check of the proofs. Lists every branch of the verified functions that no contract's symbolic execution takes
(condition decided the other way on every visit, or never reached).  On the unchanged tree the list has to be explainable by the source."""
import sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/vc', ROOT + '/vc/specs']
import cfront, contract as C, props, exec as X, prover as P
from terms import TRUE, FALSE, not_
from multiprocessing import Pool
props.load_specs()
seen = {}
orig = X.Engine.fork


def fork(self, c, th, el):
    key = (os.path.basename(self.frames[-1].unit.path), self._curline, self.frames[-1].fn['name'])
    s = seen.setdefault(key, set())
    h = self.hyps()
    for side, cc in (('T', c), ('F', not_(c))):
        if side not in s and cc is not FALSE and P.sat(h + [cc], 1) != 'unsat':
            s.add(side)
    return orig(self, c, th, el)


X.Engine.fork = fork


def run(k):
    c = C.CONTRACTS[k]
    fs = [('vcl/' if f.endswith('cpp') else '') + f for f in [c.file] + list(getattr(c, 'extra_files', ())) if f]
    us = [cfront.load(cfront.REPO + '/src/' + f, f.endswith('cpp')) for f in fs]
    try:
        C.verify(c, us, ('none',), 25, 300)
    except Exception as ex:
        print(k, ex)
    return seen


if __name__ == '__main__':
    tot = {}
    with Pool(int(os.environ.get('J', '4')), maxtasksperchild=1) as p:
        for r in p.imap_unordered(run, [k for k, c in C.CONTRACTS.items() if c.file], 1):
            for k, v in r.items():
                tot.setdefault(k, set()).update(v)
    for k in sorted(tot, key=str):
        if len(tot[k]) < 2:
            src = open([os.path.join(d, k[0]) for d, _, f in os.walk(cfront.REPO + '/src') if k[0] in f][0]).read().split('\n')
            print('%s:%s %s only %s : %s' % (k[0], k[1], k[2], ''.join(tot[k]) or '-', src[(k[1] or 1) - 1].strip()))
