"""mutall.py FILE[,FILE] [-j N] [-f FUNC,FUNC] : systematic one-token mutants of /repo/src/FILE; each is verified against the contracts of
the enclosing function (all contracts of the file if it has none).  Prints KILLED / UNDECIDED / SURVIVED; survivors are for reading."""
import sys, os, re, subprocess, tempfile, shutil, time, signal, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/vc', ROOT + '/vc/specs']
import cfront, contract as C, props
from multiprocessing import Pool
props.load_specs()
CATS = ('func', 'pre', 'mpre', 'safety', 'live', 'align', 'uninit', 'overflow', 'alloc', 'race')
import sysconfig, numpy
PYI = '-I%s -I%s' % (sysconfig.get_paths()['include'], numpy.get_include())
REPO = os.environ.get('L1C_REPO', '/repo')


def functions(src):
    """(name, start, end) of each function body, by brace matching at column 0"""
    out = []
    for m in re.finditer(r'^[A-Za-z_][^;{}#]*?\b([A-Za-z_]\w*)\s*\([^;{}]*?\)\s*\{', src, re.M):
        d, i = 0, m.end() - 1
        while True:
            ch = src[i]
            d += ch == '{'
            d -= ch == '}'
            if d == 0:
                break
            i += 1
        out.append((m.group(1), m.end(), i))
    return out


def mask(src):
    """comments, strings, preprocessor lines blanked out"""
    f = lambda m: re.sub(r'[^\n]', ' ', m.group(0))
    s = re.sub(r'/\*.*?\*/|//[^\n]*', f, src, flags=re.S)
    s = re.sub(r'"(\\.|[^"\\])*"', f, s)
    s = re.sub(r'^#(?!pragma)[^\n]*', f, s, flags=re.M)
    s = re.sub(r'\b(f?printf|l1c_printf|perror)\s*\([^;]*;', f, s)
    return s


def mutants(src):
    ms = mask(src)
    for fn, a, b in functions(ms):
        body = ms[a:b]
        def rep(m, new):
            return (fn, a + m.start(), a + m.end(), new)
        for m in re.finditer(r'<=|>=|==|!=|&&|\|\||(?<![<>-])[<>](?![<>=])', body):
            t = {'<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '<': ['<=', '!='], '>': ['>=']}[m.group(0)]
            for n in t[:1]:
                yield rep(m, n)
        for m in re.finditer(r'(?<=[\w\])] )([-+*/])(?= [\w(&*-])', body):
            for n in {'+': '-', '-': '+', '*': '+', '/': '*'}[m.group(1)]:
                yield rep(m, n)
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.]|\.)', body):
            v = int(m.group(1))
            yield rep(m, str(v + 1))
            if v > 0:
                yield rep(m, str(v - 1))
        for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:e-?\d+)?)', body):
            yield rep(m, repr(float(m.group(1)) * 1.25 + 0.125))
        for m in re.finditer(r'(?<=[;{}\n])[ \t]*((?!return\b|goto\b|case\b|break\b)[A-Za-z_*(][^;{}]*;)', body):
            t = m.group(1)
            if re.match(r'(const |static |struct |l1c_\w+\*?\s+\w+\s*[=;,]|double|int|long|char|float|FILE|cJSON|size_t|unsigned|Vec4d|for|if|while|else|do|fftw_)', t) and not re.match(r'(l1c_\w+\(|fftw_\w+\()', t):
                continue
            yield (fn, a + m.start(1), a + m.end(1), ';')
        for m in re.finditer(r'\bgoto \w+;|\bbreak;|\bcontinue;', body):
            yield rep(m, ';')
        for m in re.finditer(r'#pragma omp[^\n]*?( private\([^)]*\)| reduction\([^)]*\))', body):
            yield (fn, a + m.start(1), a + m.end(1), '')
        for m in re.finditer(r'!(?=[\w*(])', body):
            yield rep(m, '')
        for m in re.finditer(r'(?<=[\[ (])(?:n|m|N|p|mrow|mcol|_m|_n|_p|mtot)(?=[\]),; ])', body):
            o = {'n': 'm', 'm': 'n', 'mrow': 'mcol', 'mcol': 'mrow', '_m': '_n', '_n': '_m', 'N': 'N - 1', 'p': 'm', '_p': '_m', 'mtot': 'n'}[m.group(0)]
            yield rep(m, o)


def one(job):
    f, fn, a, b, new, old, line = job
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='l1cmu_')
    tag = '%s:%s:%d %r -> %r' % (f, fn, line, old, new)
    try:
        subprocess.run('cp -a %s/src %s/include %s/interfaces %s/' % (REPO, REPO, REPO, d), shell=True, check=True)
        p = d + '/src/' + f
        s = open(p).read()
        open(p, 'w').write(s[:a] + new + s[b:])
        cc = 'g++ -std=c++14' if f.endswith('cpp') else 'gcc -std=gnu11'
        r = subprocess.run('%s -w -fopenmp -march=x86-64-v3 -I%s/include -I%s/src -I%s/src/vcl -I/repo/_build/include %s -fsyntax-only %s' % (cc, d, d, d, PYI if 'interfaces' in f else '', p), shell=True, capture_output=True)
        if r.returncode:
            return None
        base = os.path.basename(f)
        ks = [k for k, c in C.CONTRACTS.items() if c.file and os.path.basename(c.file) == base]
        own = [k for k in ks if C.CONTRACTS[k].name == fn]
        pid_out = tempfile.mktemp(dir=d)
        pid = os.fork()
        if pid == 0:
            os.setsid()
            res = ('SURVIVED', '')
            try:
                cfront.REPO = d
                signal.alarm(600)
                und = []
                for k in own or ks:
                    c = C.CONTRACTS[k]
                    fs = [('vcl/' if x.endswith('cpp') else '') + x for x in [c.file] + list(getattr(c, 'extra_files', ())) if x]
                    us = [cfront.load(d + '/src/' + x, x.endswith('cpp')) for x in fs]
                    r = C.verify(c, us, CATS, 25, 200)
                    bad = [o for o in r.obls if o['status'] == 'invalid' and not o['taint']]
                    if bad:
                        res = ('KILLED', '%s [%s] %s' % (k, bad[0]['cat'], bad[0]['what']))
                        und = []
                        break
                    und += ['%s %s' % (o['status'], o['what']) for o in r.obls if o['status'] != 'valid']
                    if r.error:
                        und.append(r.error[:150])
                if und:
                    res = ('UNDECIDED', str(und[0])[:160])
            except BaseException as e:
                res = ('UNDECIDED', repr(e)[:160])
            json.dump(res, open(pid_out, 'w'))
            os._exit(0)
        os.waitpid(pid, 0)
        try:
            res = json.load(open(pid_out))
        except Exception:
            res = ('UNDECIDED', 'timeout')
        return '%-9s %s  %s (%.0fs)' % (res[0], tag, res[1], time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    files = sys.argv[1].split(',')
    J = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 6
    only = sys.argv[sys.argv.index('-f') + 1].split(',') if '-f' in sys.argv else None
    jobs, seen = [], set()
    for f in files:
        src = open(REPO + '/src/' + f).read()
        for fn, a, b, new in mutants(src):
            if only and fn not in only or (f, a, b, new) in seen:
                continue
            seen.add((f, a, b, new))
            jobs.append((f, fn, a, b, new, src[a:b], src.count('\n', 0, a) + 1))
    print(len(jobs), 'mutants', flush=True)
    with Pool(J, maxtasksperchild=1) as p:
        for o in p.imap_unordered(one, jobs, 1):
            if o:
                print(o, flush=True)
