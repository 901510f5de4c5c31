"""python3-vt run.py PROP SECONDS SEED OUT [--replay CASESEED]: concrete search on the current /repo build."""
import sys, os, json, time, tempfile, shutil, importlib, glob, faulthandler
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '1' if sys.argv[1] == 'C17' else '3')
os.environ.setdefault('OMP_WAIT_POLICY', 'passive')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
SAN = sys.argv[1] == 'C17'
if SAN and not os.environ.get('L1C_SAN'):
    # the property is about memory: replay every case on an address/undefined-behaviour instrumented build
    import subprocess
    libs = [subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True).stdout.strip()]
    os.environ.update(L1C_SAN='1', LD_PRELOAD=':'.join(libs), ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0:log_path=%s.san' % sys.argv[4], UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:print_stacktrace=1:log_path=%s.san' % sys.argv[4])
    os.execv(sys.executable, [sys.executable] + sys.argv)
import base


def again(f, lib, cs, fill):
    lib.reset()
    lib.so.vc_setfill(fill)
    try:
        f(lib, np.random.default_rng(cs))
        return 'as specified'
    except base.Fail as e:
        return 'not as specified'
    finally:
        lib.so.vc_setfill(0xCB)


def main():
    prop, secs, seed, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    os.environ.pop('LD_PRELOAD', None)      # not for the compilers
    only = None
    if '--replay' in sys.argv:
        i = sys.argv.index('--replay')
        only = (sys.argv[i + 1], int(sys.argv[i + 2]))
    for f in sorted(glob.glob(HERE + '/o_*.py')):
        try:
            importlib.import_module(os.path.basename(f)[:-3])
        except Exception as ex:
            print('oracle module %s not usable: %r' % (f, ex), file=sys.stderr)
    fs = base.ORACLES.get(prop, [])
    if SAN:
        fs = []
        for p in sorted(base.ORACLES):
            if p not in ('C19', 'C22', 'C23'):
                fs += [f for f in base.ORACLES[p] if f not in fs]
        names = {}
        for f in fs:
            f.__name__ = f.__module__ + '.' + f.__name__
    d = tempfile.mkdtemp(prefix='l1corc_')
    res = dict(prop=prop, status='none', cases=0, fns=[f.__name__ for f in fs])
    try:
        try:
            so = base.build(d, clang=SAN, extra=('-fsanitize=address,undefined', '-fno-sanitize=function', '-shared-libasan', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer') if SAN else (), opt='-O0' if prop == 'C19' else '-O1' if SAN else '-O2')
        except base.BuildError as e:
            json.dump(dict(status='builderror', msg=str(e)), open(out, 'w'))
            return
        lib = base.Lib(so)
        if SAN:
            base.sanitised()
        # keep the library quiet
        dn = os.open('/dev/null', os.O_WRONLY)
        os.dup2(dn, 1)
        t0 = time.time()
        n = 0
        per = {f.__name__: 0 for f in fs}
        last = 0
        while fs and time.time() - t0 < secs:
            f = fs[n % len(fs)]
            cs = seed * 1000003 + n
            if only:
                f = [g for g in fs if g.__name__ == only[0]][0]
                cs = only[1]
            n += 1
            rng = np.random.default_rng(cs)
            if time.time() - last > -1:
                with open(out + '.last', 'w') as h:
                    h.write('%s %d' % (f.__name__, cs))
            try:
                lib.reset()
                f(lib, rng)
            except base.Fail as e:
                if SAN:
                    # wrong values are the other properties' business, unless they depend on never-written memory
                    a = [again(f, lib, cs, v) for v in (0x00, 0xCB)]
                    if a[0] == a[1]:
                        per[f.__name__] += 1
                        continue
                    e = base.Fail('result depends on memory that was never written: with zero fill %s, with other fill %s' % tuple(a))
                res.update(status='fail', msg=str(e)[:3000], case=f.__name__, caseseed=cs)
                break
            per[f.__name__] += 1
            if only:
                break
        res['cases'] = n
        res['per'] = per
    finally:
        shutil.rmtree(d, ignore_errors=True)
        import sys as _s
        for q in getattr(_s.modules.get('o_json'), '_dir', []):
            shutil.rmtree(q, ignore_errors=True)
    json.dump(res, open(out, 'w'))
    os._exit(0)


main()
