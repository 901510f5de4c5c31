#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROP [--tier quick|thorough]  -- decides one property on /repo's current tree.
exit 0: every obligation discharged (or: out of the verifier's reach and the labelled bounded stand-in passed)
exit 1: VIOLATION line"""
import sys, os, json, time, multiprocessing as mp, subprocess, tempfile, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('L1C_EVID', HERE)
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'vc', 'specs')]
T0 = time.time()


def worker(key, cats, q, units, budget, total):
    try:
        import contract as C, prover as P
        r = C.verify(C.CONTRACTS[key], units, cats, budget, total)
        q.put((key, dict(obls=r.obls, error=r.error, notes=r.notes, used=r.used, time=r.time, z3=r.z3, scen=r.scen, stats=dict(P.STATS))))
    except BaseException as e:
        q.put((key, dict(obls=[], error='internal: %r %s' % (e, traceback.format_exc()[-600:]), notes=[], used=[], time=0, z3=0, scen=0, stats={})))


def run_proofs(keys, catmap, files, deadline, budget, total):
    import cfront
    import concurrent.futures as cf
    units, err = [], None
    fs = sorted(files)
    cfront.scratch()
    def ld(f):
        return cfront.load('src/' + f, f.endswith('.cpp'))
    with cf.ThreadPoolExecutor(6) as ex:
        futs = {f: ex.submit(ld, f) for f in fs}
        for f in fs:
            try:
                units.append(futs[f].result())
            except Exception as e:
                err = 'front end: %s' % e
    sys.setrecursionlimit(100000)
    import contract as C
    res = {}
    q = mp.Queue()
    pend = list(keys)
    # longest first
    pend.sort(key=lambda k: -getattr(C.CONTRACTS[k], 'cost', 1))
    run = {}
    while pend or run:
        while pend and len(run) < 8:
            k = pend.pop(0)
            p = mp.Process(target=worker, args=(k, catmap[k], q, units, budget, total))
            p.start()
            run[k] = p
        try:
            k, r = q.get(timeout=1)
            res[k] = r
            run[k].join(5)
            if run[k].is_alive():
                run[k].kill()
            del run[k]
        except Exception:
            for k in list(run):
                if not run[k].is_alive() and k not in res:
                    # died without an answer; give the queue one more chance
                    try:
                        k2, r2 = q.get(timeout=1)
                        res[k2] = r2
                        run.pop(k2, None)
                        continue
                    except Exception:
                        pass
                    res[k] = dict(obls=[], error='prover process died', notes=[], used=[], time=0, z3=0, scen=0, stats={})
                    del run[k]
        if time.time() > deadline:
            for k in run:
                run[k].kill()
                res[k] = dict(obls=[], error='time limit', notes=[], used=[], time=0, z3=0, scen=0, stats={})
            for k in pend:
                res[k] = dict(obls=[], error='time limit', notes=[], used=[], time=0, z3=0, scen=0, stats={})
            break
    return res, err


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props, contract as C
    props.load_specs()
    pd = props.PROPS[prop]
    keys = []
    catmap = {}
    for k in pd['keys']:
        kk, cats = (k, pd['cats']) if isinstance(k, str) else k
        keys.append(kk)
        catmap[kk] = cats
    files = set()
    for k in keys:
        c = C.CONTRACTS[k]
        if c.file:
            files.add(('vcl/' if c.file.endswith('.cpp') else '') + c.file)
        files |= set(getattr(c, 'extra_files', ()))
    budget, total, dl = (25, 300, T0 + 520) if tier == 'quick' else (120, 1500, T0 + 3000)
    res, ferr = run_proofs(keys, catmap, files, dl, budget, total)
    known = load_known(prop)
    obls, bad, undecided, khits = 0, [], [], []
    disch = 0
    per = {}
    for k in keys:
        r = res[k]
        per[k] = dict(obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o['status'] == 'valid'), solver_s=round(r['z3'], 2),
                      wall_s=round(r['time'], 2), error=r['error'], notes=r['notes'][:5], scenarios=r['scen'])
        for o in r['obls']:
            obls += 1
            if o['status'] == 'valid':
                disch += 1
                continue
            kn = match_known(known, o)
            if kn:
                khits.append(kn)
                continue
            if o['status'] == 'invalid' and not o['taint']:
                bad.append(o)
            else:
                undecided.append(o)
        if r['error']:
            undecided.append(dict(fn=k, cat='reach', what=r['error'], line=None, status='unsupported', model=None, taint=[], term=None))
        elif not r['obls'] and not pd.get('empty_ok'):
            undecided.append(dict(fn=k, cat='vacuity', what='no obligation was generated', line=None, status='unsupported', model=None, taint=[], term=None))
    if ferr:
        undecided.append(dict(fn='(front end)', cat='reach', what=ferr, line=None, status='unsupported', model=None, taint=[], term=None))
    orc = None
    if bad or undecided or tier == 'thorough':
        orc = run_oracle(prop, seed, 60 if tier == 'quick' and bad else (100 if tier == 'quick' else 300))
    status = 0
    rp = os.path.join(EVID, 'evidence', 'replay_%s.json' % prop)
    os.makedirs(os.path.join(EVID, 'evidence'), exist_ok=True)
    failed = [dict(function=o['fn'], category=o['cat'], obligation=o['what'], line=o['line'], status=o['status'],
                   verifier_model=o.get('model'), formula=o.get('term'), taint=o.get('taint')) for o in bad + undecided]
    rep = dict(property=prop, failed_obligations=failed, concrete=orc,
               how='python3-vt /verif/oracle/run.py %s 60 %d OUT.json --replay CASE CASESEED (values under "concrete") re-runs the failing input on the current tree' % (prop, seed))
    if orc and orc.get('status') in ('fail', 'crash'):
        json.dump(rep, open(rp, 'w'), indent=1, default=str)
        for o in (bad + undecided)[:6]:
            print('failed obligation: %s: [%s] %s (line %s, %s)' % (o['fn'], o['cat'], o['what'], o['line'], o['status']))
        print('failing input: %s' % orc.get('msg', '')[:600])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        status = 1
    elif bad:
        json.dump(rep, open(rp, 'w'), indent=1, default=str)
        for o in bad[:6]:
            print('failed obligation: %s: [%s] %s (line %s) model %s' % (o['fn'], o['cat'], o['what'], o['line'], str(o['model'])[:200]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        status = 1
    elif undecided:
        for o in undecided[:10]:
            print('not decided by proof: %s: [%s] %s (line %s) -> bounded stand-in: %s cases, none failing' % (
                o['fn'], o['cat'], o['what'], o['line'], (orc or {}).get('cases', 0)))
    for kn in sorted(set(khits)):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn))
    used = sorted({u for k in keys for u in res[k]['used']})
    trusted = [u for u in used if u not in C.CONTRACTS]
    assumed = [u for u in used if u in C.CONTRACTS]
    ev = dict(property=prop, tier=tier, seed=seed, level=pd.get('level', 'proof'),
              coverage=dict(obligations=obls, discharged=disch, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
                            trusted_base=['vc/ (this VC generator: C semantics, loop rule, term rewriting)', 'z3 (python bindings) as the SMT back end', 'clang 18 AST as the source of the verified text']
                            + props.ASSUME + ['external contract: ' + t for t in trusted] + pd.get('assume', []),
                            functions_under_contract=per, callee_contracts_used=assumed,
                            backend_stats={k: res[k]['stats'] for k in keys},
                            solver_seconds=round(sum(res[k]['z3'] for k in keys), 2),
                            known_findings=sorted(set(khits)),
                            bounded_standin=None if not undecided else dict(label='BOUNDED, not proved', functions=sorted({o['fn'] for o in undecided}), search=orc),
                            concrete_search=orc),
              wall_s=round(time.time() - T0, 2))
    json.dump(ev, open(os.path.join(EVID, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if status == 0:
        print('OK property=%s obligations=%d discharged=%d undecided=%d wall=%.1fs' % (prop, obls, disch, len(undecided), time.time() - T0))
    sys.stdout.flush()
    import cfront, shutil
    shutil.rmtree(cfront.scratch(), ignore_errors=True)
    os._exit(status)


def load_known(prop):
    try:
        return [x for x in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if x['property'] == prop and x.get('status') == 'open']
    except Exception:
        return []


def match_known(known, o):
    for x in known:
        if x['function'] == o['fn'] and x['category'] == o['cat'] and x['obligation'] == o['what']:
            return x['what']
    return None


def run_oracle(prop, seed, secs):
    d = tempfile.mkdtemp(prefix='l1cchk_')
    out = os.path.join(d, 'o.json')
    try:
        t0 = time.time()
        p = subprocess.run([sys.executable, os.path.join(HERE, 'oracle', 'run.py'), prop, str(secs), str(seed), out], capture_output=True, timeout=secs + 120)
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            last = open(out + '.last').read() if os.path.exists(out + '.last') else '?'
            if p.returncode < 0 or 'Aborted' in p.stderr.decode(errors='replace'):
                r = dict(status='crash', msg='the library crashed (signal %s) in case %s' % (-p.returncode, last), case=last.split()[0], caseseed=(last.split() + ['0'])[1])
                import glob, re
                for g in glob.glob(out + '.san.*'):
                    t = open(g, errors='replace').read()
                    w = re.findall(r'(runtime error: .*|ERROR: AddressSanitizer: .*)', t)[:2] + re.findall(r' in (\S+ \S*src/\S+)', t)[:3]
                    r['msg'] += '; ' + ' | '.join(w)
            else:
                r = dict(status='error', msg=p.stderr.decode(errors='replace')[-800:], cases=0)
        r['seconds'] = round(time.time() - t0, 1)
        return r
    except subprocess.TimeoutExpired:
        last = open(out + '.last').read() if os.path.exists(out + '.last') else '?'
        return dict(status='crash', msg='the library did not return in case %s' % last, case=last.split()[0], caseseed=(last.split() + ['0'])[1])
    except Exception as e:
        return dict(status='error', msg=repr(e), cases=0)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
