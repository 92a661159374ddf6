import argparse
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
Z3SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
JOBS = int(os.environ.get('VC_JOBS', '7'))


def _env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', HOME=os.environ.get('HOME', '/root'))
    e.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    e['PYTHONPATH'] = VERIF
    return e


def _quiet_import():
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    so = os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 2)
    try:
        import gym  # noqa: F401
    except Exception:
        pass
    finally:
        os.dup2(so, 2)
        os.close(so)
        os.close(nul)


def _load(prop, mode):
    sys.path.append(Z3SITE)
    from vc import spec
    spec.MODE = mode
    _quiet_import()
    if mode == 'sym':
        from vc import loader
        loader.install()
    else:
        src = os.environ.get('VC_REPO', '/repo') + '/src'
        sys.path.insert(0, src)
    import pymgrid
    src = os.environ.get('VC_REPO', '/repo') + '/src/'
    assert pymgrid.__file__.startswith(src), pymgrid.__file__
    importlib.import_module(f'vc.props.{prop.lower()}')
    return spec.CONTRACTS.get(prop, [])


# --------------------------------------------------------------------- symbolic worker
_CS = None


def _stubs():
    """callees replaced by their own (separately proved) contract; returns an undo list.
    pymgrid.utils.space.ModuleSpace._bounds_check: returns None, changes nothing (proved as part of C11 'module space laws')."""
    undo = []
    try:
        cls = importlib.import_module('pymgrid.utils.space').ModuleSpace
        f = cls.__dict__.get('_bounds_check')
        if f is not None:
            cls._bounds_check = lambda self, *a, **k: None
            undo.append((cls, '_bounds_check', f))
    except Exception:
        pass
    return undo


def _sym_one(args):
    idx, scale = args
    k = _CS[idx]
    if not k.stubs and not k.callees:
        return _sym_run(idx, scale)
    from vc import spec
    undo = _stubs() if k.stubs else []
    spec.USE_CALLEES[0] = bool(k.callees)
    try:
        r = _sym_run(idx, scale)
    finally:
        spec.USE_CALLEES[0] = False
        for o, n, f in undo:
            setattr(o, n, f)
    r['callee_contracts_used'] = [f'{o.__module__}.{o.__qualname__}.{n}' for o, n, f in undo] + list(k.callees)
    r['callees_assumed'] = bool(k.callees) and not k.confirm
    if k.confirm:
        return r
    bad = lambda r: any(o['status'] == 'refuted' for o in r['obls'])
    if (undo or k.callees) and (bad(r) or r['error'] or r['missing_covers'] or any('unsupported' in u for u in r['undecided'])):
        # the failure may come from the callee contract: decide again with the callee's body
        r2 = _sym_run(idx, scale)
        if bad(r2):
            for o in r2['obls']:
                for o1 in r['obls']:
                    if o1['label'] == o['label']:
                        o['models'] += o1['models']
            return r2
        if not (r2['undecided'] or r2['error'] or r2['missing_covers']):
            return r2
        r['confirm_only'] = True
    return r


def _sym_run(idx, scale):
    from vc import core, spec
    warnings.simplefilter('ignore')
    k = _CS[idx]
    seen = set()
    mon = sys.monitoring
    src = os.environ.get('VC_REPO', '/repo') + '/src/'
    try:
        mon.use_tool_id(mon.PROFILER_ID, 'vc')

        def start(code, off):
            if code.co_filename.startswith(src):
                seen.add(f"{code.co_filename[len(src):]}:{code.co_qualname}")
            return mon.DISABLE
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
    except Exception:
        pass
    t0 = time.time()
    details = {}

    def h(c):
        I = spec.SymInputs(c)
        orig = c.ex.obligation

        k.fn(I)
        # frame condition of the engine: arrays sliced out of a symbolic series must not have been written to
        for a, vals in c.mut_views:
            flat = a.view(__import__('numpy').ndarray).reshape(-1)
            if any(x is not y for x, y in zip(flat, vals)):
                cond = spec.and_(*[spec.eq(x, y) for x, y in zip(flat, vals)])
                c.prove('frame: stored series not overwritten', cond)
        if not c.mut_ok:
            pass
    core.PathCtx.mut_ok = True
    from vc import loopcut
    loopcut.reset()
    end = time.time() + k.budget * scale
    while True:
        loopcut.STATE['changed'] = False
        ex = _explore(core, h, k, max(5.0, end - time.time()), scale)
        err = ex.err
        if not loopcut.STATE['changed'] or err or time.time() > end:
            break
    if loopcut.STATE['changed']:
        ex.undecided.append('no loop invariant found in time')
    obls = [dict(label=o.label, status=o.status, count=o.count, models=o.models, reason=o.reason) for o in ex.obls.values()]
    inv = {}
    for key, n in loopcut.STATE['used'].items():
        if key not in loopcut.DROPPED:
            inv.setdefault(f'{key[0]} over {key[1]}[{key[2]}]', []).append(key[3])
    missing = [c for c in k.covers if c not in ex.covers]
    return dict(name=k.name, targets=k.targets, bounded=k.bounded, obls=obls, paths=ex.paths, complete=ex.complete_paths,
                checks=ex.n_checks, queries=ex.queries, solver_s=round(ex.solver_time, 3), wall_s=round(time.time() - t0, 3),
                undecided=ex.undecided[:5], error=err, functions=sorted(seen), missing_covers=missing,
                covers=sorted(ex.covers), aux=k.aux, invariants=inv, confirm_only=k.confirm)


def _explore(core, h, k, budget, scale):
    ex = core.Explorer(h, budget_s=budget, max_paths=int(k.max_paths * scale), q_timeout=k.q_timeout, name=k.name)
    err = None
    try:
        ex.run()
    except Exception as e:
        err = ''.join(traceback.format_exception(e))[-3000:]
    ex.err = err
    return ex


def _already_violated(con):
    """the run-time check has found failing inputs: the verdict is known, only slow proofs are left"""
    try:
        return any(c['violations'] and not c.get('aux') for c in json.load(open(con)))
    except Exception:
        return False


def cmd_sym(a):
    global _CS
    _CS = [c for c in _load(a.prop, 'sym') if c.sym and (not a.only or c.name in a.only.split('|'))]
    import multiprocessing as mp
    scale = float(a.scale)
    out = []
    order = sorted(range(len(_CS)), key=lambda i: -_CS[i].weight)
    if a.serial:
        for i in order:
            out.append(_sym_one((i, scale)))
    elif order:
        ctxm = mp.get_context('fork')
        with ctxm.Pool(min(JOBS, len(order)), maxtasksperchild=1) as pool:
            rs = [(i, pool.apply_async(_sym_one, ((i, scale),))) for i in order]
            start = time.time()
            hard = start + float(a.hard)

            def get(r):
                while True:
                    try:
                        return r.get(timeout=max(1.0, min(5.0, hard - time.time())))
                    except mp.TimeoutError:
                        if time.time() >= hard or (time.time() - start > 150 and _already_violated(a.con)):
                            raise
            for i, r in rs:
                try:
                    out.append(get(r))
                except mp.TimeoutError:
                    out.append(dict(name=_CS[i].name, targets=_CS[i].targets, bounded=_CS[i].bounded, obls=[], paths=0, complete=0,
                                    checks=0, queries=0, solver_s=0.0, wall_s=0.0, undecided=['hard time limit'], error=None,
                                    functions=[], missing_covers=[], covers=[]))
            pool.terminate()
    json.dump(out, open(a.out, 'w'), default=str)


# --------------------------------------------------------------------- concrete
def _through_repo(e):
    """did the exception come out of the repository's code (and not from the harness or from a private name that moved)?"""
    if isinstance(e, (AttributeError, NameError)) and (str(getattr(e, 'name', None) or '_').startswith('_')):
        return False
    src = os.environ.get('VC_REPO', '/repo') + '/src/'
    tb, files = e.__traceback__, []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    vc = os.path.join(VERIF, 'vc')
    if isinstance(e, (KeyError, IndexError)) and files and files[-1].startswith(os.path.join(VERIF, 'vc', 'props')):
        return True         # an entry that the harness reads from a public result is not there
    last_repo = max((i for i, f in enumerate(files) if f.startswith(src)), default=-1)
    last_vc = max((i for i, f in enumerate(files) if f.startswith(vc)), default=-1)
    return last_repo > last_vc


def _run_concrete(k, I, npseed):
    import numpy as np
    from vc import spec
    np.random.seed(npseed % (2 ** 32))
    random.seed(npseed)
    I.values['__npseed'] = npseed
    try:
        k.fn(I)
    except spec.Skip:
        return 'skip' if I.ensured == 0 else 'ok', None
    except spec.Violated as v:
        return 'violated', v
    return 'ok', None


def cmd_concrete(a):
    from vc import spec
    ks = [c for c in _load(a.prop, 'concrete') if not a.only or c.name in a.only.split('|')]
    res = []
    for k in ks:
        t0 = time.time()
        n = int(k.random_n * float(a.scale))
        r = dict(name=k.name, tried=0, evaluated=0, ensured=0, violations=[], sample=None, error=None, covers=[], distinct=0)
        digests = set()
        cov = set()
        for s in range(n):
            if time.time() - t0 > float(a.percap):
                break
            seed = int(hashlib.sha256(f"{a.seed}/{k.name}/{s}".encode()).hexdigest()[:12], 16)
            I = spec.RandomInputs(random.Random(seed))
            r['tried'] += 1
            try:
                st, v = _run_concrete(k, I, seed)
            except Exception as e:
                if _through_repo(e):
                    # a public call of the harness that never fails on valid input raised inside the repository
                    r['violations'].append(dict(label='set-up calls do not raise', detail=repr(e)[:300], values=I.values))
                    break
                r['error'] = ''.join(traceback.format_exception(e))[-2500:]
                r['errvalues'] = I.values
                break
            cov |= I.cov
            if st == 'ok':
                r['evaluated'] += 1
                r['ensured'] += I.ensured
                digests.add(hashlib.md5(json.dumps(I.values, sort_keys=True, default=str).encode()).hexdigest())
                if r['sample'] is None or (r['evaluated'] == 7):
                    r['sample'] = I.values
            elif st == 'violated':
                r['violations'].append(dict(label=v.label, detail=v.detail, values=I.values))
                if len(r['violations']) >= 3:
                    break
        r['covers'] = sorted(cov)
        r['distinct'] = len(digests)
        r['wall_s'] = round(time.time() - t0, 2)
        r['aux'] = k.aux
        res.append(r)
        with open(a.out + '.tmp', 'w') as f:        # results so far survive a time-out
            json.dump(res, f, default=str)
        os.replace(a.out + '.tmp', a.out)


def cmd_replay(a):
    d = json.load(open(a.file))
    from vc import spec
    ks = [c for c in _load(d['property'], 'concrete') if c.name == d['contract']]
    if not ks:
        print('contract not found')
        sys.exit(3)
    for vals in d.get('candidates') or [d['inputs']]:
        I = spec.ReplayInputs(vals)
        try:
            st, v = _run_concrete(ks[0], I, int(vals.get('__npseed', 1)))
        except Exception as e:
            if d.get('setup_ok') and _through_repo(e):
                print(json.dumps(dict(label='set-up calls do not raise', detail=repr(e)[:300], inputs=vals), default=str))
                sys.exit(1)
            print('replay error', repr(e))
            continue
        if st == 'violated':
            print(json.dumps(dict(label=v.label, detail=v.detail, inputs=vals), default=str))
            sys.exit(1)
    print('not reproduced')
    sys.exit(0)


def _sub(args, timeout):
    try:
        p = subprocess.run([PY, '-m', 'vc.main', *args], cwd=VERIF, env=_env(), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


def _start(args):
    return subprocess.Popen([PY, '-m', 'vc.main', *args], cwd=VERIF, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def _try_replay(prop, contract, candidates, work, setup_ok=False):
    f = os.path.join(work, f'cand_{os.getpid()}_{len(os.listdir(work))}.json')
    json.dump(dict(property=prop, contract=contract, candidates=candidates, setup_ok=setup_ok), open(f, 'w'), default=str)
    rc, so, se = _sub(['replay', f], 120)
    if rc == 1:
        for line in so.splitlines():
            if line.startswith('{'):
                return json.loads(line)
    return None


def _known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


ASSUME_BASE = [
    "machine floats are treated as mathematical reals (rounding, overflow, NaN and denormals are outside the proof; the run-time cross-check executes real floats with a 1e-6 relative tolerance)",
    "Python integers are mathematical integers (exact in CPython)",
    "the symbolic shims for numpy / gym.spaces.Box / math / builtins listed in vc/npshim.py, vc/series.py, vc/loader.py agree with the real libraries on the operations used (validated, not proved, by the run-time cross-check of the same contracts on unmodified numpy)",
    "z3 is sound; CPython executes the source as the language reference says",
]


def cmd_check(a):
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import tempfile
    import shutil
    work = tempfile.mkdtemp(prefix=f'vc_{prop}_')
    try:
        rc = _check(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def _check(prop, tier, seed, t0, work):
    thorough = tier == 'thorough'
    scale = 4.0 if thorough else 1.0
    symf, conf = os.path.join(work, 'sym.json'), os.path.join(work, 'con.json')
    hard = 2400 if thorough else 420
    ps = _start(['sym', prop, '--out', symf, '--scale', str(scale), '--hard', str(hard), *([] if thorough else ['--con', conf])])
    pc = _start(['concrete', prop, '--out', conf, '--seed', str(seed), '--scale', '10' if thorough else '1',
                 '--percap', '120' if thorough else '20'])
    serr = cerr = ''
    limit = t0 + (3000 if thorough else 560)          # first phase
    limit2 = t0 + (3400 if thorough else 780)         # searches for failing inputs
    try:
        _, serr = ps.communicate(timeout=hard + 60)
    except subprocess.TimeoutExpired:
        ps.kill()
        serr = 'timeout'
    try:
        _, cerr = pc.communicate(timeout=max(5, limit - time.time()))
    except subprocess.TimeoutExpired:
        pc.kill()
        cerr = 'timeout'
    sym = json.load(open(symf)) if os.path.exists(symf) else None
    con = json.load(open(conf)) if os.path.exists(conf) else None
    violations = []   # (contract, label, replay-info or None, verifier text)
    notes = []
    if sym is None and con is None:
        # the code cannot even be imported/instantiated
        sys.stderr.write((serr or '')[-3000:] + '\n' + (cerr or '')[-3000:])
        print(f'CHECK-ERROR property={prop}: neither the verifier nor the run-time check could start')
        return 2
    if sym is None:
        notes.append('symbolic verifier did not run: ' + (serr or '')[-1500:])
        sym = []
    if con is None:
        notes.append('run-time cross-check did not run: ' + (cerr or '')[-1500:])
        con = []
    undec = []
    for c in con:
        if c.get('aux'):
            if c['violations']:
                undec.append(f"{c['name']}: contract of a private helper does not hold: {c['violations'][0]['label']}")
            continue
        for v in c['violations'][:3]:
            rep = _try_replay(prop, c['name'], [v['values']], work, setup_ok=True)
            if rep:
                violations.append(dict(contract=c['name'], label=rep['label'], detail=rep['detail'], inputs=rep['inputs'], source='run-time contract check on the real code', verifier=None))
                break
        else:
            if c['violations']:
                notes.append(f"{c['name']}: run-time violation did not reproduce in a fresh process: {c['violations'][0]['label']}")
        if c['error']:
            notes.append(f"{c['name']}: harness error at run time: {c['error'][-600:]}")
    obl = disch = 0
    per = []
    searched = set()
    aux_bad = [s['name'] for s in sym if s.get('aux') and (s['undecided'] or s['error'] or not s['checks'] or s['missing_covers']
                                                          or any(o['status'] != 'proved' for o in s['obls']))]
    for s in sym:
        st = 'proved'
        if aux_bad and s.get('callees_assumed') and not s['undecided']:
            s['undecided'] = ['a callee contract it uses is not proved: ' + ', '.join(aux_bad)]
        for o in s['obls']:
            if o['status'] == 'refuted':
                st = 'refuted'
        if st != 'refuted' and (s['undecided'] or s['error'] or any(o['status'] == 'unknown' for o in s['obls'])
                                or s['checks'] == 0 or s['complete'] == 0 or s['missing_covers']):
            st = 'undecided'
            why = s['undecided'] or s['error'] or [o['label'] + ': unknown' for o in s['obls'] if o['status'] == 'unknown'] \
                or (['uncovered: ' + ', '.join(s['missing_covers'])] if s['missing_covers'] else ['no obligations'])
            undec.append(f"{s['name']}: {str(why)[:400]}")
        per.append(dict(contract=s['name'], status=st if not (st == 'proved' and s['bounded']) else 'proved within bound',
                        bound=s['bounded'], targets=s['targets'], obligations=s['checks'],
                        labels=[o['label'] + ('' if o['status'] == 'proved' else f" [{o['status']}]") for o in s['obls']],
                        paths=s['paths'], queries=s['queries'], solver_s=s['solver_s'],
                        callee_contracts_used=s.get('callee_contracts_used', []), loop_invariants=s.get('invariants', {})))
        if not s['bounded']:
            obl += s['checks']
            if st == 'proved':
                disch += s['checks']
            else:
                disch += sum(o['count'] for o in s['obls'] if o['status'] == 'proved') if st == 'refuted' else 0
        for o in s['obls']:
            if o['status'] != 'refuted':
                continue
            if s.get('aux'):
                undec.append(f"{s['name']}: contract of a private helper refuted: {o['label']}")
                continue
            if any(v['contract'] == s['name'] and v['label'] == o['label'] for v in violations):
                for v in violations:
                    if v['contract'] == s['name'] and v['label'] == o['label'] and not v['verifier']:
                        v['verifier'] = dict(obligation=o['label'], models=o['models'][:3])
                continue
            rep = _try_replay(prop, s['name'], o['models'], work) if o['models'] else None
            if rep is None and not any(v['contract'] == s['name'] for v in violations) and s['name'] not in searched \
                    and time.time() < (t0 + 240 if any(v['inputs'] for v in violations) and not thorough else limit2):
                searched.add(s['name'])
                # contract-directed search on the real code
                f2 = os.path.join(work, 'dir.json')
                _sub(['concrete', prop, '--out', f2, '--seed', str(seed + 1000), '--scale', '8', '--percap', '40', '--only', s['name']], 120)
                if os.path.exists(f2):
                    for c in json.load(open(f2)):
                        for v in c['violations'][:1]:
                            rep = _try_replay(prop, s['name'], [v['values']], work)
                    os.unlink(f2)
            if rep is None and o['label'].endswith(' (no exception)'):
                # a library operation the shims reject looks like an exception of the code
                undec.append(f"{s['name']}: {o['label']}: an exception on symbolic values, not reproduced on the real code")
                continue
            if rep is None and s.get('confirm_only'):
                undec.append(f"{s['name']}: {o['label']}: refuted only under the contract of a callee, not reproduced")
                continue
            if rep:
                violations.append(dict(contract=s['name'], label=rep['label'], detail=rep['detail'], inputs=rep['inputs'],
                                       source='counter-model of the refuted obligation replayed on the real code',
                                       verifier=dict(obligation=o['label'], models=o['models'][:3])))
            else:
                violations.append(dict(contract=s['name'], label=o['label'], detail='', inputs=None,
                                       source='obligation refuted by the solver',
                                       verifier=dict(obligation=o['label'], models=o['models'][:3])))
    # de-duplicate, confirmed ones first
    seen = set()
    uniq = []
    for v in sorted(violations, key=lambda v: v['inputs'] is None):
        key = (v['contract'], v['label'])
        if key in seen:
            continue
        seen.add(key)
        uniq.append(v)
    known = [k for k in _known() if k.get('property') == prop and k.get('status') == 'known']
    rc = 0
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    nviol = 0
    reported_known = set()
    for v in uniq:
        kf = next((k for k in known if k['contract'] == v['contract'] and k['obligation'] == v['label']), None)
        if kf:
            reported_known.add(kf['id'])
            continue
        path = os.path.join(VERIF, 'evidence', 'replays', f"{prop}_{v['contract'].replace(' ', '_').replace('/', '_')}_{nviol}.json")
        json.dump(dict(property=prop, contract=v['contract'], failed_obligation=v['label'], detail=v['detail'], inputs=v['inputs'],
                       found_by=v['source'], verifier_output=v['verifier'],
                       setup_ok=v['label'] == 'set-up calls do not raise',
                       how_to_replay=f"cd {VERIF} && ./check replay {path}"), open(path, 'w'), indent=1, default=str)
        tail = '' if v['inputs'] is not None else ' no-failing-input-found'
        print(f"VIOLATION property={prop} replay={path}{tail}")
        print(f"  contract {v['contract']}: obligation '{v['label']}' fails. {v['detail'][:300]}")
        nviol += 1
        rc = 1
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for n in notes:
        print('note:', n[:1500])
    for u in undec:
        print('undecided (run-time bounded check stands in):', u[:600])
    funcs = sorted({f for s in sym for f in s['functions']})
    targets = sorted({t for s in sym for t in s['targets']})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if sym and any(not s['bounded'] for s in sym) else 'exploration',
              coverage=dict(
                  obligations=obl, discharged=disch,
                  checker_cmd=f"./check {prop}  (z3 via vc/core.py: path-wise VCs of the real source)",
                  trusted_base=['z3 ' + _z3v(), 'CPython ' + sys.version.split()[0], 'vc/core.py path enumeration', 'vc/npshim.py, vc/series.py, vc/loader.py library shims', 'contracts in vc/props/' + prop.lower() + '.py'],
                  contracts=per,
                  functions_under_contract=targets,
                  repository_functions_executed_symbolically=funcs,
                  solver='z3', solver_s=round(sum(s['solver_s'] for s in sym), 2),
                  solver_queries=sum(s['queries'] for s in sym), paths=sum(s['paths'] for s in sym),
                  undecided=undec,
                  bounded_contracts=[dict(contract=s['name'], bound=s['bounded'], obligations=s['checks']) for s in sym if s['bounded']],
                  runtime_cross_check=dict(
                      evaluations=sum(c['evaluated'] for c in con), postconditions_evaluated=sum(c['ensured'] for c in con),
                      per_contract={c['name']: c['evaluated'] for c in con}),
                  evaluations=sum(c['evaluated'] for c in con),
                  distinct_nontrivial=sum(c['distinct'] for c in con),
                  rule='contract inputs drawn with VERIF_SEED, bounds/zeros/repeats over-weighted; non-trivial = precondition satisfied and at least one postcondition evaluated; distinct by input values',
                  samples=[dict(contract=c['name'], inputs=c['sample']) for c in con if c['sample']][:4],
                  notes=notes),
              assumptions=ASSUME_BASE + _extra_assumptions(prop), wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
    tot = sum(s['checks'] for s in sym)
    print(f"{prop}: {len(sym)} contracts, {obl} unbounded obligations ({disch} discharged), {tot - obl} bounded, "
          f"{sum(c['evaluated'] for c in con)} run-time evaluations, {len(undec)} undecided, {nviol} violations, {time.time() - t0:.1f}s")
    if not nviol and not tot and not any(c['ensured'] for c in con):
        print(f'CHECK-ERROR property={prop}: nothing was checked')
        return 2
    return rc


def _z3v():
    try:
        sys.path.append(Z3SITE)
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def _extra_assumptions(prop):
    """ASSUME: lines of the contract file, collected mechanically."""
    f = os.path.join(HERE, 'props', prop.lower() + '.py')
    out = []
    for fn in (f, os.path.join(HERE, 'models.py')):
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if line.startswith('# ASSUME:'):
                    out.append(line[len('# ASSUME:'):].strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd')
    p = sp.add_parser('check')
    p.add_argument('prop')
    p.add_argument('--tier')
    p.set_defaults(f=cmd_check)
    p = sp.add_parser('sym')
    p.add_argument('prop')
    p.add_argument('--out', default='/dev/stdout')
    p.add_argument('--scale', default='1')
    p.add_argument('--hard', default='400')
    p.add_argument('--con', default='')
    p.add_argument('--only', default='')
    p.add_argument('--serial', action='store_true')
    p.set_defaults(f=cmd_sym)
    p = sp.add_parser('concrete')
    p.add_argument('prop')
    p.add_argument('--out', default='/dev/stdout')
    p.add_argument('--seed', default='1')
    p.add_argument('--scale', default='1')
    p.add_argument('--percap', default='20')
    p.add_argument('--only', default='')
    p.set_defaults(f=cmd_concrete)
    p = sp.add_parser('replay')
    p.add_argument('file')
    p.set_defaults(f=cmd_replay)
    a = ap.parse_args()
    a.f(a)


if __name__ == '__main__':
    main()
