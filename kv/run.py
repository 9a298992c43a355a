"""python3-vt -m kv.run ID [--tier quick|thorough] [--only CONTRACT] [-v]

Decides one property on the current /repo: generates and discharges the obligations of every contract the property
depends on, replays what fails, runs the bounded stand-ins, writes evidence/<ID>.json."""
from __future__ import annotations

import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import pkgutil
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

TRUSTED = [
    'kv/engine (verification-condition generator: Python subset semantics, loop summaries, rope algebra)',
    'z3 5.x (SMT solver)',
    'CPython standard library behaviour modelled by the engine (str, bytes, list, deque, dict, format, int, re.sub)',
]


logging.disable(logging.CRITICAL)


def load():
    import kv.contracts
    errors = []
    for m in sorted(x.name for x in pkgutil.iter_modules(kv.contracts.__path__)):
        try:
            importlib.import_module('kv.contracts.' + m)
        except Exception as ex:  # noqa  -- a module of the repo was restructured: the contracts cannot be stated
            errors.append((m, f'{type(ex).__name__}: {ex}', traceback.format_exc()))
    from kv.engine.harness import CONTRACTS
    return CONTRACTS, errors


def describe(eng):
    return {
        'obligations': eng.obligations, 'discharged': eng.discharged, 'trivial': eng.trivial, 'paths': eng.paths,
        'queries': eng.queries, 'solver_s': round(eng.solver_time, 3), 'undecided': eng.undecided[:20],
        'failures': [{'name': f.name, 'kind': 'soft' if eng.lost else f.kind, 'detail': str(f.detail)[:600], 'inputs': f.inputs}
                     for f in eng.failures[:30]],
        'functions': sorted(eng.functions), 'covers': eng.covers,
        'assumed': sorted(eng.used_assumptions), 'tb': getattr(eng, 'last_tb', ''),
    }


def task_sym(c, args):
    from kv.engine.harness import run_symbolic, run_native
    t0 = time.time()
    eng = run_symbolic(c, budget=args['budget'])
    d = describe(eng)
    d['wall'] = round(time.time() - t0, 2)
    d['replays'] = []
    for n, f in enumerate(eng.failures[:8]):
        if f.inputs:
            try:
                st, info, used = run_native(c, f.inputs, seed=n)
            except Exception:
                if c.native:
                    raise
                continue        # a contract about arbitrarily many elements: there is nothing to run
            d['replays'].append({'failure': n, 'status': st, 'info': info, 'values': enc(used)})
    for f in d['failures']:
        f['inputs'] = enc(f['inputs'])
    return d


def task_nat(c, args):
    from kv.engine.harness import native_search
    t0 = time.time()
    found, ran, checked = native_search(c, args['n'], args['seed'], args['seconds'])
    if found:
        found['values'] = enc(found['values'])
    return {'found': found, 'ran': ran, 'checked': checked, 'wall': round(time.time() - t0, 2)}


def enc(v):
    if isinstance(v, bytes):
        return {'bytes': v.hex()}
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def dec(v):
    if isinstance(v, dict):
        if set(v) == {'bytes'}:
            return bytes.fromhex(v['bytes'])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def child(conn, fn, c, args):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:  # noqa
        pass
    try:
        conn.send(('ok', fn(c, args)))
    except BaseException as ex:  # noqa
        conn.send(('err', f'{type(ex).__name__}: {ex}', traceback.format_exc()))
    conn.close()


def run_tasks(tasks, jobs, verbose=False, limit=480):
    """tasks: [(key, fn, contract, args, timeout)] -> {key: result}"""
    ctx = mp.get_context('fork')
    out, running, queue = {}, [], list(tasks)
    deadline, why = time.time() + limit, f'no result within {limit} s in total'
    while queue or running:
        if time.time() > deadline:
            for x in [x for x in running if x[0][0] == 'sym']:
                x[1].kill()
                x[1].join(2)
                running.remove(x)
                out[x[0]] = ('err', why, '')
            for x in [x for x in queue if x[0][0] == 'sym']:
                queue.remove(x)
                out[x[0]] = ('err', why, '')
        while queue and len(running) < jobs:
            key, fn, c, a, to = queue.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, fn, c, a), daemon=True)
            p.start()
            w.close()
            running.append((key, p, r, time.time(), to))
        for x in list(running):
            key, p, r, t0, to = x
            done = None
            try:
                if r.poll(0.01):
                    done = r.recv()
            except EOFError:
                done = ('err', 'worker died', '')
            if done is None and time.time() - t0 > to:
                p.kill()
                done = ('err', f'no result within {to} s', '')
            if done is not None:
                running.remove(x)
                p.join(2)
                if p.is_alive():
                    p.kill()
                out[key] = done
                if key[0] == 'nat' and done[0] == 'ok' and done[1]['found'] and deadline > time.time() + 45:
                    deadline, why = time.time() + 45, 'stopped: a violation was found'
                if verbose:
                    print(f'  {key} {time.time() - t0:.1f}s', done[0], summary(done), flush=True)
    return out


def summary(d):
    if d[0] != 'ok':
        return d[1:]
    x = d[1]
    if 'obligations' in x:
        return {k: x[k] for k in ('obligations', 'discharged', 'paths', 'solver_s')} | \
            ({'UNDECIDED': x['undecided'][:4]} if x['undecided'] else {}) | \
            ({'FAIL': [(f['name'], f['kind'], f['detail'][:300], f['inputs']) for f in x['failures'][:4]],
              'replays': [(r['status'], r['info']) for r in x['replays']]} if x['failures'] else {})
    return x


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--mode', default='all')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    jobs = int(os.environ.get('KV_JOBS', '8'))
    thorough = a.tier == 'thorough'
    sys.path.insert(0, HERE)
    if a.replay:
        return replay(a.replay)
    contracts, load_errors = load()
    mine = [c for c in contracts.values() if (a.prop in c.props or a.prop.endswith('*') and any(x.startswith(a.prop[:-1]) for x in c.props)) and (not a.only or re.search(a.only, c.name))]
    tasks = []
    for c in mine:
        if c.proof and a.mode in ('all', 'sym'):
            b = c.budget * (2 if thorough else 1)
            tasks.append((('sym', c.name), task_sym, c, {'budget': b}, b + 60))
    for c in mine:
        if c.native and a.mode in ('all', 'nat'):
            n = c.native
            if thorough:
                n = c.native_thorough or n * 20
            blocks = max(1, min(jobs, n // 400))
            for k in range(blocks):
                tasks.append((('nat', c.name, k), task_nat, c,
                              {'n': n // blocks + 1, 'seed': seed * 100 + k, 'seconds': 240 if thorough else 60},
                              300 if thorough else 90))
    res = run_tasks(tasks, jobs, a.v, 1800 if thorough else 480)
    violations, undecided, cov = [], [], []
    for m, e, _ in load_errors:
        undecided.append((m, f'contracts cannot be loaded: {e}'))
    pending = []
    per = {}
    for c in mine:
        rec = {'contract': c.name, 'kind': 'bounded' if not c.proof else 'proof'}
        per[c.name] = rec
        s = res.get(('sym', c.name))
        if s is not None:
            if s[0] != 'ok':
                undecided.append((c.name, s[1]))
                rec['undecided'] = [s[1]]
                if a.v and len(s) > 2:
                    print(s[2])
            else:
                d = s[1]
                rec.update({k: d[k] for k in ('obligations', 'discharged', 'trivial', 'paths', 'queries', 'solver_s',
                                              'functions', 'assumed')})
                if a.v and d['tb']:
                    print(c.name, '\n'.join(d['tb'].splitlines()[-7:]))
                if d['undecided']:
                    undecided.append((c.name, '; '.join(sorted(set(d['undecided']))[:3])))
                    rec['undecided'] = sorted(set(d['undecided']))[:5]
                if d['obligations'] == 0 and not d['undecided']:
                    undecided.append((c.name, 'no obligation was generated (vacuous)'))
                bad = [k for k, v in d['covers'].items() if not v]
                if bad:
                    undecided.append((c.name, f'unreachable: {bad}'))
                if d['failures']:
                    good = [r for r in d['replays'] if r['status'] == 'broken' and not api_mismatch(r['info'], c.name)]
                    if good:
                        violations.append({'contract': c.name, 'how': 'verifier counterexample replayed on the real code',
                                           'values': good[0]['values'], 'info': good[0]['info'],
                                           'verifier': d['failures'][:3]})
                    else:
                        pending.append((c, d))
        ran = chk = 0
        for key, r in res.items():
            if key[0] == 'nat' and key[1] == c.name:
                if r[0] != 'ok':
                    undecided.append((c.name, 'native run: ' + r[1]))
                    if a.v:
                        print(r[2])
                    continue
                d = r[1]
                ran += d['ran']
                chk += d['checked']
                if d['found']:
                    v = {'contract': c.name, 'how': 'random execution of the contract on the real code',
                         'values': d['found']['values'],
                         'info': {k: d['found'][k] for k in ('obligation', 'detail')}}
                    if api_mismatch(v['info'], c.name) and c.proof:
                        undecided.append((c.name, 'interface changed: ' + v['info']['detail'][:200]))
                    else:
                        violations.append(v)
        if c.native:
            rec['native_runs'], rec['native_checks'] = ran, chk
            if ran == 0:
                undecided.append((c.name, 'no native run satisfied the assumptions'))
    # failed obligations without a replayed input: search
    if pending and not violations:
        extra = []
        names = {c.name for c, _ in pending}
        for c in mine:
            if c.native and (c.name in names or not c.proof):
                for k in range(4):
                    extra.append((('nat', c.name, k), task_nat, c,
                                  {'n': 10 ** 9, 'seed': seed * 7000 + k, 'seconds': int(os.environ.get('KV_SEARCH', 60)) if not thorough else 180}, 250))
        r2 = run_tasks(extra, jobs, a.v)
        for key, r in r2.items():
            if r[0] == 'ok' and r[1]['found']:
                v = {'contract': key[1], 'how': 'search after a failed obligation', 'values': r[1]['found']['values'],
                     'info': {k: r[1]['found'][k] for k in ('obligation', 'detail')},
                     'verifier': [f for _, d in pending for f in d['failures'][:3]]}
                if not (api_mismatch(v['info'], key[1]) and contracts[key[1]].proof):
                    violations.append(v)
        if not violations:
            for c, d in pending:
                hard = [f for f in d['failures'] if f['kind'] == 'hard']
                if hard:
                    violations.append({'contract': c.name, 'how': 'failed obligation', 'values': None,
                                       'info': {'obligation': hard[0]['name'], 'detail': hard[0]['detail']},
                                       'verifier': hard[:5], 'noinput': True})
                else:
                    undecided.append((c.name, 'obligation not discharged: ' +
                                      '; '.join(sorted({f['name'] + ': ' + f['detail'][:150] for f in d['failures']})[:3])))
    wall = time.time() - t0
    finish(a, mine, per, violations, undecided, seed, wall, load_errors)


def api_mismatch(info, name=''):
    """the harness could not call the function the way the contract states it (a restructured interface)"""
    d = str((info or {}).get('detail', ''))
    if (info or {}).get('obligation') != 'no exception':
        return False
    if d.startswith(('NameError', 'UnboundLocalError')):
        return not d.endswith('raised in code')
    if d.endswith('raised in code') and name.startswith('P'):      # nothing is stubbed there
        return d.startswith('AttributeError') and re.search(r"'(NoneType|str|int|float|bool|tuple|list|dict|set|bytes)' object", d) is None
    return d.startswith('AttributeError') or \
        d.startswith('TypeError') and re.search(r'takes .*argument|missing \d+ required|unexpected keyword|multiple values', d) is not None


def finish(a, mine, per, violations, undecided, seed, wall, load_errors):
    prop = a.prop
    proofs = [r for r in per.values() if r['kind'] == 'proof' and 'obligations' in r]
    obl = sum(r['obligations'] for r in proofs)
    dis = sum(r['discharged'] for r in proofs)
    funcs = sorted({f for r in proofs for f in r.get('functions', ())})
    bounded = [r for r in per.values() if r['kind'] == 'bounded']
    from kv import known
    kf = known.load()
    shown = []
    reported = []
    for v in violations:
        k = known.match(kf, prop, v)
        if k:
            shown.append(k)
        else:
            reported.append(v)
    level = level_of(prop)
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': f'python3-vt -m kv.run {prop} --tier {a.tier}',
        'trusted_base': TRUSTED + sorted({x for r in proofs for x in r.get('assumed', ())}),
        'backend': 'z3 (python bindings), every obligation; regular-language obligations by the automata engine kv/engine/rx.py',
        'solver_s': round(sum(r.get('solver_s', 0) for r in proofs), 2),
        'functions_under_contract': funcs,
        'contracts': list(per.values()),
        'undecided': [f'{n}: {w}' for n, w in undecided],
        'evaluations': sum(r.get('native_runs', 0) for r in per.values()),
        'rule': 'native cross-check and bounded stand-ins: contract harness on random inputs (seeded); every run that '
                'satisfies the assumptions and reaches at least one check counts',
        'bounded_standins': [r['contract'] for r in bounded],
    }
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': level, 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(reported),
          'assumptions': assumptions_of(prop)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not prop.endswith('*'):
      with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{prop}: {len(mine)} contracts, {obl} obligations, {dis} discharged, '
          f'{cov["evaluations"]} native runs, {len(undecided)} undecided, {wall:.1f} s')
    for n, w in undecided:
        print(f'  undecided: {n}: {w[:400]}')
    for k in kf:
        if k['kind'] == 'known' and k['property'] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    if reported:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        best = sorted(reported, key=lambda v: (v.get('noinput', False), len(json.dumps(v['values'], default=str))))[0]
        path = os.path.join(HERE, 'replays', f'{prop}-{int(time.time())}-{os.getpid()}.json')
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'violations': [best] + [v for v in reported if v is not best][:10],
                       'replay_cmd': f'cd /verif && python3-vt -m kv.run {prop} --replay {path}'}, fh, indent=1, default=str)
        print(f"  {best['contract']}: {best['how']}: {best['info']}")
        print(f"  values: {json.dumps(best['values'], default=str)[:1500]}")
        print(f'VIOLATION property={prop} replay={path}' + (' no-failing-input-found' if best.get('noinput') else ''))
        sys.exit(1)
    if not mine:
        print('no contract for this property could be loaded')
    sys.exit(0)


def replay(path):
    d = json.load(open(path))
    contracts, _ = load()
    from kv.engine.harness import run_native
    bad = 0
    for v in d['violations']:
        if v['values'] is None:
            print('no concrete input:', v['info'], json.dumps(v.get('verifier'), indent=1)[:3000])
            continue
        st, info, used = run_native(contracts[v['contract']], dec(v['values']))
        print(v['contract'], st, info)
        bad |= st == 'broken'
    sys.exit(1 if bad else 0)


def level_of(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:  # noqa
        pass
    return 'proof'


def assumptions_of(prop):
    from kv import known
    return known.ASSUMPTIONS.get('*', []) + known.ASSUMPTIONS.get(prop, [])


if __name__ == '__main__':
    main()
