#!/usr/bin/env python
"""check.py --property C02 [--tier quick|thorough] [--replay FILE]

Decides one property: every contract tagged with it is (1) turned into proof obligations over the instrumented real source
under /repo/src and discharged for all inputs, (2) evaluated on the real package on sampled inputs as a cross-check of the
verifier against CPython, or as bounded stand-in where an obligation stays open."""
import argparse
import ast
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
sys.path.insert(0, SRC)
sys.setrecursionlimit(12000)

import engine  # noqa
from engine import dsl, run  # noqa

FIRST_PARTY_TRUST = [
    'CPython 3.12 executing the instrumented source (engine/instr.py rewrites loops, comprehensions, list displays, identity/membership tests and imports; annotations and print output are dropped)',
    'models of the numpy operations used (engine/arr.py), cross-checked by evaluating the same contracts on the real numpy',
    'z3 4.x / cvc5 1.1.2 and the polynomial normaliser engine/terms.py',
    'floating point treated as exact real arithmetic (rounding, overflow, NaN propagation not modelled; NaN tests uninterpreted)',
    'loop summaries derived by engine/loops.py (closed forms checked against the generic iteration)',
    'verification-condition generator engine/hoare.py (contracts with loop invariants; statements read from the source on every run)',
]


def load(prop):
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n != '__init__':
            importlib.import_module('contracts.' + n)
    return [c for c in dsl.CONTRACTS if c.prop == prop]


def package_is_from_repo():
    import wai.ma
    p = list(wai.ma.__path__)[0]
    return os.path.realpath(p).startswith(os.path.realpath(SRC)), p


BASE = {}


def baseline():
    """Obligations the verifier discharged on the tree the contracts were written for (committed; never written by a check)."""
    if not BASE:
        p = os.path.join(HERE, 'baseline.json')
        BASE.update(json.load(open(p)) if os.path.exists(p) else dict(contracts={}, source=None))
    return BASE


def source_digest():
    """Digest of the abstract syntax of the package (comments and layout do not count)."""
    h = hashlib.sha256()
    root = os.path.join(SRC, 'wai')
    for f in sorted(glob.glob(os.path.join(root, '**', '*.py'), recursive=True)):
        h.update(os.path.relpath(f, root).encode())
        try:
            h.update(ast.dump(ast.parse(open(f, encoding='utf-8').read())).encode())
        except SyntaxError as e:
            h.update(repr(e).encode())
    return h.hexdigest()


def failed_obligations(c, s):
    """Obligations that do not go through although the verifier discharged them when the contract was committed:
    name -> (obligation record, refuted?)."""
    b = baseline()['contracts'].get(f'{c.prop}/{c.name}')
    if b is None or not s or s['status'] != 'done':
        return {}
    if b.get('skeleton') != s.get('skeleton'):
        return {}           # loop invariants written for another arrangement of the statements
    out = {}
    for n, o in s['obligations'].items():
        if not (b['complete'] or n in b['discharged']):
            continue
        if any(x not in b.get('ops', ()) or x.startswith('iter') for x in o.get('ops', ())):
            continue        # about an operation the proof knows by name only: undecided
        if o['refuted']:
            out[n] = (o, True)
        elif o['unknown']:
            out[n] = (o, False)
    return out


MEMORY = 6 << 30        # bytes a contract's process may take: a runaway must not take the machine with it


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    import z3
    z3.set_param('memory_max_size', (MEMORY >> 20) * 2 // 3)


def child(job, conn):
    limits()
    conn.send(work(job))
    conn.close()


def run_all(jobs, end, cs):
    """Every contract in a process of its own, eight at a time: one that dies or does not end costs that contract only."""
    f = mp.get_context('fork')
    results, todo, running = [None] * len(cs), list(jobs), {}

    def missing(j, why):
        results[j[0]] = dict(contract=cs[j[0]].name, text='', targets=list(cs[j[0]].fns), bounded_only=not cs[j[0]].sym, crash=why)
    while todo or running:
        while todo and len(running) < 8:
            j = todo.pop(0)
            r, w = f.Pipe(False)
            p = f.Process(target=child, args=(j, w))
            p.start()
            w.close()
            running[r] = (j, p)
        for r in wait(list(running), timeout=max(0, end - time.time())):
            j, p = running.pop(r)
            try:
                results[j[0]] = r.recv()
            except EOFError:
                missing(j, 'its process ended')
            r.close()
            p.join()
        if time.time() >= end:
            for j, p in running.values():
                p.kill()
                missing(j, 'timeout')
            for j in todo:
                missing(j, 'timeout')
            break
    return results


def work(arg):
    idx, prop, seed, tier, changed = arg
    cs = [c for c in dsl.CONTRACTS if c.prop == prop]
    c = cs[idx]
    out = dict(contract=c.name, text=c.text, targets=list(c.fns), bounded_only=not c.sym)
    mult = 1 if tier == 'quick' else 20
    try:
        conc = run.concrete_trials(c, seed, c.trials * mult, 12 if tier == 'quick' else 120)
        out['concrete'] = conc
        if conc['fail']:
            return out
        if not c.sym:
            if changed and tier == 'quick':
                more(c, out, seed, 4, 20)
            return out
        s = run.run_symbolic(c, c.budget * (1 if tier == 'quick' else 4))
        bad = failed_obligations(c, s)
        if bad and not any(r for _, r in bad.values()):
            s = run.run_symbolic(c, c.budget * 3, patience=3)          # undecided: once more with more time
            bad = failed_obligations(c, s)
        out['sym'] = s
        # counterexamples replayed on the real code
        for name, o in s['obligations'].items():
            for r in o['refuted']:
                for attempt in range(6):
                    given = dict(r['inputs'] or {})
                    if attempt >= 2 or r['inputs'] is None:
                        given = dict(r['fixed'])       # same case, random data
                    res, d = run.run_concrete(c, seed * 7919 + attempt, given, attempt % 4)
                    if res == 'fail':
                        out['replayed'] = dict(d, given=given, refuted=name)
                        return out
        if bad:
            more(c, out, seed, 20 * mult, 60)
        elif s['status'] != 'done' and changed:
            more(c, out, seed, 5 * mult, 20)
        return out
    except Exception as e:
        out['crash'] = repr(e) + traceback.format_exc(limit=-5)
        return out


def more(c, out, seed, factor, budget):
    conc = run.concrete_trials(c, seed + 17, c.trials * factor, budget)
    conc['ok'] += out['concrete']['ok']
    out['concrete'] = conc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--write-baseline', metavar='FILE', help='development only: record the discharged obligations')
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    cs = load(prop)
    ok, where = package_is_from_repo()
    if not ok:
        print(f'check error: wai.ma imported from {where}, not from {SRC}', file=sys.stderr)
        return 2
    if a.replay:
        return replay(cs, a.replay)
    if not cs:
        print('check error: no contracts for', prop, file=sys.stderr)
        return 2
    run.sym_boot()
    changed = source_digest() != baseline().get('source')
    jobs = [(i, prop, seed, tier, changed) for i in range(len(cs))]
    jobs.sort(key=lambda j: -cs[j[0]].budget)
    lim = (900 if tier == 'quick' else 7200) * .85
    results = run_all(jobs, t0 + lim, cs)
    if a.write_baseline:
        rec = {}
        for c, r in zip(cs, results):
            s = r.get('sym')
            if s and s['status'] == 'done':
                good = sorted(n for n, o in s['obligations'].items() if o['proved'] == o['paths'])
                rec[f'{prop}/{c.name}'] = dict(complete=len(good) == len(s['obligations']), discharged=good, seconds=round(s['wall'], 1), **({'ops': s['ops']} if s.get('ops') else {}), **({'skeleton': s['skeleton']} if 'skeleton' in s else {}))
        json.dump(dict(source=source_digest(), contracts=rec), open(a.write_baseline, 'w'), indent=1, sort_keys=True)
    return finish(prop, tier, seed, cs, results, t0, a.v, changed)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def finish(prop, tier, seed, cs, results, t0, verbose, changed):
    findings = [f for f in known_findings() if f['property'] == prop]
    viol, known = [], []
    nobl = ndis = evals = 0
    open_obl, functions, assumptions, backends = [], set(), set(), {}
    solver_s = 0.0
    per = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    for c, r in zip(cs, results):
        entry = dict(contract=c.name, statement=c.text, targets=r['targets'])
        fail = None
        if r.get('crash'):
            open_obl.append(f'{c.name}: check machinery: {r["crash"][:300]}')
            entry['status'] = 'undecided'
            nobl += 1
        conc = r.get('concrete')
        if conc:
            evals += conc['ok']
            entry['concrete_evaluations'] = conc['ok']
            if conc['fail']:
                fail = dict(conc['fail'], how='contract evaluated on the real code')
        if r.get('replayed'):
            fail = dict(r['replayed'], how='counterexample of the failed obligation replayed on the real code')
        s = r.get('sym')
        if s:
            functions |= set(s['functions'])
            assumptions |= set(s['assumptions'])
            solver_s += s['stats'].get('z3_time', 0) + s['stats'].get('cvc5_time', 0)
            dis = 0
            for n, o in s['obligations'].items():
                nobl += o['paths']
                ndis += o['proved']
                dis += o['proved']
                for b, k in o['backends'].items():
                    backends[b] = backends.get(b, 0) + k
                if o['refuted'] and not o['unknown']:
                    open_obl.append(f'{c.name}: {n}: refuted')
                if o['unknown']:
                    open_obl.append(f'{c.name}: {n}: {o["unknown"][0]}')
            entry.update(obligations=sum(o['paths'] for o in s['obligations'].values()), discharged=dis, paths=s['paths'], wall_s=round(s['wall'], 2))
            if s['status'] != 'done':
                nobl += 1
                open_obl.append(f'{c.name}: {s["reason"]}')
                entry['undecided'] = s['reason']
            if not s['obligations'] and s['status'] == 'done':
                nobl += 1
                open_obl.append(f'{c.name}: no feasible path (vacuous)')
            if fail is None and changed:
                bad = failed_obligations(c, s)
                for n in sorted(bad, key=lambda n: not bad[n][1]):
                    o, ref = bad[n]
                    d = o['refuted'][0] if ref else dict(detail='not provable: ' + o['unknown'][0], inputs=None, goal=None)
                    fail = dict(obligation=n, detail=d['detail'], inputs=d['inputs'], goal=d['goal'], noinput=True, verifier_output=dict(refuted=o['refuted'], unknown=o['unknown']),
                                how='obligation refuted by the verifier' if ref else 'obligation discharged for the committed source, no longer provable')
                    break
        else:
            entry['bounded'] = True
        if r['bounded_only']:
            entry['note'] = 'outside the verifier\'s reach: bounded evaluation only'
        if fail:
            kf = [f for f in findings if f.get('contract') == c.name and f.get('obligation') in (None, fail['obligation'])]
            if kf:
                known.append(kf[0])
                entry['known_finding'] = kf[0]['what']
            else:
                path = os.path.join(HERE, 'evidence', 'replays', f'{prop}_{c.name}.json')
                json.dump(dict(property=prop, contract=c.name, **{k: v for k, v in fail.items()}), open(path, 'w'), indent=1, default=str)
                viol.append((c.name, fail, path))
        per.append(entry)
    bounded = [p['contract'] for p in per if p.get('bounded')]
    level = 'proof' if ndis else 'other'
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd=f'/opt/venv/bin/python check.py --property {prop} --tier {tier}',
                            trusted_base=FIRST_PARTY_TRUST + sorted(assumptions), backends=backends, solver_s=round(solver_s, 2),
                            functions_under_contract=sorted(f.replace('symwai', 'wai') for f in functions), contracts=per,
                            open_obligations=open_obl, bounded_standins=bounded, concrete_evaluations=evals,
                            explanation='obligations generated by symbolic execution of the instrumented real source; concrete_evaluations are bounded cross-checks and never counted as discharged'),
              wall_s=round(time.time() - t0, 2),
              assumptions=FIRST_PARTY_TRUST + sorted(assumptions),
              violations=[dict(contract=n, obligation=f['obligation'], detail=f['detail'], replay=p) for n, f, p in viol])
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
    for f in known:
        print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    print(f'{prop}: {len(cs)} contracts, {ndis}/{nobl} obligations discharged, {len(open_obl)} open, {evals} concrete evaluations, {time.time()-t0:.1f} s')
    if verbose:
        for o in open_obl:
            print('  open:', o)
    for n, f, p in viol:
        print(f'  {n}: obligation "{f["obligation"]}" fails: {f["detail"]} ({f["how"]})')
    if viol:
        real = [v for v in viol if not v[1].get('noinput')]
        n, f, p = (real or viol)[0]
        print(f'VIOLATION property={prop} replay={p}' + ('' if real else ' no-failing-input-found'))
        return 1
    return 0


def replay(cs, path):
    d = json.load(open(path))
    for c in cs:
        if c.name == d['contract']:
            if d.get('noinput'):
                print('no failing input recorded; failed obligation:', d['obligation'], d.get('goal'))
                return 1
            r, x = run.run_concrete(c, d['seed'], d.get('given'), d['style'])
            print(r, json.dumps(x, default=str)[:3000])
            return 1 if r == 'fail' else 0
    return 2


if __name__ == '__main__':
    sys.exit(main())
