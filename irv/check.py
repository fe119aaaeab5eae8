"""Decide one property: python -m irv.check <PROPERTY> [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time
import traceback

from . import build, ir, spec
from .native import Native

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')


def load_property(prop):
    sys.path.insert(0, VERIF)
    reg = importlib.import_module('contracts.registry')
    return reg.load(prop)


_MOD = None
_CONTRACTS = None


def _sym_worker(a):
    i, budget, seed, end = a
    c = _CONTRACTS[i]
    budget = max(1.0, min(budget, end - time.time()))
    try:
        r = spec.SymRun(c, _MOD, budget=budget, seed=seed).execute()
        return i, r.summary()
    except Exception:
        s = dict(contract=c.name, title=c.title, prop=c.prop, proved=False, paths=0, path_kinds={}, obligations=0,
                 discharged=0, trivial=0, by={}, solver_s=0, queries=0, wall=0,
                 unsupported=['engine error: ' + traceback.format_exc()[-1200:]], failures=[], functions={},
                 assumed=[], callee_contracts=[])
        return i, s


def _conc_worker(a):
    i, so, n, seed, presets, tlimit = a
    c = _CONTRACTS[i]
    nat = Native(so)
    rng = random.Random(seed * 1000003 + i)
    ran = disc = 0
    t0 = time.time()
    bad = None
    try:
        seq = []
        for p in presets:
            if p:
                seq.append(p)
                # the same point with unspecified inputs re-drawn, and its neighbourhood
                seq.extend([p] * 3)
        k = 0
        last = before = None
        while k < len(seq) + n:
            p = seq[k] if k < len(seq) else None
            k += 1
            if time.time() - t0 > tlimit:
                break
            if p is None and last and k % 3 == 0:
                # some inputs as in the run before: state kept between calls shows here
                keep = {}
                p = {x: v for x, v in last.items() if keep.setdefault(re.sub(r'\W.*|\d+$', '', x), rng.random() < .5)}
            r = spec.run_concrete(c, nat, rng, p)
            if r is not None:
                before, last = last, r[1]
            if r is None:
                disc += 1
                if disc > 50 * (n + 10):
                    break
                continue
            ran += 1
            fails, inputs, calls = r
            if fails:
                bad = dict(fails=fails[:10], inputs=inputs, run_before=before,
                           calls=[dict(entry=h, x=x, k=kk, b=bb, outcome=kd, exc=str(ex)[-800:] if ex else None, o=o,
                                       io=io, bo=bo) for h, x, kk, bb, kd, ex, o, io, bo in calls])
                break
    finally:
        nat.close()
    return i, ran, disc, bad, time.time() - t0


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('known', [])


def match_known(prop, contract, labels):
    for k in known_findings():
        if k['property'] == prop and k['contract'] == contract and all(re.search(k['match'], l) for l in labels):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', default=None)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='count', default=0)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    P = load_property(a.prop)
    contracts = [c for c in P.contracts if tier == 'thorough' or c.opts.get('tier') != 'thorough']
    if a.only:
        contracts = [c for c in contracts if re.search(a.only, c.name)]
    work = tempfile.mkdtemp(prefix='irv_%s_' % a.prop)
    try:
        code = run(P, a.prop, contracts, tier, a.seed, work, t0, a)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return code


def run(P, prop, contracts, tier, seed, work, t0, a):
    global _MOD, _CONTRACTS
    _CONTRACTS = contracts
    kw = dict(harness=P.harness, sources=P.sources, exclude=P.exclude, cflags=P.cflags, libs=P.ldflags)
    try:
        ll, so = build.build(work, **kw)
    except build.BuildError as e:
        # The tree does not compile with the harness: nothing can be decided.
        print('BUILD-FAILED property=%s\n%s' % (prop, e))
        return 2
    tb = time.time() - t0
    mod = ir.Module(open(ll).read())
    _MOD = mod
    sym = [i for i, c in enumerate(contracts) if not c.opts.get('bounded_only')]
    order = sorted(sym, key=lambda i: -contracts[i].opts.get('cost', 1))
    budget = 150.0 if tier == 'quick' else 900.0
    end = t0 + (420.0 if tier == 'quick' else 1e9)
    ctxm = mp.get_context('fork')
    res = {}
    with ctxm.Pool(min(8, max(1, len(order))), maxtasksperchild=4) as pool:
        for i, s in pool.imap_unordered(_sym_worker, [(i, budget, seed, end) for i in order]):
            res[i] = s
            if a.v:
                print('%-40s %s paths=%d obl=%d/%d %.1fs %s' % (
                    s['contract'], 'proved' if s['proved'] else 'OPEN', s['paths'], s['discharged'], s['obligations'],
                    s['wall'], s['unsupported'][:2]))
                for f in s['failures'][:1 if a.v < 2 else 4]:
                    print('     ', f['kind'], f['status'], f['msg'], f['sample'], '\n         path', [q[:100] for q in f['path'][-3:]],
                          '\n        ', f['detail'][:300])
                sys.stdout.flush()
    # native cross-validation / counterexample replay / bounded stand-in
    nq = 60 if tier == 'quick' else 4000
    open_ = sum(1 for i in range(len(contracts)) if not res.get(i, {}).get('proved'))
    jobs = []
    for i, c in enumerate(contracts):
        s = res.get(i)
        presets = []
        n = c.opts.get('samples', nq)
        tl = 20.0 if tier == 'quick' else 120.0
        if tier == 'thorough':
            n = max(n, nq)
        if s is None or not s['proved']:
            if s:
                presets = [f['sample'] for f in s['failures'] if f.get('sample')]
            n = max(n, c.opts.get('bounded_samples', 3000 if tier == 'quick' else 60000))
            tl = min(90.0, 8 * 240.0 / open_) if tier == 'quick' else 600.0
        jobs.append((i, so, n, seed, presets, tl))
    conc = {}
    with ctxm.Pool(8) as pool:
        for i, ran, disc, bad, w in pool.imap_unordered(_conc_worker, jobs):
            conc[i] = (ran, disc, bad, w)
    # verdicts
    viol = []
    known = []
    bounded = []
    for i, c in enumerate(contracts):
        s = res.get(i)
        ran, disc, bad, w = conc[i]
        if a.v:
            print('native %-40s ran=%d discarded=%d %s' % (c.name, ran, disc, ('FAIL ' + str(bad['fails'][:3])) if bad else ''))
        labels = []
        if bad:
            labels = list(bad['fails'])
        refuted = [f for f in s['failures'] if f['status'] == 'refuted'] if s and not c.opts.get('soft') else []
        if bad or refuted:
            k = match_known(prop, c.name, labels or [f['msg'] for f in refuted])
            if k:
                known.append((k, c))
                continue
            viol.append((c, s, bad, refuted))
        elif s is None or not s['proved']:
            bounded.append((c, s, ran))
    # a declared-bounded contract is expected to be so
    write_evidence(P, prop, tier, seed, contracts, res, conc, viol, known, bounded, time.time() - t0, tb)
    for k, c in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for c, s, ran in bounded:
        if not c.opts.get('bounded_only'):
            print('BOUNDED: property=%s contract=%s not discharged deductively (%s); bounded stand-in passed on %d native '
                  'runs' % (prop, c.name, '; '.join([str(u)[:160] for u in (s['unsupported'] if s else [])][:2] +
                                                     ['%s %s' % (f['kind'], f['msg']) for f in s['failures'][:2]]), ran))
    if not viol:
        nob = sum(s['obligations'] for s in res.values())
        npv = sum(s['discharged'] for s in res.values())
        print('OK property=%s contracts=%d proved=%d obligations=%d discharged=%d bounded=%d wall=%.1fs' % (
            prop, len(contracts), sum(1 for s in res.values() if s['proved']), nob, npv, len(bounded), time.time() - t0))
        return 0
    # one VIOLATION line: prefer one with a failing input
    viol.sort(key=lambda v: v[2] is None)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.json' % prop)
    doc = dict(property=prop, violations=[dict(
        contract=c.name, title=c.title,
        failed_obligations=[dict(kind=f['kind'], obligation=f['msg'], verifier=f['detail'], path=f['path'],
                                 counterexample=f['sample']) for f in refuted[:5]],
        failing_input=bad,
        how='python3-vt -m irv.replay %s' % path if bad else 'no failing input found natively') for c, s, bad, refuted in viol])
    json.dump(doc, open(path, 'w'), indent=1, default=str)
    c, s, bad, refuted = viol[0]
    for c_, s_, bad_, ref_ in viol[:6]:
        print('FAILED obligation: contract=%s %s' % (c_.name, (bad_['fails'][0] if bad_ else ref_[0]['kind'] + ' ' + ref_[0]['msg'])[:300]))
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if bad else ' no-failing-input-found'))
    return 1


def write_evidence(P, prop, tier, seed, contracts, res, conc, viol, known, bounded, wall, tb):
    os.makedirs(EVID, exist_ok=True)
    fns = {}
    assumed = set(P.assumptions)
    callee = set()
    by = {}
    for s in res.values():
        for f, n in s['functions'].items():
            if 'resim::' in f.split('(')[0] or f.startswith('resim'):
                fns[f] = fns.get(f, 0) + n
        assumed |= set(s['assumed'])
        callee |= set(s['callee_contracts'])
        for k, n in s['by'].items():
            by[k] = by.get(k, 0) + n
    nob = sum(s['obligations'] for s in res.values())
    npv = sum(s['discharged'] for s in res.values())
    allproved = all(s['proved'] for s in res.values())
    cov = dict(
        obligations=nob, discharged=npv,
        checker_cmd='python3-vt -m irv.check %s --tier %s' % (prop, tier),
        trusted_base=['clang++-14 front end, llvm-link-18, opt-18 sroa (code executed symbolically is this IR of /repo)',
                      'irv IR executor and normal-form procedure (/verif/irv)', 'z3 %s' % spec.z3.get_version_string()]
        + sorted(assumed),
        callee_contracts_used=sorted(callee),
        functions_under_contract=sorted(fns)[:400],
        functions_executed=sum(len(s['functions']) for s in res.values()),
        backends=by,
        solver_seconds=round(sum(s['solver_s'] for s in res.values()), 2),
        solver_queries=sum(s['queries'] for s in res.values()),
        paths=sum(s['paths'] for s in res.values()),
        build_seconds=round(tb, 1),
        contracts_proved_for_all_sizes=sum(1 for i, c in enumerate(contracts) if res.get(i, {}).get('proved') and not c.opts.get('bound')),
        contracts_proved_within_size_bound=sum(1 for i, c in enumerate(contracts) if res.get(i, {}).get('proved') and c.opts.get('bound')),
        contracts=[dict(name=c.name, statement=c.title, mode='deductive' if i in res else 'bounded', size_bound=c.opts.get('bound'),
                        proved=bool(res.get(i, {}).get('proved')), paths=res.get(i, {}).get('paths'),
                        obligations=res.get(i, {}).get('obligations'), discharged=res.get(i, {}).get('discharged'),
                        wall_s=res.get(i, {}).get('wall'), native_runs=conc[i][0])
                   for i, c in enumerate(contracts)],
        bounded=[dict(contract=c.name, native_runs=ran, why=(c.opts.get('bounded_only') or (s and s['unsupported'])))
                 for c, s, ran in bounded],
        native_crosscheck_runs=sum(v[0] for v in conc.values()),
    )
    if not allproved:
        cov['undischarged'] = [dict(contract=s['contract'], failures=s['failures'][:5], unsupported=s['unsupported'])
                               for s in res.values() if not s['proved']]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if res else 'other', coverage=cov,
              assumptions=sorted(assumed) + ['floating-point operations are treated as real arithmetic unless a contract '
                                             'says it uses the rounding model; inputs are finite'],
              wall_s=round(wall, 1), violations=len(viol))
    if not res:
        cov['explanation'] = 'bounded native check'
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
