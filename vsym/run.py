"""Entry point of the checks: python -m vsym.run (see check.py)"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def load_prop(pid):
    return importlib.import_module('vsym.props.' + pid.lower())


def known_findings(pid):
    """lines 'known: property=<id> instance=<regex> message=<regex> :: text'"""
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            m = re.match(r'known: property=(\S+) instance=(\S+) message=/(.*?)/ :: (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


_INST = {}


def _worker(arg):
    pid, idx, tier, seed = arg
    from vsym import harness
    inst = _INST[pid][idx]
    if isinstance(inst, Exception):
        raise inst
    return harness.run_instance(inst, tier, seed)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None, help='regex on instance names')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--strict', action='store_true', help='exit 2 on reduced coverage')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from vsym import harness, core, loader  # noqa
    harness.GLOBAL_DEADLINE = t0 + float(os.environ.get(
        'VSYM_DEADLINE', {'quick': 600}.get(a.tier, 5400)))
    pid = a.prop
    P = load_prop(pid)
    insts = P.instances(a.tier)
    names = [i.name for i in insts]
    assert len(set(names)) == len(names), 'duplicate instance names'
    if a.only:
        insts = [i for i in insts if re.search(a.only, i.name)]
    _INST[pid] = insts
    # warm imports before forking
    from vsym import faketables  # noqa
    order = sorted(range(len(insts)), key=lambda i: -insts[i].weight)
    jobs = [(pid, i, a.tier, seed) for i in order]
    results = []
    if a.serial:
        for j in jobs:
            results.append(_worker(j))
            if a.v:
                _line(results[-1])
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(_worker, jobs):
                results.append(r)
                if a.v:
                    _line(r)
                if r['violations'] and os.environ.get('VSYM_FAILFAST'):
                    pool.terminate()
                    break
    results.sort(key=lambda r: r['instance'])
    finish(pid, P, insts, results, a.tier, seed, t0, partial=bool(a.only), strict=a.strict)


def _line(r):
    print('%-40s paths %5d aborted %3d obl %6d q %6d solver %.1fs wall %.1fs val %d%s%s' % (
        r['instance'], r['paths'], r['aborted'], r['obligations'], r['queries'], r['solver_s'],
        r['wall'], r['validated'],
        ' VIOL' if r['violations'] else '', ' ERR' if r['errors'] else ' RED' if r['reduced'] or r['unreproduced'] or r['concretised'] else ''))
    sys.stdout.flush()


def replay_file(pid, tier, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.json' % pid)
    with open(p, 'w') as f:
        json.dump(dict(property=pid, instance=v['instance'], tier=tier, model=v['model'],
                       solver=v['msgs'], real_code=v['real']), f, indent=1)
    return p


def finish(pid, P, insts, results, tier, seed, t0, partial, strict=False):
    known = known_findings(pid)
    viols, knownhits, errors, unrep, reduced = [], {}, [], [], []
    for r in results:
        for v in r['violations']:
            text = ' | '.join(v['real'])
            for ir, mr, desc in known:
                if ir.fullmatch(v['instance']) and mr.search(text):
                    knownhits[desc] = v
                    break
            else:
                viols.append(v)
        for e in r['errors']:
            errors.append('%s: %s' % (r['instance'], e))
        for e in r['reduced']:
            reduced.append('%s: %s' % (r['instance'], e))
        for u in r['unreproduced']:
            unrep.append('%s: solver counterexample not reproduced on the real code: %s %s' % (
                u['instance'], u['msgs'], json.dumps(u['model'])[:600]))
    tot = lambda k: sum(r[k] for r in results)
    funcs = sorted(set(f for r in results for f in r['functions']))
    samples = [s for r in results for s in r['samples']][:6]
    cov = dict(states=tot('paths'), transitions=tot('decisions'),
               traces_validated_against_impl=tot('validated'),
               samples=samples or [dict(note='none')],
               instances=len(results), infeasible_paths=tot('aborted'),
               obligations=tot('obligations'), queries=tot('queries'),
               solver_s=round(tot('solver_s'), 3),
               functions_encoded=funcs,
               paths_concretised=tot('concretised'),
               reachability_witnesses=tot('witnesses'),
               unreproduced_counterexamples=len(unrep),
               inconclusive=(errors + reduced)[:10],
               inconclusive_instances=len(reduced),
               random_runs_after_inconclusive=tot('random_runs'),
               bounds=sorted(set('%s: %s' % (r['instance'].split('/')[0], r['bounds'])
                                 for r in results if r['bounds'])),
               outside=getattr(P, 'OUTSIDE', ''),
               explanation='states = feasible paths of the symbolically executed real code '
                           '(each with all numeric inputs symbolic), transitions = branch/case '
                           'decisions made by z3, obligations = assertions decided valid by z3')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(P, 'ASSUMPTIONS', []) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not partial and not os.environ.get('VSYM_FAILFAST'):
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d instances, %d paths, %d obligations, %d queries, %.1f s solver, %d validated on '
          'the real code, %.1f s' % (pid, tier, len(results), tot('paths'), tot('obligations'),
                                     tot('queries'), tot('solver_s'), tot('validated'),
                                     time.time() - t0))
    if tot('concretised'):
        u = [x for r in results for x in r.get('unsupported', [])]
        print('REDUCED: %d paths left the encoding and were run with concrete inputs only, e.g. %s'
              % (tot('concretised'), u[:2]))
    for d in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    if viols:
        v = min(viols, key=lambda v: len(json.dumps(v['model'])))
        p = replay_file(pid, tier, v) if not os.environ.get('VSYM_FAILFAST') else '-'
        for w in viols[:5]:
            print('  instance %s' % w['instance'])
            print('    solver: %s' % '; '.join(w['msgs'])[:400])
            print('    real code: %s' % '; '.join(w['real'])[:600])
        print('VIOLATION property=%s replay=%s' % (pid, p))
        sys.exit(1)
    for e in (unrep + reduced)[:6]:
        print('REDUCED: ' + e[:1000])
    for e in errors[:6]:
        print('ERROR: ' + e[:1500])
    sys.exit(2 if errors or (strict and (unrep or reduced or tot('concretised'))) else 0)


COMMON = [
    'numbers of the files are mathematical integers/reals in the encoding (float32 rounding is '
    'outside); integers stay within +-2^24 where float32 is exact',
    'PyTables/HDF5 storage, numpy array primitives and base64/file I/O are trusted; PyTables is '
    'replaced by an in-memory model during symbolic execution and the model is exercised against '
    'the real library on the validated traces',
    'SESAM record layouts come from an independent table in the harness',
]


def replay(path):
    from vsym import harness
    d = json.load(open(path))
    P = load_prop(d['property'])
    inst = [i for i in P.instances(d['tier']) if i.name == d['instance']][0]
    r = harness.run_concrete(inst, d['model'], d['tier'])
    for m in r.fails:
        print('FAILED: ' + m)
    print('%d checks, %d failed' % (r.nchecks, len(r.fails)))
    sys.exit(1 if r.fails else 0)
