#!/usr/bin/env python
"""Entry point:  run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
from multiprocessing.connection import wait as mp_wait
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)


def load_prop(pid):
    return importlib.import_module('symex.props.' + pid.lower())


def worker(args, notify=None):
    pid, idx, cfg = args
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        from symex import harness as H
        mod = load_prop(pid)
        fn, opts = mod.HARNESSES[idx]
        c = dict(cfg)
        c.update(opts)
        c['max_violations'] = 1 + sum(
            k.startswith(fn.__name__ + '/') for k, _ in known_findings(pid))
        if cfg['tier'] == 'thorough':
            c['budget'] = c.get('budget', 180) * 5
            c.update(opts.get('thorough', {}))
        c['notify'] = notify
        if c.get('lost'):
            r = H.Result(fn.__name__)
            r.status = 'inconclusive'
            r.reasons = [c['lost']]
            H.fallback(fn, c, r)
            if r.violations:
                r.status = 'violation'
        else:
            r = H.explore(fn, fn.__name__, c)
        return dict(name=fn.__name__, status=r.status, reasons=r.reasons,
                    violations=r.violations, stats=r.stats.__dict__,
                    witnesses=r.witnesses, skips=r.witness_skips,
                    concrete_runs=r.concrete_runs, samples=r.samples,
                    functions=sorted(r.functions), wall=r.wall,
                    bounds=r.bounds)
    except BaseException as e:
        return dict(name=str(idx), status='inconclusive',
                    reasons=['harness crashed: %s: %s\n%s' % (
                        type(e).__name__, e, traceback.format_exc())],
                    violations=[], stats={}, witnesses=0, skips=0,
                    concrete_runs=0, samples=[], functions=[], wall=0.,
                    bounds='')


def child(conn, job):
    try:
        conn.send(('end', worker(job, lambda v: conn.send(('found', v)))))
        conn.close()
    except BaseException:
        pass
    os._exit(0)


QUICK_LIMIT = 780       # s: a quick check gives its answer within this time


def run_all(jobs, njobs, names):
    """one process per harness, ended when far over its time budget"""
    last = time.time() + QUICK_LIMIT
    hurry = []          # a violation was found: the others get a minute more
    mpc = mp.get_context('spawn')
    todo = list(zip(jobs, names))
    live, results = [], []
    pid = jobs[0][0] if jobs else None

    def lost(job, name, why, found):
        cfg = job[2]
        if found or cfg.get('lost') or hurry:
            results.append(dict(
                name=name, status='violation' if found else 'inconclusive',
                reasons=[why], violations=found, stats={}, witnesses=0,
                skips=0, concrete_runs=0, samples=[], functions=[], wall=0.,
                bounds=''))
        else:
            todo.append(((pid, idx, dict(cfg, lost=why)), name))

    while todo or live:
        while todo and len(live) < njobs:
            job, name = todo.pop(0)
            rx, tx = mpc.Pipe(False)
            p = mpc.Process(target=child, args=(tx, job))
            p.start()
            tx.close()
            end = time.time() + limit(job)
            if job[2]['tier'] != 'thorough':
                end = min(end, last + 60 if job[2].get('lost') else last)
            live.append((p, rx, name, end, job, []))
        ready = mp_wait([x[1] for x in live], 0.5)
        for item in list(live):
            p, rx, name, end, job, found = item
            if rx in ready:
                try:
                    kind, r = rx.recv()
                    if kind == 'found':
                        found.append(r)
                        if not hurry and job[2]['tier'] != 'thorough' \
                                and not known_findings(pid):
                            hurry.append(time.time() + 60)
                        continue
                    results.append(r)
                except (EOFError, OSError):
                    lost(job, name, 'worker died', found)
            elif time.time() > min([end] + hurry):
                p.kill()
                lost(job, name, 'ended early: %s' % (
                    'another one found a violation' if hurry else
                    'time is up'), found)
            else:
                continue
            live.remove(item)
            rx.close()
            p.join()
    return results


def limit(job):
    pid, idx, cfg = job
    opts = load_prop(pid).HARNESSES[idx][1]
    if cfg.get('lost'):
        return 60
    b = opts.get('budget', 180)
    if cfg['tier'] == 'thorough':
        b = opts.get('thorough', {}).get('budget', b * 5)
    return b * 1.3 + 40


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                body = line.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def do_replay(path):
    from symex import harness as H
    d = json.load(open(path))
    mod = load_prop(d['property'])
    for fn, opts in mod.HARNESSES:
        if fn.__name__ == d['harness']:
            cfg = dict(tier=d.get('tier', 'quick'), seed=d.get('seed', 1))
            cfg.update(opts)
            out = H.run_concrete(fn, d['inputs'], cfg)
            print(out[:3])
            return 1 if out[0] == 'fail' else 0
    print("harness not found")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(do_replay(a.replay))
    pid = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = load_prop(pid)
    cfg = dict(tier=a.tier, seed=seed)
    idxs = [i for i, (f, o) in enumerate(mod.HARNESSES)
            if (a.only is None or a.only in f.__name__)
            and (a.tier == 'thorough' or not o.get('thorough_only'))]
    jobs = [(pid, i, cfg) for i in idxs]
    results = run_all(jobs, a.jobs, [mod.HARNESSES[i][0].__name__
                                     for i in idxs])
    results.sort(key=lambda r: r['name'])
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    known = known_findings(pid)
    nviol = 0
    rdir = os.path.join(ROOT, 'replays')
    shown = set()
    for r in results:
        for v in r['violations']:
            sig = "%s/%s" % (r['name'], v['reproduced'])
            hit = [t for k, t in known if k == sig]
            if hit:
                if sig not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
                    shown.add(sig)
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s_%s_%d.json" % (pid, r['name'],
                                                         nviol))
            with open(path, 'w') as f:
                json.dump(jsonable(dict(
                    property=pid, harness=r['name'], tier=a.tier, seed=seed,
                    label=v['label'], reproduced=v['reproduced'],
                    detail=v['detail'], inputs=v['inputs'])), f, indent=1)
            print("  %s: %s: %s  inputs=%s" % (
                r['name'], v['reproduced'], v['detail'],
                str(v['inputs'])[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    wall = time.time() - t0
    inconc = [r for r in results if r['status'] == 'inconclusive']
    if a.v or inconc:
        for r in results:
            print("%-34s %-12s paths=%-4s obl=%-5s wit=%s skip=%s %.1fs (z3 %.1fs/%s) %s" % (
                r['name'], r['status'], r['stats'].get('paths'),
                r['stats'].get('obligations'), r['witnesses'], r['skips'],
                r['wall'], r['stats'].get('solver_s', 0),
                r['stats'].get('queries'),
                '; '.join(map(str, r['reasons']))[:600]))
    funcs = sorted({f for r in results for f in r['functions']})
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append(dict(harness=r['name'], inputs=jsonable(s)))
    cov = dict(
        states=tot.get('paths', 0),
        transitions=tot.get('decisions', 0) + tot.get('forced', 0),
        traces_validated_against_impl=sum(r['witnesses'] for r in results),
        samples=samples[:12] or ['none'],
        meaning="states: feasible symbolic paths executed to their end; "
                "transitions: branch decisions taken on symbolic conditions; "
                "traces validated: paths whose solver model was replayed on "
                "the real package with every check passing",
        functions_encoded=funcs,
        obligations=tot.get('obligations', 0),
        obligations_discharged=tot.get('discharged', 0),
        discharged_by_normal_form=tot.get('by_norm', 0),
        discharged_by_solver_query=tot.get('by_solver', 0),
        solver="z3 (python bindings)",
        solver_queries=tot.get('queries', 0),
        solver_unknown=tot.get('unknown', 0),
        solver_seconds=round(tot.get('solver_s', 0.), 2),
        concrete_replays=sum(r['concrete_runs'] for r in results),
        harnesses=[dict(name=r['name'], status=r['status'],
                        bounds=r['bounds'],
                        paths=r['stats'].get('paths', 0),
                        obligations=r['stats'].get('obligations', 0),
                        seconds=round(r['wall'], 2),
                        inconclusive_because=r['reasons'])
                   for r in results],
        inconclusive=[r['name'] for r in inconc])
    ev = dict(property=pid, tier=a.tier, seed=seed, level='model_checking',
              coverage=jsonable(cov),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
              wall_s=round(wall, 2), violations=nviol)
    if a.only is None:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d/%d obligations, %d queries, "
          "%.1fs solver, %d inconclusive, %d violations, %.1fs" % (
              pid, a.tier, len(results), tot.get('paths', 0),
              tot.get('discharged', 0), tot.get('obligations', 0),
              tot.get('queries', 0), tot.get('solver_s', 0.), len(inconc),
              nviol, wall))
    sys.exit(1 if nviol else 0)


COMMON = [
    "floating-point arithmetic is modelled by exact real arithmetic; exp, "
    "cos, sin and sqrt are exact functions constrained by algebraic "
    "identities (sum rules, squares, signs, convexity)",
    "NumPy is replaced by an array model with NumPy's shape, dtype, view and "
    "indexing rules; numpy.polynomial.legendre runs symbolically from its "
    "own source",
    "bounds on sizes and ranges are those listed per harness",
]

if __name__ == '__main__':
    main()
