#!/usr/bin/env python3-vt
"""check.py PROPERTY -- decide one property on /repo's current source.

Exit 0: every obligation of the property was discharged.  Exit 1: VIOLATION."""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kvc import irparse as I, run as R, exec as XE  # noqa: E402
import registry as REG  # noqa: E402

VERIF = os.path.dirname(os.path.abspath(__file__))
BUDGET = 720


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p):
        l = l.rstrip('\n')
        if l.startswith('finding: property=%s ' % prop):
            out.append(l.split(' ', 2)[2])
    return out


def defined_functions(spec, tmp):
    """functions of the code under test (the specification's own includes of /repo sources)"""
    src = open(os.path.join(VERIF, 'specs', spec)).read()
    m = [l for l in src.splitlines() if l.startswith('//@ source ')]
    return m


def closure(tasks, prop):
    """every contract that replaces a call is itself enforced by a task of the same property, or listed as assumed"""
    enforced = {}
    for t in REG.TASKS:
        if t.proves:
            enforced.setdefault((t.spec, t.proves), []).append(t)
            enforced.setdefault(t.proves, []).append(t)
    sel = list(tasks)
    seen = set(id(t) for t in sel)
    assumed = set()
    k = 0
    while k < len(sel):
        t = sel[k]
        k += 1
        for f in t.replace:
            es = enforced.get((t.spec, f)) or enforced.get(f)
            if not es:
                assumed.add('%s:%s' % (t.spec, f))
                continue
            for e in es:
                if id(e) not in seen:
                    seen.add(id(e))
                    sel.append(e)
    return sel, sorted(assumed)


def worker(job):
    spec_mod, t, prop, seed = job
    sys.setrecursionlimit(20000)
    # a task must not outlive its parent
    try:
        return R.run_task(MODS[spec_mod], t, {prop, '*'} | ({'-*'} if t.share else set()), seed, subjobs=t.jobs)
    except BaseException as e:  # noqa: B902
        r = R.Result(t)
        r.error = 'internal: %s' % e
        return r


MODS = {}


def build(args):
    spec, defs, d = args
    ll = os.path.join(d, spec + '.ll')
    try:
        R.build_ir(os.path.join(VERIF, 'specs', spec), ll, defs)
        return spec, ll, None
    except R.BuildError as e:
        return spec, None, str(e)


def run_pool(jobs, nproc, deadline):
    """fork one process per task, at most nproc at a time; results by pipe"""
    import pickle
    import select
    pending = list(jobs)
    running = {}
    results = []
    load = 0
    while pending or running:
        while pending and (load == 0 or load + min(pending[0][1].jobs, 3) <= nproc):
            j = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    res = worker(j)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res.__dict__, f)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, j, b'')
            load += min(j[1].jobs, 3)
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rd:
            data = os.read(fd, 1 << 20)
            pid, j, buf = running[fd]
            if data:
                running[fd] = (pid, j, buf + data)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            load -= min(j[1].jobs, 3)
            res = R.Result(j[1])
            try:
                res.__dict__.update(pickle.loads(buf))
            except Exception:
                res.error = 'worker died'
            results.append(res)
            if res.failed and not os.environ.get('KV_ALL'):
                # the property is refuted: what is left can only add further failures
                deadline = min(deadline, time.time() + 10)
            if os.environ.get('KV_VERBOSE'):
                print('   %-50s %6.1fs total=%d failed=%d unknown=%d %s' % (res.task, res.wall, res.total, len(res.failed), len(res.unknown), res.error or ''), flush=True)
        if time.time() > deadline:
            for fd, (pid, j, buf) in running.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                res = R.Result(j[1])
                res.error = 'stopped: out of time, or after a refuted obligation'
                results.append(res)
            for j in pending:
                res = R.Result(j[1])
                res.error = 'not started: out of time, or after a refuted obligation'
                results.append(res)
            break
    return results


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    meta = REG.PROPS[prop]
    base = [t for t in REG.TASKS if prop in t.tags]
    tasks, assumed = closure(base, prop)
    # clauses common to all properties are discharged by the check of the property that owns the task, if that runs it
    ran = {}
    for t in tasks:
        o = t.owner if tier == 'quick' and t.owner != prop else None
        if o and o not in ran:
            ran[o] = set(id(t) for t in closure([t for t in REG.TASKS if o in t.tags], o)[0])
        t.share = bool(o) and prop != 'K04' and id(t) in ran[o]
    others = sorted(set(t.owner for t in tasks if t.share))
    nproc = max(2, min(8, os.cpu_count() or 2))
    problems = []
    with tempfile.TemporaryDirectory(prefix='kv') as d:
        specs = sorted(set(t.spec for t in tasks))
        with mp.Pool(min(4, max(1, len(specs)))) as pool:
            for spec, ll, err in pool.map(build, [(s, (), d) for s in specs]):
                if err:
                    problems.append('%s does not compile against the current source:\n%s' % (spec, err))
                    continue
                try:
                    MODS[spec] = I.parse_module(ll)
                except Exception as e:
                    problems.append('%s: cannot read the compiled code: %s' % (spec, e))
    jobs = [(t.spec, t, prop, seed) for t in tasks if t.spec in MODS]
    jobs.sort(key=lambda j: -j[1].cost)
    results = run_pool(jobs, nproc, t0 + BUDGET) if jobs else []
    fails, unk = [], []
    for r in results:
        if r.error:
            problems.append('%s: %s' % (r.task, r.error))
        for f in r.failed:
            fails.append((r, f))
        for u in r.unknown:
            unk.append((r, u))
    violated = bool(fails or unk or problems)
    replay = None
    concrete = False
    native = None
    nat_info = {}
    if meta.get('native') and (violated or tier == 'thorough' or meta.get('native_always')):
        import nativerun
        native, nat_info = nativerun.search(prop, meta['native'], fails, seed, budget=60 if violated else 120)
    if native:
        violated = True
        concrete = True
    if violated:
        rd = os.path.join(VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, prop + '.txt')
        with open(replay, 'w') as f:
            f.write('property %s: %s\n' % (prop, meta['title']))
            if native:
                f.write('\n== concrete failing input (real code) ==\n%s\n' % native)
            for r, x in fails:
                f.write('\nFAILED OBLIGATION %s  (task %s)\n  kind: %s\n  where: %s\n  call chain: %s\n' % (
                    x['name'], r.task, x['kind'], x['where'], ' > '.join(map(str, x['chain']))))
                m = x.get('model') or {}
                f.write('  verifier counterexample (prestate of the function under contract):\n')
                for k, v in sorted(m.get('vars', {}).items())[:400]:
                    if v:
                        f.write('    %s = %s\n' % (k, v))
            for r, x in unk:
                f.write('\nNOT DISCHARGED %s (task %s): %s\n' % (x['name'], r.task, x['reason']))
            for p in problems:
                f.write('\nPROBLEM %s\n' % p)
    cov = {
        'obligations': sum(r.total for r in results if not r.bounded),
        'discharged': sum(r.discharged + r.syntactic for r in results if not r.bounded),
        'bounded_obligations': sum(r.total for r in results if r.bounded),
        'bounded_discharged': sum(r.discharged + r.syntactic for r in results if r.bounded),
        'by_simplification': sum(r.syntactic for r in results),
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': REG.TRUSTED,
        'functions_under_contract': sorted(set('%s:%s' % (t.spec, t.enforce) for t in tasks if t.enforce)),
        'functions_inlined': sorted(set(k for r in results for k in r.inlined)),
        'contracts_used': sorted(set(k for r in results for k in r.contracts_used)),
        'contracts_assumed': assumed,
        'modelled_externals': sorted(set(k for r in results for k in r.models)),
        'backends': {},
        'solver_time_s': round(sum(r.solver_time for r in results), 1),
        'solver_queries': sum(r.queries for r in results),
        'kinds': {},
        'loops_cut_by_invariant': sum(r.loops_cut for r in results),
        'loop_iterations_unrolled_completely': sum(r.unrolled for r in results),
        'inferred_invariants': sorted(set('%s: %s' % (k, i) for r in results for k, v in r.invs.items() for i in v))[:60],
        'bounded_standins': sorted(set(t.bounded for t in tasks if t.bounded)),
        'vacuity_covers': sum(r.covers for r in results),
        'tasks': [{'task': r.task, 'enforces': r.enforced, 'obligations': r.total, 'discharged': r.discharged + r.syntactic,
                   'wall_s': round(r.wall, 1)} for r in sorted(results, key=lambda r: r.task)],
        'clauses_left_to_the_check_of_another_property': {'properties': others, 'clauses': sum(r.shared for r in results)},
        'native': nat_info,
    }
    for r in results:
        for k, v in r.backends.items():
            cov['backends'][k] = cov['backends'].get(k, 0) + v
        for k, v in r.kinds.items():
            cov['kinds'][k] = cov['kinds'].get(k, 0) + v
    kf = known_findings(prop)
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': meta['level'],
          'coverage': cov, 'assumptions': REG.ASSUMPTIONS['*'] + meta.get('assumptions', []) + (
              ['quick tier: clauses common to all properties, of functions that the check of %s proves too, are taken from there '
               '(the thorough tier discharges them here)' % ' and '.join(others)] if others else []),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if violated else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged (%d by simplification), %d tasks, solver %.1f s, wall %.1f s' % (
        prop, cov['obligations'], cov['discharged'], cov['by_simplification'], len(results), cov['solver_time_s'], time.time() - t0))
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violated:
        for r, x in fails[:8]:
            print('  failed: %s' % x['name'])
        for r, x in unk[:8]:
            print('  not discharged: %s (%s)' % (x['name'], x['reason']))
        for p in problems[:5]:
            print('  problem: %s' % p[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if concrete else ' no-failing-input-found'))
        sys.stdout.flush()
        os._exit(1)
    if not results:
        print('no tasks')
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, '-'))
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print('VIOLATION property=%s replay=- no-failing-input-found' % (sys.argv[1] if len(sys.argv) > 1 else '?'))
        sys.stdout.flush()
        os._exit(1)
