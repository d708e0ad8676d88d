"""Task runner: build IR from the current source, execute a task symbolically,
discharge its obligations."""
import json
import os
import subprocess
import sys
import time
import traceback
from . import irparse as I, exec as XE, expr as X, solve, intrin  # noqa: F401

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
CFLAGS = ['-O0', '-g', '-fno-discard-value-names', '-D_DEFAULT_SOURCE', '-D_GNU_SOURCE',
          '-DDATA_DIR="/usr/local/share/keyd"', '-DVERSION="v"', '-DSOCKET_PATH="/s"', '-DCONFIG_DIR="/etc/keyd"',
          '-DKV_VERIFY', '-Xclang', '-disable-O0-optnone', '-w', '-femit-all-decls']


class BuildError(Exception):
    pass


def build_ir(spec, out, defs=()):
    cmd = ['clang-18', '-S', '-emit-llvm'] + CFLAGS + ['-iquote', os.path.join(REPO, 'src'), '-iquote', os.path.join(VERIF, 'specs')] \
        + ['-D' + d for d in defs] + [spec, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    return out


class Task:
    def __init__(self, spec, fn, enforce=None, replace=(), params=None, props=None, timeout=60, invs=(), max_unroll=4200,
                 exec_budget=400, defs=(), name=None, bounded=None, kinds=None, replay=None, cover=True, cuts=None, init_globals=(), inv_timeout=5):
        self.inv_timeout = inv_timeout
        self.init_globals = tuple(init_globals)
        self.cuts = cuts
        self.spec = spec              # specification file (in specs/)
        self.fn = fn                  # kvt_ entry
        self.enforce = enforce        # function whose contract is proved here
        self.replace = tuple(replace)  # functions replaced by their contract
        self.params = params or {}
        self.props = props            # clause filter (None: all clauses)
        self.timeout = timeout
        self.invs = invs
        self.max_unroll = max_unroll
        self.exec_budget = exec_budget
        self.defs = tuple(defs)
        self.bounded = bounded        # text: this task is a bounded stand-in
        self.kinds = kinds            # obligation kinds that decide (None: all)
        self.replay = replay
        self.cover = cover
        self.name = name or fn + ''.join('.%s' % v for v in (params or {}).values())


class Result:
    def __init__(self, task):
        self.task = task.name
        self.failed = []      # dicts: name, where, kind, label, model, output
        self.unknown = []
        self.error = None
        self.total = 0
        self.syntactic = 0
        self.discharged = 0
        self.backends = {}
        self.solver_time = 0.0
        self.exec_time = 0.0
        self.wall = 0.0
        self.inlined = {}
        self.contracts_used = {}
        self.models = {}
        self.enforced = None
        self.covers = 0
        self.unrolled = 0
        self.loops_cut = 0
        self.bounded = task.bounded
        self.funcs = []
        self.kinds = {}
        self.queries = 0
        self.shared = 0
        self.invs = {}


class ContractMismatch(Exception):
    pass


def signature(f):
    return (repr(f.ret), tuple(repr(p[0]) for p in f.params))


def setup(mod, task, props):
    ex = XE.Executor(mod)
    ex.init_globals = set(task.init_globals)
    ex.params = dict(task.params)
    ex.inv_timeout = task.inv_timeout
    ex.max_unroll = task.max_unroll
    ex.deadline = time.time() + task.exec_budget
    ex.active_props = set(props) if props else None
    con = {}
    for f in task.replace + ((task.enforce,) if task.enforce else ()):
        c = 'kvc_' + f
        if c not in mod.funcs:
            raise XE.Unsupported('no contract for ' + f)
        if f in mod.funcs or f in mod.decls:
            con[f] = c
    ex.contracts = con
    ex.enforced = task.enforce
    for (k, v) in task.invs:
        ex.invs[k] = v
    fe = solve.Feas(ex)
    ex.feas = fe.check
    ex.prover = fe.prove
    ex.cuts = dict(task.cuts or {})
    return ex


def vc_kind_ok(task, v):
    return task.kinds is None or v.kind in task.kinds


def model_json(md):
    return {'vars': {k: v for k, v in md.vars.items() if not k.startswith('forall!')},
            'arrs': {k: [sorted(d.items()), df] for k, (d, df) in md.arrs.items()},
            'ufs': {k: [[list(a), v] for a, v in d.items()] for k, (d, df) in md.ufs.items()}}


def discharge(ex, task, res, seed, subjobs=1):
    vcs = [v for v in ex.vcs if vc_kind_ok(task, v)]
    res.total = len(vcs) + ex.trivial
    res.syntactic = ex.trivial
    for v in ex.vcs:
        res.kinds[v.kind] = res.kinds.get(v.kind, 0) + 1
    # groups: same facts, at most 48 obligations
    groups = []
    for v in vcs:
        if groups and groups[-1][0].nfacts == v.nfacts and len(groups[-1]) < 48 and groups[-1][0].kind in ('bounds', 'null') \
                and v.kind in ('bounds', 'null'):
            groups[-1].append(v)
        else:
            groups.append([v])
    if subjobs > 1 and len(groups) > 3:
        return discharge_par(ex, task, res, seed, groups, subjobs)
    sess = solve.Session(task.timeout, seed)
    sess.facts = ex.facts
    for g in groups:
        run_group(ex, sess, g, task, res)
        if len(res.failed) >= 6:
            break
    res.backends = dict(sess.backends)


def discharge_par(ex, task, res, seed, groups, n):
    groups = sorted(groups, key=lambda g: g[0].id)
    import pickle
    pipes = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                sub = Result(task)
                sess = solve.Session(task.timeout, seed)
                sess.facts = ex.facts
                for g in groups[k::n]:
                    run_group(ex, sess, g, task, sub)
                    if len(sub.failed) >= 3:
                        break
                sub.backends = dict(sess.backends)
                sub.queries = sess.checks
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(sub.__dict__, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            res.error = 'discharge worker died'
            continue
        d = pickle.loads(data)
        res.failed += d['failed']
        res.unknown += d['unknown']
        res.discharged += d['discharged']
        res.solver_time += d['solver_time']
        res.queries += d['queries']
        for k, v in d['backends'].items():
            res.backends[k] = res.backends.get(k, 0) + v


def vcexpr(v):
    return X.And(*(list(v.pc) + [X.Not(v.goal)]))


def splitconds(goal):
    """conditions that choose between values all over the goal, the most frequent first"""
    cnt = {}
    seen = set()
    st = [goal]
    while st:
        x = st.pop()
        if x.id in seen or x.op == 'forall':
            continue
        seen.add(x.id)
        if x.op in ('ite', 'ai'):
            c = x.a[0]
            if c.op == 'not':
                c = c.a[0]
            cnt[c] = cnt.get(c, 0) + 1
        st.extend(x.a)
    return [c for c, n in sorted(cnt.items(), key=lambda t: (-t[1], t[0].id)) if n >= 3 and not c.bv]


def check_split(sess, exprs, goal, nfacts, timeout, parts):
    quick = 3
    try:
        return sess.check(exprs, nfacts, budget=quick)
    except solve.Unknown:
        pass
    cs = splitconds(goal)[:2]
    if cs:
        cases = [[]]
        for c in cs:
            cases = [k + [x] for k in cases for x in (c, X.Not(c))]
        try:
            for k in cases:
                md = sess.check(exprs + k, nfacts, budget=quick + 2)
                if md is not None:
                    return md
            return None
        except solve.Unknown:
            pass
    if len(parts) > 1:
        pre = exprs[:-1]
        for part in parts:
            md = sess.check(pre + [X.Not(part)], nfacts)
            if md is not None:
                return md
        return None
    return sess.check(exprs, nfacts, budget=timeout)


def run_group(ex, sess, g, task, res):
    t0 = time.time()
    todo = list(g)
    fails = 0
    while todo:
        try:
            if len(todo) == 1:
                v = todo[0]
                parts = v.goal.a if v.goal.op == 'and' else (v.goal,)
                md = check_split(sess, list(v.pc) + [X.Not(v.goal)], v.goal, v.nfacts, task.timeout, parts)
            else:
                md = sess.check([X.Or(*[vcexpr(v) for v in todo])], todo[0].nfacts, budget=max(10, task.timeout / 3))
        except solve.Unknown as e:
            if len(todo) > 1:
                h = len(todo) // 2
                run_group(ex, sess, todo[:h], task, res)
                run_group(ex, sess, todo[h:], task, res)
                break
            res.unknown.append({'name': todo[0].name(), 'where': todo[0].where, 'kind': todo[0].kind,
                                'label': todo[0].label, 'fn': todo[0].fn, 'chain': list(todo[0].chain), 'reason': str(e)})
            break
        if md is None:
            res.discharged += len(todo)
            break
        bad = None
        for v in todo:
            if X.evaluate(vcexpr(v), md):
                bad = v
                break
        if bad is None:
            if len(todo) > 1:
                h = len(todo) // 2
                run_group(ex, sess, todo[:h], task, res)
                run_group(ex, sess, todo[h:], task, res)
                break
            bad = todo[0]
        fails += 1
        res.failed.append({'name': bad.name(), 'where': bad.where, 'kind': bad.kind, 'label': bad.label, 'fn': bad.fn,
                           'props': bad.props, 'chain': list(bad.chain), 'model': model_json(md)})
        todo.remove(bad)
        if fails >= 2:
            break
    res.solver_time += time.time() - t0
    if os.environ.get('KV_SLOW') and time.time() - t0 > 2:
        print('SLOW %5.1f n=%d %s' % (time.time() - t0, len(g), g[0].label), flush=True)


def run_task(mod, task, props=None, seed=1, subjobs=1):
    res = Result(task)
    t0 = time.time()
    try:
        ex = setup(mod, task, props)
        if task.fn not in mod.funcs:
            raise XE.Unsupported('no task ' + task.fn)
        st = XE.State({}, ())
        try:
            ex.call_function(task.fn, [], st)
        except XE.Dead:
            pass
        res.exec_time = time.time() - t0
        res.shared = ex.nshared
        res.inlined = {k: v for k, v in ex.stats['inlined'].items() if not k.startswith('kv')}
        res.contracts_used = dict(ex.stats['contracts_used'])
        res.models = dict(ex.stats['models'])
        res.unrolled = ex.stats['unrolled']
        res.loops_cut = ex.stats['loops_cut']
        res.invs = {k: sorted(v) for k, v in ex.invlog.items()}
        if task.enforce and ex.enforce_used:
            res.enforced = task.enforce
        if not os.environ.get('KV_ONLYCOVER'):
            discharge(ex, task, res, seed, subjobs)
        # vacuity: the end of the task is reachable under the assumptions
        if task.cover and not res.failed:
            cs = ex.covers
            if not cs:
                res.error = 'task has no kv_cover point (vacuity cannot be excluded)'
            sess = solve.Session(task.timeout, seed)
            sess.facts = ex.facts
            for (lb, pc, nf) in cs:
                try:
                    try:
                        ok = ex.hints and sess.cover(list(pc) + ex.hints, nf, 30)
                    except solve.Unknown:
                        ok = False
                    if not ok and sess.check(list(pc), nf) is None:
                        res.error = 'vacuous: %s unreachable' % lb
                    else:
                        res.covers += 1
                except solve.Unknown as e:
                    res.unknown.append({'name': 'cover:' + lb, 'reason': str(e), 'kind': 'cover', 'where': '', 'label': lb,
                                        'fn': task.fn, 'chain': []})
        if res.total == 0 and not res.shared and not res.error:
            res.error = 'no obligations generated'
    except (XE.Unsupported, solve.Unknown) as e:
        res.error = 'unsupported: %s' % e
    except RecursionError:
        res.error = 'recursion limit'
    except Exception as e:
        res.error = 'internal: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    res.wall = time.time() - t0
    return res


def main(argv):
    """debug entry: run.py SPEC FN [enforce=F] [replace=a,b] [p0=1] [props=..]"""
    import tempfile
    sys.setrecursionlimit(20000)
    kw = {}
    params = {}
    fns = []
    jobs = 8
    props = None
    for a in argv[1:]:
        if '=' in a:
            k, v = a.split('=', 1)
            if k[0] == 'p' and k[1:].isdigit():
                params[int(k[1:])] = int(v)
            elif k == 'props':
                props = v.split(',')
            elif k == 'replace':
                kw[k] = v.split(',')
            elif k == 'jobs':
                jobs = int(v)
            elif k == 'cuts':
                kw[k] = dict(x.split(':') for x in v.split(','))
            elif k == 'init':
                kw['init_globals'] = v.split(',')
            elif k == 'timeout':
                kw[k] = int(v)
            else:
                kw[k] = v
        else:
            fns.append(a)
    d = tempfile.mkdtemp(prefix='kvc')
    try:
        ll = build_ir(argv[0] if '/' in argv[0] else os.path.join(VERIF, 'specs', argv[0]), os.path.join(d, 'o.ll'))
        mod = I.parse_module(ll)
    finally:
        subprocess.call(['rm', '-rf', d])
    for f in fns:
        t = Task(argv[0], f, params=params, **kw)
        r = run_task(mod, t, props, subjobs=jobs)
        print('%s: total=%d syntactic=%d discharged=%d failed=%d unknown=%d covers=%d exec=%.1f solve=%.1f wall=%.1f %s' % (
            t.name, r.total, r.syntactic, r.discharged, len(r.failed), len(r.unknown), r.covers, r.exec_time, r.solver_time,
            r.wall, r.backends))
        print('   inlined', r.inlined, 'contracts', r.contracts_used, 'models', r.models)
        for k, v in r.invs.items():
            print('   inv', k, sorted(v)[:12])
        if r.error:
            print('   ERROR', r.error)
        for x in r.failed:
            m = x.pop('model')
            print('   FAIL', x['name'], x['chain'])
            if os.environ.get('KV_MODEL'):
                print('      ', {k: v for k, v in sorted(m['vars'].items()) if v and ('in:' in k or os.environ['KV_MODEL'] == '2')})
        for x in r.unknown:
            print('   UNKNOWN', x['name'], x['reason'])


if __name__ == '__main__':
    main(sys.argv[1:])
