"""Shared by the rules: cached abstract objects and comparison of the effects
of a repository function with those of a reference definition (sa/ref)."""
from ..rig import Rig, mk, C, sym, Vanished
from .. import terms as tm

_CACHE = {}


def corerig(key='core', dxH=False, opaque=(), models=None, ext=None):
    """(rig, core, base symbol) with a fresh copy of the initial state"""
    k = (key, dxH)
    if k not in _CACHE:
        r = Rig(opaque, models)
        for n, f in (ext or {}).items():
            r.m.extmodels[n] = f
        c, base = r.core(dxH=dxH)
        _CACHE[k] = (r, c, base, r.st)
    r, c, base, st = _CACHE[k]
    r.st = st.copy()
    r.m.steps = 0
    r.m.pending = []
    return r, c, base


def observe(r, st, f, obs, ret=True):
    r.st = st.copy()
    r.m.steps = 0
    r.m.pending = []
    v = f(r)
    out = []
    if ret:
        out.append(('result', r.snap(v) if v is not None else tm.NONE))
    for label, g in obs:
        out.append((label, r.snap(g(r))))
    raised = tm.FALSE
    for p in r.m.pending:
        raised = tm.or_(raised, p[0])
    r.m.pending = []
    return out, raised


def agree(rep, rule, cons, r, repo, ref, obs=(), ret=True, under=(),
          vocab=(), raises=False, norm=None, domain=()):
    """the effects of repo(r) and ref(r), from the same state, coincide"""
    st = r.st.copy()
    got, gr = observe(r, st, repo, obs, ret)
    want, wr = observe(r, st, ref, obs, ret)
    rep.visited |= r.m.visited

    def n(t):
        for a, v in under:
            t = tm.assume(t, a, v)
        return norm(t) if norm else t
    ok = True
    for (label, g), (_, w) in zip(got, want):
        c = cons if label == 'result' else '%s: %s' % (cons, label)
        ok = rep.same(rule, c, n(g), n(w), vocab,
                      domain) and ok
    if raises:
        ok = rep.same(rule + '.raises', cons + ': raises', n(gr), n(wr),
                      vocab, domain) and ok
    return ok


def attr(c, name):
    return lambda r: r.get(c, name)


def meth(c, name, *a):
    return lambda r: r.meth(c, name, *a)


def ref(r, qual):
    return r.fn('ref.' + qual)


def litlist(r, ts):
    return r.m.alloc(r.st, tm.seq(*[tm.it(t) for t in ts]))


def litmat(r, name, n, m):
    if n == 0 or m == 0:
        return r.m.alloc(r.st, mk('zeros', C(n), C(m)))
    return r.m.alloc(r.st, mk('mlit', *[
        tuple(sym('%s_%d_%d' % (name, i, j), 'num') for j in range(m))
        for i in range(n)]))


def litcore(r, name, nx, nw, ny, nc, np=0, dxH=False, qual=None):
    """a core of given dimensions with named symbols and arbitrary
    expressions"""
    from ..rig import CORE
    c = r.new(qual or CORE, C(name))

    def names(a, n):
        return litlist(r, [tm.named('%s%s%d' % (a, name, k))
                           for k in range(n)])
    for a, n in (('x', nx), ('w', nw), ('u', ny), ('y', ny), ('cu', nc),
                 ('cy', nc), ('p', np)):
        r.set(c, a, names(a, n))
    r.set(c, 'z', litlist(r, [sym('z%s%d' % (name, k), 'num')
                              for k in range(nw)]))
    r.set(c, 'H', sym('H' + name, 'num'))
    if dxH:
        r.set(c, '_dxH', litlist(r, [sym('g%s%d' % (name, k), 'num')
                                     for k in range(nx)]))
    n = nx + nw + ny + nc
    r.set(c, 'M', litmat(r, 'M' + name, n, n))
    return c


def parallel(rep, jobs, n=None):
    """run the jobs (functions of a report) in forked processes and collect
    their obligations, in the order of the jobs"""
    import os
    import pickle
    import select
    n = n or min(8, os.cpu_count() or 1)
    todo = list(enumerate(jobs))
    run, res = {}, {}

    def child(job, w):
        code = 0
        try:
            rep.obs, rep.visited, rep.counts, rep.vanished = [], set(), {}, []
            rep.guard('analysis', getattr(job, '__name__', 'job'), job, rep)
            with os.fdopen(w, 'wb') as f:
                pickle.dump((rep.obs, set(map(str, rep.visited)), rep.counts,
                             rep.vanished), f)
        except BaseException:
            code = 1
        os._exit(code)
    while todo or run:
        while todo and len(run) < n:
            i, job = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(job, w)
            os.close(w)
            run[r] = (i, pid, [])
        for r in select.select(list(run), [], [])[0]:
            data = os.read(r, 1 << 20)
            i, pid, buf = run[r]
            if data:
                buf.append(data)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del run[r]
            try:
                res[i] = pickle.loads(b''.join(buf))
            except Exception:
                res[i] = ([('analysis', 'job %d' % i, 'undecided',
                            'no result')], set(), {}, [])
    for i in range(len(jobs)):
        obs, vis, counts, van = res[i]
        rep.obs.extend(obs)
        rep.visited |= vis
        rep.vanished.extend(van)
        for k, v in counts.items():
            rep.count(k, v)
