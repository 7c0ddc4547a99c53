"""Calls: repository functions, builtins, container methods, externals."""
import ast
from .interp import *            # noqa
from .interp import Interp, St, Out, W, UNDEF, restrict, has_new, Abort, \
    Raised, MAXDEPTH
from . import terms as tm
from . import nd as ndm
from . import strs as strsm
from .interp2 import Interp2, any_, BOT
from .terms import _map, hstack, vstack


_YIELD = {}


def _has_yield(node):
    r = _YIELD.get(node)
    if r is None:
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in ast.walk(node))
        _YIELD[node] = r
    return r


BUILTIN_TYPES = {'list', 'tuple', 'dict', 'set', 'str', 'int', 'float',
                 'bool', 'slice', 'complex', 'object', 'frozenset'}


def literal(t):
    """key of comparison of a constant, or None"""
    if isc(t):
        return t.args[0]
    if t.op == 'seq' and all(g.op == 'it' for g in t.args):
        v = [literal(g.args[0]) for g in t.args]
        return None if None in v else tuple(v)
    return None


class Machine(Interp2):

    # ----------------------------------------------------------------- call

    def call(self, f, args, kw, st):
        self.steps += 1
        if f.op == 'ite':
            c = as_bool(f.args[0])
            s1, s2 = self.branch(st, c, True), self.branch(st, c, False)
            p0 = list(self.pending)
            self.pending = []
            a = self.maybe(self.call, f.args[1], args, kw, s1)
            p1, self.pending = self.pending, []
            b = self.maybe(self.call, f.args[2], args, kw, s2)
            p2 = self.pending
            self.pending = p0 + [(and_(c, x), e, s) for x, e, s in p1] + \
                [(and_(not_(c), x), e, s) for x, e, s in p2]
            st.d = self.merge(c, s1, s2).d
            return ite(c, a, b)
        op = f.op
        if op == 'bound':
            return self.call(f.args[0], [f.args[1]] + list(args), kw, st)
        if op == 'fn':
            return self.callfn(f, args, kw, st)
        if op == 'static':
            return self.call(f.args[0], args, kw, st)
        if op == 'cls':
            return self.instantiate(f, args, kw, st)
        if op == 'builtin':
            return self.callbuiltin(f.args[0], f, args, kw, st)
        if op == 'meth':
            return self.callmeth(f.args[0], f.args[1], args, kw, st)
        if op == 'ext':
            return self.callext(f.args[0], args, kw, st)
        if op == 'partial':
            k2 = dict((e.args[0].args[0], e.args[1]) for e in f.args[2])
            k2.update(kw)
            return self.call(f.args[0], list(f.args[1]) + list(args), k2, st)
        q = self.objcls.get(f)
        if q is not None:
            m = self.classattr(q, '__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kw, st)
        if op == 'attr':
            return self.callattr(f, args, kw, st)
        d = self.deref(st, f)
        if d is not f and d.op in ('fn', 'bound', 'cls', 'ext', 'ite'):
            return self.call(d, args, kw, st)
        return self.opaquecall(f, args, kw, st)

    def callattr(self, f, args, kw, st):
        if f.args[1] == 'doit' and not args and not kw:
            return f.args[0]
        m = self.methmodels.get(f.args[1])
        if m is not None:
            r = m(self, st, f.args[0], args, kw)
            if r is not None:
                return r
        return self.opaquecall(f, args, kw, st)

    def opaquecall(self, f, args, kw, st):
        a = [self.snapshot(st, x) for x in args]
        k = [mk('kw', n, self.snapshot(st, v)) for n, v in sorted(kw.items())]
        r = mk('call', self.snapshot(st, f) if f.op not in ('meth',) else f,
               *(a + k))
        self.note(r)
        return r

    def callfn(self, f, args, kw, st):
        fn = self.fns.get(f)
        if fn is None:
            return self.opaquecall(f, args, kw, st)
        m = self.models.get(fn.qual)
        if m is not None:
            r = m(self, st, args, kw)
            if r is not None:
                return r
        if fn.qual in self.opaque:
            return self.opaquecall(f, args, kw, st)
        if fn.qual.endswith('_test') and '_types.' in fn.qual:
            return NONE          # type guards: only raise
        if self.callstack.count(f) >= self.reclimit or len(self.callstack) > MAXDEPTH:
            return self.opaquecall(f, args, kw, st)
        node = fn.node
        fid = self.newframe(fn.module, fn.cls, fn.fid or None)
        ok = self.bind(fn, args, kw, st, fid)
        if not ok:
            return self.opaquecall(f, args, kw, st)
        self.visited.add(fn.qual)
        self.callstack.append(f)
        mark, fmark = self.nnew, self.nfid
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, st, fid)
            facts = st.facts
            s = St(st.d, st.facts)
            saved = self.pending
            self.pending = []
            try:
                out = self.block(node.body, s, fid)
            finally:
                inner = self.pending
                self.pending = saved
        finally:
            self.callstack.pop()
        x = out.o.get('x')
        if x is not None:
            self.pending = list(self.pending) + [(x[0], x[2], x[1])]
        r = out.o.get('r')
        n = out.o.get('n')
        if r is None and n is None:
            if self.nd and x is not None and x[0] is TRUE:
                self.pending = list(self.pending)[:-1]
                st.d = x[1].d
                raise Raised(x[2])
            st.d = dict(st.d)
            return BOT
        if r is None:
            fs, v = n[1], NONE
        elif n is None:
            fs, v = r[1], r[2]
        else:
            nc = n[0]
            # normal and return conditions are exclusive
            fs = self.merge(r[0], r[1], n[1])
            v = ite(r[0], r[2], NONE)
        if _has_yield(node):
            v = fs.d.get(('v', fid, '<yield>'), EMPTY)
            v = restrict(v, facts)
        st.d = fs.d
        keep = self.closes(fid)
        if not keep:
            for nm in localnames(node):
                st.d.pop(('v', fid, nm), None)
                st.d.pop(('nl', fid, nm), None)
        return v

    def closes(self, fid):
        """some closure was defined in this frame"""
        return fid in self.closed

    def inframe(self, f, fid):
        while f:
            if f == fid:
                return True
            f = self.frames[f][2]
        return False

    def bind(self, fn, args, kw, st, fid):
        a = fn.node.args
        pos = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args]
        args = list(args)
        kw = dict(kw)
        loc = {}
        star = kw.pop('**', None)
        for i, x in enumerate(args):
            if x.op == 'star':
                if a.vararg and i >= len(pos):
                    loc[a.vararg.arg] = seq(*[
                        it(y) if y.op != 'star' else splice(y.args[0])
                        for y in args[i:]])
                    break
                # spread a symbolic sequence over the remaining parameters
                if i == len(args) - 1:
                    rest = [p for p in pos[i:] if p not in kw]
                    for j, p in enumerate(rest):
                        if p in fn.defaults:
                            break
                        loc[p] = idx(x.args[0], C(j))
                    if a.vararg:
                        loc[a.vararg.arg] = sl(x.args[0], C(len(rest)), NONE)
                    break
                return False
            if i < len(pos):
                loc[pos[i]] = x
            elif a.vararg:
                vs = args[i:]
                loc[a.vararg.arg] = seq(*[
                    it(y) if y.op != 'star' else splice(y.args[0])
                    for y in vs])
                break
            else:
                return False
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in konly:
                loc[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.unknown.add('kwarg:' + k)
                return False
        if a.vararg and a.vararg.arg not in loc:
            loc[a.vararg.arg] = EMPTY
        if a.kwarg:
            ents = [pair(C(k), v) for k, v in sorted(extra.items())]
            if star is not None:
                ents.insert(0, mk('sp', star))
                star = None
            loc[a.kwarg.arg] = self.alloc(st, mkdict(*ents))
        for p in pos + konly:
            if p not in loc:
                if star is not None:
                    inn = isin(C(p), star)
                    got = idx(star, C(p))
                    if p in fn.defaults:
                        loc[p] = ite(inn, got, fn.defaults[p])
                    else:
                        loc[p] = got
                elif p in fn.defaults:
                    loc[p] = fn.defaults[p]
                else:
                    self.unknown.add('missing:%s:%s' % (fn.qual, p))
                    return False
        for k, v in loc.items():
            st.d[('v', fid, k)] = v
        return True

    def instantiate(self, c, args, kw, st):
        q = c.args[0]
        m = self.models.get(q)
        if m is not None:
            r = m(self, st, args, kw)
            if r is not None:
                return r
        if q in self.opaque:
            return self.opaquecall(c, args, kw, st)
        o = self.new('obj')
        self.objcls[o] = q
        self.constructed.add(o)
        init = self.classattr(q, '__init__')
        if init is not None and init.op == 'fn':
            self.callfn(init, [o] + list(args), kw, st)
        elif self.extbases(q):
            self.event(st, mk('ev', 'extinit', o,
                              *[self.snapshot(st, a) for a in args]))
        return o

    # ------------------------------------------------------------- builtins

    def callbuiltin(self, n, f, args, kw, st):
        h = getattr(self, 'bi_' + n, None)
        if h is not None:
            r = h(args, kw, st)
            if r is not None:
                return r
        return self.opaquecall(f, args, kw, st)

    def bi_len(self, a, kw, st):
        q = self.objcls.get(a[0])
        if q is not None:
            m = self.classattr(q, '__len__')
            if m is not None:
                return self.call(m, [a[0]], {}, st)
        d = self.deref(st, a[0])

        def f(u):
            if isc(u) and isinstance(u.args[0], str) and \
                    self.strs is not None and strsm.opaque(u.args[0]):
                # a name has at least one character: more than one line end
                return C(len(u.args[0]) + 64)
            if u.op == 'nd' and ndm.shape(u):
                return C(ndm.shape(u)[0])
            if kind(u) == 'mat':
                s = self.matshape(u)
                return mul(idx(s, ZERO), idx(s, ONE))
            if u.op == 'dict' and not all(e.op == 'pair' and isc(e.args[0])
                                          for e in u.args) and not all(
                    e.op == 'pair' and tm.isname(e.args[0])
                    for e in u.args):
                return mk('len', self.snapshot(st, u))
            return length(u)
        return lift([d], f)

    def bi_range(self, a, kw, st):
        d = [self.deref(st, x) for x in a]
        if len(d) == 1:
            lo, hi, stp = ZERO, d[0], ONE
        elif len(d) == 2:
            lo, hi, stp = d[0], d[1], ONE
        else:
            lo, hi, stp = d
        if isnum(stp) and stp.args[0] in (1, -1):
            i = fresh_bv()
            if stp.args[0] == 1:
                return fm((i,), sub(hi, lo), seq(it(add(lo, i))))
            return fm((i,), sub(lo, hi), seq(it(sub(lo, i))))
        if all(isnum(x) for x in (lo, hi, stp)):
            return seq(*[it(C(v)) for v in range(lo.args[0], hi.args[0],
                                                 stp.args[0])])
        return mk('call', mk('builtin', 'range'), lo, hi, stp)

    bi_xrange = bi_range

    def zipn(self, cs):
        cs = [self.asseq(c) for c in cs]

        def f(*us):
            if all(u.op == 'seq' and all(g.op == 'it' for g in u.args)
                   for u in us):
                return seq(*[it(seq(*[it(x.args[0]) for x in tup]))
                             for tup in zip(*[u.args for u in us])])
            # align segments of equal length
            sg = [segs(u) for u in us]
            if len(set(len(s) for s in sg)) == 1 and len(sg[0]) > 1 and \
                    all(len(set(length(seq(g)) for g in col)) == 1
                        for col in zip(*sg)):
                out = []
                for col in zip(*sg):
                    if all(g.op == 'it' for g in col):
                        out.append(it(seq(*[it(g.args[0]) for g in col])))
                    else:
                        out.append(splice(f(*[seq(g) for g in col])))
                return seq(*out)
            ls = []
            for u in us:
                l = length(u)
                if l not in ls:
                    ls.append(l)
            n = ls[0] if len(ls) == 1 else mk('minlen', *sorted(ls))
            i = fresh_bv()
            return fm((i,), n, seq(it(seq(*[it(idx(u, i)) for u in us]))))
        return lift(cs, f)

    def bi_zip(self, a, kw, st):
        if any(x.op == 'star' for x in a):
            return None
        return self.zipn([self.deref(st, x) for x in a])

    def bi_enumerate(self, a, kw, st):
        c = self.itercontent(st, a[0])
        start = self.deref(st, a[1]) if len(a) > 1 else kw.get('start', ZERO)

        def f(u):
            n = length(u)
            i = fresh_bv()
            if u.op == 'seq' and all(g.op == 'it' for g in u.args):
                return seq(*[it(seq(it(add(start, C(k))), it(g.args[0])))
                             for k, g in enumerate(u.args)])
            if u.op == 'seq':
                off = start
                out = []
                for g in u.args:
                    if g.op == 'it':
                        out.append(it(seq(it(off), it(g.args[0]))))
                        off = add(off, ONE)
                    else:
                        s = seq(g)
                        j = fresh_bv()
                        out.append(splice(fm((j,), length(s), seq(it(seq(
                            it(add(off, j)), it(idx(s, j))))))))
                        off = add(off, length(s))
                return seq(*out)
            return fm((i,), n, seq(it(seq(it(add(start, i)),
                                          it(idx(u, i))))))
        return lift([c], f)

    def bi_map(self, a, kw, st):
        acc = self.alloc(st, EMPTY)
        if len(a) == 2:
            content = self.itercontent(st, a[1])

            def run(s, e):
                v = self.call(a[0], [e], {}, s)
                self.mutate(s, acc, lambda c: seq(splice(c), it(v)))
                return self.normal(s)
        else:
            content = self.zipn([self.deref(st, x) for x in a[1:]])

            def run(s, e):
                v = self.call(a[0], [g.args[0] for g in e.args], {}, s)
                self.mutate(s, acc, lambda c: seq(splice(c), it(v)))
                return self.normal(s)
        o = self.loop(content, run, st)
        if 'n' in o.o:
            st.d = o.o['n'][1].d
        return self.deref(st, acc)

    def bi_filter(self, a, kw, st):
        acc = self.alloc(st, EMPTY)
        content = self.itercontent(st, a[1])

        def run(s, e):
            v = e if a[0] is NONE else self.call(a[0], [e], {}, s)
            c = as_bool(self.deref(s, v))
            self.mutate(s, acc, lambda k: ite(c, seq(splice(k), it(e)), k))
            return self.normal(s)
        o = self.loop(content, run, st)
        if 'n' in o.o:
            st.d = o.o['n'][1].d
        return self.deref(st, acc)

    def bi_sum(self, a, kw, st):
        c = self.snapshot(st, self.itercontent(st, a[0]))
        start = self.deref(st, a[1]) if len(a) > 1 else ZERO
        if len(a) == 2 and kind(start) == 'seq':
            return self.alloc(st, lift([c, start], lambda u, s0: self._flat(
                u, s0)))
        return lift([c, start], lambda u, s0: add(s0, self.sumseq(u)))

    def _flat(self, u, s0):
        out = [splice(s0)]
        for g in segs(u):
            if g.op == 'it':
                out.append(splice(g.args[0]))
            elif g.op == 'fm':
                v, n, body = g.args[0][0], g.args[1], g.args[2]
                if body.op == 'seq' and all(x.op == 'it'
                                            for x in body.args):
                    out.append(splice(fm((v,), n, seq(*[
                        splice(x.args[0]) for x in body.args]))))
                else:
                    out.append(mk('sp', mk('flat', g)))
            else:
                i = fresh_bv()
                out.append(splice(fm((i,), length(g.args[0]), seq(splice(
                    idx(g.args[0], i))))))
        return seq(*out)

    def sumseq(self, u):
        r = ZERO
        for g in segs(u):
            if g.op == 'it':
                r = add(r, g.args[0])
            elif g.op == 'fm':
                v, n, body = g.args[0][0], g.args[1], g.args[2]
                r = add(r, Sum((v,), n, lift([body], self.sumseq)))
            else:
                i = fresh_bv()
                r = add(r, Sum((i,), length(g.args[0]), idx(g.args[0], i)))
        return r

    def bi_any(self, a, kw, st):
        return any_(self.boolseq(self.snapshot(st,
                                               self.itercontent(st, a[0]))))

    def boolseq(self, s):
        if s.op == 'ite':
            return ite(s.args[0], self.boolseq(s.args[1]),
                       self.boolseq(s.args[2]))
        out = []
        for g in segs(s):
            if g.op == 'it':
                out.append(it(as_bool(g.args[0])))
            elif g.op == 'fm':
                v, n, body = g.args[0][0], g.args[1], g.args[2]
                out.append(splice(fm((v,), n, self.boolseq(body))))
            else:
                out.append(g)
        return seq(*out)

    def bi_all(self, a, kw, st):
        c = self.boolseq(self.snapshot(st, self.itercontent(st, a[0])))

        def ng(s):
            if s.op == 'ite':
                return ite(s.args[0], ng(s.args[1]), ng(s.args[2]))
            out = []
            for g in segs(s):
                if g.op == 'it':
                    out.append(it(not_(g.args[0])))
                elif g.op == 'fm':
                    out.append(splice(fm(g.args[0], g.args[1],
                                         ng(g.args[2]))))
                else:
                    i = fresh_bv()
                    out.append(splice(fm((i,), length(g.args[0]), seq(it(
                        not_(idx(g.args[0], i)))))))
            return seq(*out)
        return not_(any_(ng(c)))

    def bi_min(self, a, kw, st):
        return self._mm('min', a, kw, st)

    def bi_max(self, a, kw, st):
        return self._mm('max', a, kw, st)

    def _mm(self, n, a, kw, st):
        if kw:
            return None
        if len(a) == 1:
            c = self.snapshot(st, self.itercontent(st, a[0]))
            if not (c.op == 'seq' and all(g.op == 'it' for g in c.args)):
                return mk(n + 'of', c)
            vals = [g.args[0] for g in c.args]
        else:
            vals = [self.deref(st, x) for x in a]
        if vals and all(isnum(v) for v in vals):
            vs = [v.args[0] for v in vals]
            return C(min(vs) if n == 'min' else max(vs))
        return mk(n + 'of', mk('seq', *[it(v) for v in
                                        sorted(set(vals))]))

    def bi_abs(self, a, kw, st):
        v = self.deref(st, a[0])
        if isnum(v):
            return C(abs(v.args[0]))
        if v.op == 'nd':
            r = ndm._abs(self, st, a, {})
            if r is not None:
                return r
        return mk('call', mk('builtin', 'abs'), v)

    def bi_list(self, a, kw, st):
        if not a:
            return self.alloc(st, EMPTY)
        return self.alloc(st, self.itercontent(st, a[0]))

    def bi_tuple(self, a, kw, st):
        if not a:
            return EMPTY
        return self.itercontent(st, a[0])

    bi_iter = bi_tuple

    def bi_dict(self, a, kw, st):
        ents = []
        if a:
            d = self.deref(st, a[0])
            if kind(d) == 'dict' or d.op not in ('seq', 'fm'):
                ents.append(mk('sp', d))
            else:
                ents.append(mk('sp', self.todict(d)))
        for k, v in kw.items():
            if k == '**':
                ents.append(mk('sp', v))
            else:
                ents.append(pair(C(k), v))
        return self.alloc(st, mkdict(*ents))

    def bi_set(self, a, kw, st):
        if not a:
            return self.alloc(st, mkset())
        d = self.deref(st, a[0])
        return self.alloc(st, lift([d], lambda u: u if u.op == 'set' else
                                   mkset(splice(self.snapshot(
                                       st, self.asseq(u))))))

    bi_frozenset = bi_set

    def bi_str(self, a, kw, st):
        if not a:
            return C('')
        q = self.objcls.get(a[0])
        if q is not None:
            m = self.classattr(q, '__str__')
            if m is not None:
                return self.call(m, [a[0]], {}, st)
        if self.strs is not None:
            t = self.strs.show(self, st, a[0])
            if t is not None:
                return C(t)
        return tostr(self.snapshot(st, a[0]))

    def bi_repr(self, a, kw, st):
        if self.strs is not None:
            t = self.strs.show(self, st, a[0], True)
            if t is not None:
                return C(t)
        return self.bi_str(a, kw, st)

    def bi_eval(self, a, kw, st):
        if self.strs is None or len(a) != 1:
            return None
        return self.literal(a[0], st, True)

    def literal(self, a, st, names=False):
        """value of a text of literals"""
        d = self.deref(st, a)
        if not (isc(d) and isinstance(d.args[0], str)):
            if d.op in ('c', 'seq', 'dict') and not names:
                raise Raised(mk('exc', 'ValueError'))
            return None
        r = self.strs.evaluate(self, st, d.args[0], names)
        if isinstance(r, str):
            raise Raised(mk('exc', r))
        return r

    def bi_int(self, a, kw, st):
        v = self.deref(st, a[0]) if a else ZERO
        if isnum(v) or isc(v) and isinstance(v.args[0], bool):
            return C(int(v.args[0]))
        if nonneg(v):
            return v
        if isc(v) and isinstance(v.args[0], str):
            try:
                return C(int(v.args[0]))
            except ValueError:
                pass
        return None

    def bi_float(self, a, kw, st):
        v = self.deref(st, a[0]) if a else ZERO
        if isnum(v):
            return v
        if isc(v) and isinstance(v.args[0], str):
            try:
                return C(float(v.args[0]))
            except ValueError:
                pass
        if kind(v) == 'num':
            return v
        return None

    def bi_bool(self, a, kw, st):
        return as_bool(self.deref(st, a[0]))

    def bi_print(self, a, kw, st):
        return NONE

    def bi_callable(self, a, kw, st):
        def f(u):
            if u.op in ('fn', 'bound', 'cls', 'ext', 'builtin', 'meth',
                        'static'):
                return TRUE
            if kind(u) in ('seq', 'mat', 'num', 'str', 'dict', 'none',
                           'set', 'bool'):
                return FALSE
            d = self.deref(st, u)
            if d is not u:
                return f(d)
            q = self.objcls.get(u)
            if q is not None:
                return C(self.classattr(q, '__call__') is not None)
            if u.op == 'attr' and kind(u) == '?':
                return as_bool(mk('truth', mk('callable', u)))
            return as_bool(mk('truth', mk('callable', self.snapshot(st, u))))
        return lift([a[0]], f)

    def bi_getattr(self, a, kw, st):
        n = self.deref(st, a[1])

        def f(u):
            if isc(u) and isinstance(u.args[0], str):
                return self.getattr(st, a[0], u.args[0],
                                    a[2] if len(a) > 2 else None)
            return mk('getattr', self.keyval(st, a[0]), u)
        return lift([n], f)

    def bi_setattr(self, a, kw, st):
        n = self.deref(st, a[1])
        if n.op == 'ite':
            for path, leaf in leaves(n):
                c = TRUE
                for at, v in path:
                    c = and_(c, at if v else not_(as_bool(at)))
                s2 = st.copy()
                self.bi_setattr([a[0], leaf, a[2]], {}, s2)
                st.d = self.merge(c, s2, st).d
            return NONE
        if isc(n) and isinstance(n.args[0], str):
            self.setattr(st, a[0], n.args[0], a[2])
        else:
            self.event(st, mk('ev', 'setattr', a[0], n,
                              self.snapshot(st, a[2])))
        return NONE

    def bi_hasattr(self, a, kw, st):
        n = self.deref(st, a[1])

        def f(o, u):
            if not isc(u):
                return as_bool(mk('hasattr', self.keyval(st, o), u))
            nm = u.args[0]
            if ('a', o, nm) in st.d or ('a', o, nm) in self.gheap:
                return TRUE
            q = self.objcls.get(o)
            if q is not None:
                if self.classattr(q, nm) is not None:
                    return TRUE
                ext = self.extbases(q)
                if o.op == 'new' and (not ext or o in self.constructed and
                                      set(ext) == {mk('builtin', 'object')}):
                    return FALSE
            if nm == '__call__':
                if o.op in ('fn', 'bound', 'cls', 'ext', 'builtin', 'meth',
                            'static'):
                    return TRUE
                if kind(self.deref(st, o)) in ('seq', 'mat', 'num', 'str',
                                               'dict', 'none', 'set',
                                               'bool'):
                    return FALSE
            d = self.deref(st, o)
            if d.op == 'nd':
                if nm in ('shape', '__len__', '__iter__', 'dtype', 'ndim',
                          'size', 'T', 'tolist', '__getitem__'):
                    return TRUE
                if nm in ('__next__', '__call__', 'keys', 'items', 'append',
                          'subs', 'free_symbols'):
                    return FALSE
            if d.op == 'c' and not isnum(d):
                return C(hasattr(d.args[0], nm))
            if nm in ('__next__', 'shape') and kind(d) in (
                    'none', 'bool', 'str', 'dict') or \
                    nm in ('__next__', 'shape') and d.op == 'seq' and \
                    self.nd:
                return FALSE
            if nm in ('__iter__', '__len__'):
                k = kind(self.deref(st, o))
                if k in ('seq', 'dict', 'set', 'str'):
                    return TRUE
                if k in ('num', 'none', 'bool'):
                    return FALSE
            return as_bool(mk('hasattr', self.keyval(st, o), u))
        return lift([a[0], n], f)

    def bi_isinstance(self, a, kw, st):
        cl = self.deref(st, a[1])
        if cl.op == 'seq':
            r = FALSE
            for g in cl.args:
                r = or_(r, self.bi_isinstance([a[0], g.args[0]], {}, st))
            return r
        return lift([a[0], cl], lambda u, c: self.isinst(u, c, st))

    def isinst(self, u, c, st):
        if c.op == 'seq':
            r = FALSE
            names = set(str(g.args[0].args[0]) for g in c.args
                        if g.args[0].args)
            if 'sympy.Expr' in names and 'float' in names and \
                    kind(self.deref(st, u)) == 'num':
                return TRUE       # every scalar
            for g in c.args:
                r = or_(r, self.isinst(u, self.deref(st, g.args[0]), st))
            return r
        q = self.objcls.get(u)
        if q is not None:
            if c.op == 'cls':
                return C(c.args[0] in self.mro(q))
            if c.op == 'builtin':
                return C(any(e.args[0] == c.args[0]
                             for e in self.extbases(q)) or
                         c.args[0] == 'object')
            if c.op == 'ext' and q == 'ref.sig.Values':
                return C(c.args[0] == 'types.GeneratorType')
            if c.op == 'ext' and not self.extbases(q):
                return FALSE
        d = self.deref(st, u)
        if d.op == 'ite':
            return lift([d], lambda v: self.isinst2(u, v, c, st))
        return self.isinst2(u, d, c, st)

    def isinst2(self, u, d, c, st):
        k = kind(d)
        name = c.args[0] if c.op in ('builtin',) else None
        islist = d is not u or u.op in ('new', 'glob') or d.op == 'fm'
        if d.op == 'nd':
            if name in BUILTIN_TYPES:
                return C(name == 'object')
            if c.op == 'ext' and c.args[0] == 'numpy.ndarray':
                return TRUE
        if name in BUILTIN_TYPES:
            if isc(d):
                v = d.args[0]
                if v is None:
                    return FALSE
                if isinstance(v, str):
                    return C(name == 'str')
                if isinstance(v, bool):
                    return C(name in ('bool', 'int'))
                if isinstance(v, int):
                    return C(name == 'int') if name != 'float' else C(False)
                return C(name == 'float')
            if k == 'seq':
                if name in ('list', 'tuple'):
                    if islist or d.op in ('attr',):
                        return C(name == 'list')
                    if d.op == 'seq':
                        return C(name == 'tuple')
                    return as_bool(mk('isinst', self.snapshot(st, d), name))
                return FALSE
            if k == 'str':
                return C(name == 'str')
            if k == 'dict':
                return C(name == 'dict')
            if k == 'set':
                return C(name == 'set')
            if k in ('mat', 'fn'):
                return FALSE
            if d.op == 'slice':
                return C(name == 'slice')
            if k == 'num' and self.strs is not None and any(
                    d is x for x in self.strs.numbers.values()):
                return C(name == 'float')
            if k == 'num' and (self.numexpr or name not in (
                    'int', 'float', 'complex')):
                return FALSE
        if c.op == 'cls' and k in ('seq', 'str', 'dict', 'num', 'mat',
                                   'none'):
            return FALSE
        if c.op == 'ext' and (d is NONE or k in ('seq', 'dict', 'str',
                                                 'fn', 'bool', 'set')):
            return FALSE
        if c.op == 'attr' and c.args[1] == 'type' and k in (
                'seq', 'dict', 'str', 'fn', 'set', 'mat', 'none'):
            return FALSE              # a numpy scalar type
        if c.op == 'ext' and k == 'num' and c.args[0] == 'sympy.Expr' and \
                self.numexpr:
            return C(not isc(d))
        if c.op == 'ext' and k == 'mat' and 'atrix' not in c.args[0]:
            return FALSE
        if c.op == 'ext' and k == 'mat':
            return TRUE
        if c.op == 'ext' and k == 'num' and ('atrix' in c.args[0] or
                                             'ndarray' in c.args[0]):
            return FALSE
        return as_bool(mk('isinst', self.snapshot(st, u),
                          str(c.args[0]) if c.op in ('cls', 'ext', 'builtin')
                          else repr(c)))

    def bi_type(self, a, kw, st):
        q = self.objcls.get(a[0])
        if q is not None:
            return mk('cls', q)
        return None

    def bi_reversed(self, a, kw, st):
        c = self.itercontent(st, a[0])

        def f(u):
            if u.op == 'seq' and all(g.op == 'it' for g in u.args):
                return seq(*reversed(u.args))
            if u.op == 'seq':
                return seq(*[splice(f(seq(g))) for g in reversed(u.args)])
            n = length(u)
            i = fresh_bv()
            return fm((i,), n, seq(it(idx(u, sub(sub(n, ONE), i)))))
        return lift([c], f)

    def bi_sorted(self, a, kw, st):
        c = self.snapshot(st, self.itercontent(st, a[0]))
        if not kw and c.op == 'seq' and all(
                g.op == 'it' and isc(g.args[0]) for g in c.args):
            try:
                return self.alloc(st, seq(*sorted(
                    c.args, key=lambda g: g.args[0].args[0])))
            except TypeError:
                pass
        rev = self.snapshot(st, kw['reverse']) if 'reverse' in kw else FALSE
        if set(kw) <= {'key', 'reverse'} and c.op == 'seq' and isc(rev) and \
                all(g.op == 'it' for g in c.args):
            def key(x):
                if kw.get('key') in (None, NONE):
                    return x
                return self.snapshot(st, self.call(kw['key'], [x], {}, st))
            ks = [literal(key(g.args[0])) for g in c.args]
            if None not in ks:
                try:
                    o = sorted(range(len(ks)), key=lambda i: ks[i],
                               reverse=bool(rev.args[0]))
                    return self.alloc(st, seq(*[c.args[i] for i in o]))
                except TypeError:
                    pass
        k = [mk('kw', n, self.snapshot(st, v)) for n, v in sorted(kw.items())]
        return self.alloc(st, self.sort2(c, k))

    def sort2(self, c, k):
        if len(k) == 1 and k[0].args[0] == 'reverse' and k[0].args[1] is TRUE:
            def r(u):
                if u.op == 'seq' and len(u.args) == 2 and all(
                        g.op == 'it' for g in u.args):
                    a, b = u.args
                    return ite(lt(a.args[0], b.args[0]), seq(b, a), u)
                return mk('sorted', u, *k)
            return lift([c], r)

        def f(u):
            if not k and u.op == 'seq' and all(g.op == 'it' for g in u.args):
                if all(isc(g.args[0]) for g in u.args):
                    try:
                        return seq(*sorted(
                            u.args, key=lambda g: g.args[0].args[0]))
                    except TypeError:
                        pass
                if len(u.args) == 2:
                    a, b = u.args
                    return ite(lt(b.args[0], a.args[0]), seq(b, a), u)
                if len(u.args) < 2:
                    return u
            return mk('sorted', u, *k)
        return lift([c], f)

    def bi_slice(self, a, kw, st):
        d = [self.deref(st, x) for x in a]
        if len(d) == 1:
            d = [NONE, d[0], NONE]
        elif len(d) == 2:
            d = d + [NONE]
        return mk('slice', *d)

    def bi_property(self, a, kw, st):
        fget = a[0] if a else kw.get('fget', NONE)
        fset = a[1] if len(a) > 1 else kw.get('fset', NONE)
        return mk('prop', fget, fset)

    def bi_staticmethod(self, a, kw, st):
        return mk('static', a[0])

    def bi_classmethod(self, a, kw, st):
        return mk('clsmeth', a[0])

    def bi_next(self, a, kw, st):
        d = self.deref(st, a[0])
        if d.op == 'seq' and d.args and d.args[0].op == 'it':
            if a[0] is not d:
                self.setk(st, a[0], seq(*d.args[1:]))
            return d.args[0].args[0]
        return None

    def bi_open(self, a, kw, st):
        if self.fopen is not None:
            r = self.fopen(self, st, a, kw)
            if r is not None:
                return r
        r = self.opaquecall(mk('builtin', 'open'), a, kw, st)
        self.event(st, mk('ev', 'open', r))
        return r

    def bi_round(self, a, kw, st):
        return None

    # ------------------------------------------------------------- methods

    def callmeth(self, obj, name, args, kw, st):
        mm = self.methmodels.get(name)
        if mm is not None:
            r = mm(self, st, obj, args, kw)
            if r is not None:
                return r
        if obj.op == 'ite':
            c = as_bool(obj.args[0])
            s1, s2 = self.branch(st, c, True), self.branch(st, c, False)
            a = self.callmeth(obj.args[1], name, args, kw, s1)
            b = self.callmeth(obj.args[2], name, args, kw, s2)
            st.d = self.merge(c, s1, s2).d
            return ite(c, a, b)
        if obj.op == 'extsuper' or obj.op == 'new' and obj in self.objcls:
            return self.extobj(obj, name, args, kw, st)
        d = self.deref(st, obj)
        if name == '__len__' and not args and kind(d) in ('seq', 'str',
                                                          'dict', 'set'):
            return self.bi_len([obj], {}, st)
        if name == '__getitem__' and len(args) == 1 and not kw:
            return self.getitem(st, obj, args[0])
        if d.op == 'slice' and name == 'indices' and len(args) == 1:
            v = [ndm.lit(x) for x in d.args] + [
                ndm.lit(self.snapshot(st, args[0]))]
            if not any(x is ndm.Unknown or isinstance(x, float) for x in v):
                return seq(*[it(C(k)) for k in slice(*v[:3]).indices(v[3])])
        if d.op == 'nd':
            r = ndm.meth(self, st, obj, d, name, args, kw)
            if r is not None:
                return r
        k = kind(d)
        if k == 'str':
            r = self.strmeth(d, name, args, kw, st)
            if r is not None:
                return r
        if k == 'mat':
            r = self.matmeth(obj, d, name, args, kw, st)
            if r is not None:
                return r
        if d.op == 'dict' or k == 'dict' or d.op == 'ite' and any(
                l.op == 'dict' for _, l in leaves(d)):
            r = self.dictmeth(obj, d, name, args, kw, st)
            if r is not None:
                return r
        if k == 'set':
            r = self.setmeth(obj, d, name, args, kw, st)
            if r is not None:
                return r
        if k == 'seq' or k == '?' and name in ('append', 'extend', 'insert',
                                               'remove', 'sort', 'index',
                                               'reverse'):
            r = self.listmeth(obj, d, name, args, kw, st)
            if r is not None:
                return r
        if k == '?' and name in ('keys', 'values', 'items', 'update', 'get',
                                 'setdefault'):
            r = self.dictmeth(obj, d, name, args, kw, st)
            if r is not None:
                return r
        if k == '?' and name in ('join', 'format', 'split', 'replace'):
            r = self.strmeth(d, name, args, kw, st)
            if r is not None:
                return r
        if name == 'copy' and not args:
            return self.alloc(st, d)
        if name == 'pop' and k == '?':
            x = self.snapshot(st, args[0]) if args else C(-1)
            r = mk('popped', self.snapshot(st, d), x)
            self.mutate(st, obj, lambda c: mk('sdel', c, x))
            return r
        return self.opaquecall(mk('meth', self.keyval(st, obj), name), args,
                               kw, st)

    def extobj(self, obj, name, args, kw, st):
        """method of an external base class: recorded as an event"""
        base = obj.args[1] if obj.op == 'extsuper' else obj
        a = [self.snapshot(st, x) for x in args]
        k = [mk('kw', n, self.snapshot(st, v)) for n, v in sorted(kw.items())]
        ev = mk('ev', 'ext:' + name, base, *(a + k))
        self.event(st, ev)
        return mk('call', mk('meth', base, name), *(a + k))

    def strmeth(self, d, name, args, kw, st):
        a = [self.deref(st, x) for x in args]
        if self.strs is not None and name in strsm.DEPENDS and any(
                isc(x) and isinstance(x.args[0], str) and
                strsm.opaque(x.args[0]) for x in [d] + a):
            return None
        if isc(d) and all(isc(x) for x in a) and not kw and name in (
                'split', 'replace', 'strip', 'lstrip', 'rstrip', 'lower',
                'upper', 'startswith', 'endswith', 'find', 'rfind',
                'isdigit', 'capitalize', 'title', 'partition',
                'rpartition', 'zfill', 'index', 'count', 'splitlines',
                'rsplit', 'isalpha', 'isspace', 'isalnum', 'swapcase',
                'center', 'ljust', 'rjust', 'expandtabs'):
            try:
                r = getattr(d.args[0], name)(*[x.args[0] for x in a])
            except Exception:
                return None
            if isinstance(r, list):
                return self.alloc(st, seq(*[it(C(x)) for x in r]))
            if isinstance(r, tuple):
                return seq(*[it(C(x)) for x in r])
            return C(r)
        if d.op == 'ite' and all(isc(l) for _, l in leaves(d)):
            return lift([d], lambda u: self.strmeth(u, name, args, kw, st))
        if name == 'join':
            s = self.snapshot(st, self.itercontent(st, args[0]))
            return self.strjoin(d, s)
        if name == 'format' and isc(d):
            return self.strformat(d.args[0], args, kw, st)
        if name == 'replace' and d.op == 'str' and all(isc(x) for x in a):
            return mk('call', mk('ext', 'str.replace'), d, *a)
        if name in self.STRM:
            return mk('call', mk('ext', 'str.' + name), d,
                      *[self.snapshot(st, x) for x in args])
        return None

    def strjoin(self, sep, s):
        if s.op == 'ite':
            return ite(s.args[0], self.strjoin(sep, s.args[1]),
                       self.strjoin(sep, s.args[2]))
        if s.op == 'seq' and all(g.op == 'it' for g in s.args):
            parts = []
            for n, g in enumerate(s.args):
                if n:
                    parts.append(sep)
                parts.append(g.args[0])
            return strcat(*parts) if parts else C('')
        if sep is C(''):
            parts = []
            for g in segs(s):
                if g.op == 'it':
                    parts.append(g.args[0])
                elif g.op == 'fm':
                    v, n, body = g.args[0][0], g.args[1], g.args[2]
                    parts.append(joinm((v,), n, self.strjoin(sep, body)))
                else:
                    i = fresh_bv()
                    parts.append(joinm((i,), length(g.args[0]),
                                       tostr(idx(g.args[0], i))))
            return strcat(*parts)
        return strcat(mk('join', sep, s))

    def strformat(self, fmt, args, kw, st):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                if v.op == 'star':
                    return None
                t = None
                if self.strs is not None:
                    t = self.strs.show(self, st, v, conv == 'r', spec)
                parts.append(C(t) if t is not None else
                             tostr(self.snapshot(st, v), spec or ''))
        except (IndexError, ValueError):
            return None
        return strcat(*parts) if parts else C('')

    def listmeth(self, obj, d, name, args, kw, st):
        if name == 'append':
            v = args[0]
            self.mutate(st, obj, lambda c: seq(splice(c), it(v)))
            return NONE
        if name == 'extend':
            c2 = self.itercontent(st, args[0])
            self.mutate(st, obj, lambda c: seq(splice(c), splice(c2)))
            return NONE
        if name == 'insert':
            k, v = self.deref(st, args[0]), args[1]

            def ins(c):
                if c.op == 'ite':
                    return ite(c.args[0], ins(c.args[1]), ins(c.args[2]))
                if k is ZERO:
                    return seq(it(v), splice(c))
                if isnum(k) and c.op == 'seq' and k.args[0] > 0 and all(
                        g.op == 'it' for g in c.args[:k.args[0]]) and \
                        len(c.args) >= k.args[0]:
                    n = k.args[0]
                    return seq(*(c.args[:n] + (it(v),) + c.args[n:]))
                if nonneg(k) and kind(c) == 'seq':
                    a, b = sl(c, NONE, k), sl(c, k, NONE)
                    if not (a.op == 'sl' and a.args[0].op in ('seq', 'fm') or
                            b.op == 'sl' and b.args[0].op in ('seq', 'fm')):
                        return seq(splice(a), it(v), splice(b))
                return mk('sins', c, k, v)
            self.mutate(st, obj, ins)
            return NONE
        if name == 'pop':
            k = self.deref(st, args[0]) if args else C(-1)
            r = idx(self.deref(st, obj), k)
            self.mutate(st, obj, lambda c: self.seqdel(c, k))
            return r
        if name == 'remove':
            v = self.snapshot(st, args[0])
            def rem(c):
                return lift([c, self.indexof(self.snapshot(st, c), v)],
                            self.seqdel)
            self.mutate(st, obj, rem)
            if not self.nd:
                self.note(mk('index', self.snapshot(st, d), v))
            return NONE
        if name == 'index':
            r = mk('index', self.snapshot(st, d), self.snapshot(st, args[0]))
            if not self.nd:
                self.note(r)
            return self.indexof(self.snapshot(st, d),
                                self.snapshot(st, args[0]))
        if name == 'copy':
            return self.alloc(st, d)
        if name == 'sort':
            k = [mk('kw', n, self.snapshot(st, v))
                 for n, v in sorted(kw.items())]
            self.mutate(st, obj, lambda c: self.sort2(
                self.snapshot(st, c), k))
            return NONE
        if name == 'reverse':
            r = self.bi_reversed([obj], {}, st)
            self.setk(st, obj, r)
            return NONE
        if name == 'clear':
            self.setk(st, obj, EMPTY)
            return NONE
        if name == 'count':
            return mk('count', self.snapshot(st, d),
                      self.snapshot(st, args[0]))
        return None

    def indexof(self, s, v):
        def f(u, x):
            if u.op == 'seq':
                for n, g in enumerate(u.args):
                    if g.op != 'it':
                        break
                    e = eq(g.args[0], x)
                    if e is TRUE:
                        return C(n)
                    if e is not FALSE:
                        break
                else:
                    self.raised('ValueError')
            if x.op == 'attr' and x.args[1] in tm.DISTINCT_ATTR and \
                    u.op == 'seq':
                pos = ZERO
                for g in segs(u):
                    e = g.args[0]
                    if g.op == 'it' and e is x:
                        return pos
                    if g.op == 'fm' or e.op != 'attr' or \
                            e.args[0] is not x.args[0] or \
                            e.args[1] not in tm.DISTINCT_ATTR:
                        break
                    pos = add(pos, tm._seglen(g))
            if x.op == 'idx' and x.args[0].op == 'attr' and \
                    x.args[0].args[1] in tm.DISTINCT_ATTR and \
                    nonneg(x.args[1]):
                if u is x.args[0]:
                    return x.args[1]
                # position in a concatenation that holds the element
                pos = ZERO
                for g in segs(u) if u.op == 'seq' else ():
                    if g.op == 'it' and g.args[0] is x:
                        return pos
                    if g.op == 'sp' and g.args[0].op == 'sl' and \
                            g.args[0].args[0] is x.args[0] and \
                            g.args[0].args[3] is NONE:
                        lo, hi = g.args[0].args[1:3]
                        lo = ZERO if lo is NONE else lo
                        if nonneg(sub(x.args[1], lo)) and (
                                hi is NONE or nonneg(sub(sub(
                                    hi, x.args[1]), ONE))):
                            return add(pos, sub(x.args[1], lo))
                        if not (hi is not NONE and nonneg(sub(
                                x.args[1], hi)) or nonneg(sub(sub(
                                    lo, x.args[1]), ONE))):
                            break
                    elif g.op == 'sp' and g.args[0] is x.args[0]:
                        return add(pos, x.args[1])
                    elif g.op == 'it':
                        if eq(g.args[0], x) is not FALSE:
                            break
                    else:
                        break
                    pos = add(pos, tm._seglen(g))
            return mk('index', u, x)
        return lift([s, v], f)

    def dictmeth(self, obj, d, name, args, kw, st):
        if name == 'copy':
            return self.alloc(st, d)
        if name == 'keys':
            return lift([d], self.dictkeys)
        if name in ('values', 'items'):
            def f(u):
                ks = self.dictkeys(u)
                if ks.op == 'seq' and u.op == 'dict' and all(
                        e.op == 'pair' for e in u.args):
                    if name == 'values':
                        return seq(*[it(e.args[1]) for e in u.args])
                    return seq(*[it(seq(it(e.args[0]), it(e.args[1])))
                                 for e in u.args])
                i = fresh_bv()
                k = idx(ks, i)
                v = idx(u, k)
                return fm((i,), length(ks), seq(it(
                    v if name == 'values' else seq(it(k), it(v)))))
            return lift([d], f)
        if name == 'get':
            k = self.snapshot(st, args[0])
            dflt = args[1] if len(args) > 1 else NONE
            r = self.getitem2(st, obj, d, k)
            return ite(restrict(isin(k, d), st.facts), r, dflt)
        if name == 'update':
            if args:
                v = self.deref(st, args[0])
                if kind(v) != 'dict' and v.op in ('seq', 'fm'):
                    v = self.todict(v)
                self.mutate(st, obj, lambda c: self.dictmerge(c, v))
            for k, w in kw.items():
                if k == '**':
                    self.mutate(st, obj, lambda c: self.dictmerge(c, w))
                else:
                    self.mutate(st, obj, lambda c: mkdict(
                        mk('sp', c), pair(C(k), w)))
            return NONE
        if name == 'pop':
            k = self.snapshot(st, args[0])
            r = idx(d, k)
            self.mutate(st, obj, lambda c: self.seqdel(
                c if c.op == 'dict' or c.op == 'ite' else c, k)
                if kind(c) == 'dict' else mk('ddel', c, k))
            if len(args) > 1:
                r = ite(isin(k, d), r, args[1])
            return r
        if name == 'setdefault':
            k = self.snapshot(st, args[0])
            dv = args[1] if len(args) > 1 else NONE
            inn = isin(k, d)
            self.mutate(st, obj, lambda c: ite(inn, c, mkdict(
                mk('sp', c), pair(k, dv))))
            return ite(inn, idx(d, k), dv)
        if name == 'clear':
            self.setk(st, obj, mkdict())
            return NONE
        return None

    def dictmerge(self, c, v):
        def f(a, b):
            return mkdict(mk('sp', a), mk('sp', b))
        return lift([c, v], f)

    def setmeth(self, obj, d, name, args, kw, st):
        a = [self.snapshot(st, x) for x in args]
        if name == 'add':
            self.mutate(st, obj, lambda c: lift([c], lambda u: mkset(
                mk('sp', u), it(a[0]))))
            return NONE
        if name == 'update':
            def f(c):
                return lift([c] + [self.setof(x) for x in a],
                            lambda *u: mkset(*[mk('sp', x) for x in u]))
            self.mutate(st, obj, f)
            return NONE
        if name == 'union':
            return self.alloc(st, lift(
                [d] + [self.setof(x) for x in a],
                lambda *u: mkset(*[mk('sp', x) for x in u])))
        if name in ('isdisjoint', 'issubset', 'issuperset') and len(a) == 1:
            x, y = self.snapshot(st, d), self.setof(a[0])
            if name == 'issuperset':
                x, y = y, x

            def f(u, v):
                if u.op == 'set' and all(g.op == 'it' for g in u.args):
                    r = TRUE
                    for g in u.args:
                        m = isin(g.args[0], v)
                        r = and_(r, m if name != 'isdisjoint' else not_(m))
                    return r
                if name == 'isdisjoint' and v.op == 'set' and all(
                        g.op == 'it' for g in v.args):
                    return f(v, u)
                return as_bool(mk('truth', mk('call', mk('meth', u, name),
                                              v)))
            return lift([x, y], f)
        if name in ('difference', 'intersection') and len(a) == 1 and \
                d.op == 'set' and all(g.op == 'it' for g in d.args):
            ms = [isin(g.args[0], self.setof(a[0])) for g in d.args]
            if all(m is TRUE or m is FALSE for m in ms):
                keep = TRUE if name == 'intersection' else FALSE
                return self.alloc(st, mkset(*[g for g, m in zip(d.args, ms)
                                              if m is keep]))
        if name in ('difference', 'intersection', 'symmetric_difference'):
            return self.alloc(st, mk('set' + name, self.snapshot(st, d), *a))
        if name in ('remove', 'discard'):
            self.mutate(st, obj, lambda c: mk('setdifference', c,
                                              mkset(it(a[0]))))
            return NONE
        if name == 'copy':
            return self.alloc(st, d)
        return None

    def setof(self, x):
        if kind(x) in ('seq', 'dict'):
            return mkset(splice(self.asseq(x)))
        return x

    def matmeth(self, obj, d, name, args, kw, st):
        a = [self.deref(st, x) for x in args]
        if name == 'inv':
            return self.alloc(st, inv(d))
        if name == 'transpose':
            return self.alloc(st, mT(d))
        if name == 'copy':
            return self.alloc(st, d)
        if name == 'dot' and len(a) == 1:
            return self.alloc(st, mul(d, self.tomat(st, a[0])))
        if name == 'tolist':
            if self.nd and d.op == 'mlit':
                return self.alloc(st, seq(*[
                    it(self.alloc(st, seq(*map(it, row))))
                    for row in d.args]))
            return self.alloc(st, mk('mtolist', d))
        if name == 'row_list' and (d.op == 'zeros' or
                                   d is mk('colvec', EMPTY)):
            return self.alloc(st, EMPTY)
        if name in ('row_list', 'todok') and d.op == 'mlit':
            # the entries of a literal that are not the constant zero
            return self.alloc(st, seq(*[
                it(seq(it(C(i)), it(C(j)), it(e)))
                for i, r in enumerate(d.args) for j, e in enumerate(r)
                if e is not ZERO])) if name == 'row_list' else None
        if name == 'applyfunc' and len(args) == 1 and d.op in ('mlit',
                                                               'zeros'):
            if d.op == 'zeros':
                return self.alloc(st, d)
            return self.alloc(st, mk('mlit', *[tuple(
                self.snapshot(st, self.call(args[0], [e], {}, st))
                for e in r) for r in d.args]))
        if name in ('row_swap', 'col_swap'):
            i, j = a
            lo, hi = (i, j)
            self.mutate(st, obj, lambda c: mk('mswap', c, C(name[:3]), i, j))
            return NONE
        if name in ('row_del', 'col_del'):
            self.mutate(st, obj, lambda c: mk('mdel', c, C(name[:3]), a[0]))
            return NONE
        if name in ('row_insert', 'col_insert'):
            r = mk('mins', d, C(name[:3]), a[0], self.snapshot(st, args[1]))
            return self.alloc(st, r)
        return None

    def tomat(self, st, x):
        return self.snapshot(st, x)

    # ------------------------------------------------------------ externals

    def callext(self, name, args, kw, st):
        m = self.extmodels.get(name)
        if m is None:
            m = EXT.get(name)
        if m is None:
            m = EXTLAST.get(name.rpartition('.')[2]) \
                if name.split('.')[0] in ('sympy', 'numpy', 'copy',
                                          'functools', 'pyphs') else None
        if m is not None:
            r = m(self, st, args, kw)
            if r is not None:
                return r
        return self.opaquecall(mk('ext', name), args, kw, st)

    # -------------------------------------------------------------- drivers

    def getfn(self, qual):
        r = self.prog.find_function(qual)
        if r is None:
            return None
        m, cls, node = r
        if cls is None:
            return self.regfn(node, m, 0, None, m.name + '.' + node.name)
        q = m.name + '.' + cls.name
        a = self.classattr(q, node.name)
        if a is None:
            return None
        return a

    def run(self, f, args, kw=None, st=None):
        """analyse a call; returns (value, state, raise conditions)"""
        st = st if st is not None else St()
        self.pending = []
        self.callstack = []
        v = self.call(f, list(args), dict(kw or {}), st)
        xs = [(c, e) for c, e, _ in self.pending]
        self.pending = []
        return v, st, xs


_LOCAL = {}


def localnames(node):
    r = _LOCAL.get(id(node))
    if r is None:
        r = {'<yield>'}
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                r.add(n.id)
            elif isinstance(n, ast.arg):
                r.add(n.arg)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
            elif isinstance(n, ast.alias):
                r.add((n.asname or n.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
        _LOCAL[id(node)] = r
        _LOCAL[('keep', id(node))] = node
    return r


# ------------------------------------------------------------ extern models

EXT = {}
EXTLAST = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def extlast(*names):
    def deco(f):
        for n in names:
            EXTLAST[n] = f
        return f
    return deco


@extlast('Matrix', 'SparseMatrix', 'MutableDenseMatrix', 'MutableSparseMatrix',
         'ImmutableMatrix', 'ImmutableDenseMatrix', 'ImmutableSparseMatrix')
def _matrix(m, st, args, kw):
    if len(args) == 1:
        d = m.deref(st, args[0])

        def f(u):
            if kind(u) == 'mat':
                return u
            s = m.snapshot(st, u)
            if s.op == 'nd':
                sh = ndm.shape(s)
                if ndm.size(sh) == 0:
                    return mk('zeros', C(sh[0]), C(sh[1] if len(sh) > 1
                                                   else 1))
                s = ndm.unnest(s)
            if s.op == 'seq' and s.args and all(g.op == 'it'
                                                for g in s.args):
                rows = [g.args[0] for g in s.args]
                if all(r.op == 'seq' and all(g.op == 'it' for g in r.args)
                       for r in rows):
                    return mk('mlit', *[tuple(g.args[0] for g in r.args)
                                        for r in rows])
                if all(kind(r) != 'seq' for r in rows):
                    return mk('mlit', *[(r,) for r in rows])
            return mk('colvec', s)
        return m.alloc(st, lift([d], f))
    if len(args) == 3:
        a = [m.snapshot(st, x) for x in args]
        return m.alloc(st, mk('matrc', *a))
    return None


@extlast('zeros')
def _zeros(m, st, args, kw):
    a = [m.deref(st, x) for x in args]
    if not a:
        return None
    if a[0].op == 'seq' and len(a[0].args) == 2:
        a = [g.args[0] for g in a[0].args]
    if len(a) == 1:
        a = [a[0], a[0]]
    return m.alloc(st, lift(a[:2], lambda r, c: mk('zeros', r, c)))


@extlast('eye')
def _eye(m, st, args, kw):
    a = [m.deref(st, x) for x in args]
    return m.alloc(st, lift(a[:1], lambda n: mk('eye', n)))


@ext('sympy.diag')
def _diag(m, st, args, kw):
    a = [m.snapshot(st, x) for x in args]
    return m.alloc(st, tm.diag(*a))


@ext('collections.OrderedDict')
def _odict(m, st, args, kw):
    return m.bi_dict(list(args), kw, st)


@extlast('hstack', 'row_join')
def _hstack(m, st, args, kw):
    return m.alloc(st, hstack(*[m.snapshot(st, x) for x in args]))


@extlast('vstack', 'col_join')
def _vstack(m, st, args, kw):
    return m.alloc(st, vstack(*[m.snapshot(st, x) for x in args]))


@ext('copy.copy')
def _copy1(m, st, args, kw):
    q = m.objcls.get(args[0])
    if q is not None:
        f = m.classattr(q, '__copy__')
        if f is not None:
            return m.call(f, [args[0]], {}, st)
        o = args[0]
        if o.op != 'new' or m.extbases(q):
            return None
        c = m.new()
        m.objcls[c] = q
        for d in (m.gheap, st.d):
            for k in list(d):
                if k[0] == 'a' and k[1] is o:
                    st.d[('a', c) + tuple(k[2:])] = d[k]
        return c
    return _copy(m, st, args, kw)


@ext('copy.deepcopy')
def _copy(m, st, args, kw):
    o = args[0]
    if o in m.objcls:
        return None
    d = m.deref(st, o)
    if isc(d) or kind(d) in ('num', 'str', 'bool') or d is tm.NONE:
        return d
    return m.alloc(st, d)


@ext('sympy.diff')
def _diff(m, st, args, kw):
    if len(args) == 2 and not kw:
        return m.call(m.getattr(st, args[0], 'diff'), [args[1]], {}, st)


@ext('sympy.sympify', 'sympy.S', 'sympy.nsimplify')
def _sympify(m, st, args, kw):
    if len(args) == 1:
        return args[0]


@ext('warnings.warn', 'sys.stdout.flush', 'sys.stdout.write',
     'time.sleep')
def _ignore(m, st, args, kw):
    return NONE


@ext('functools.partial')
def _partial(m, st, args, kw):
    return mk('partial', args[0], tuple(args[1:]),
              tuple(pair(C(k), v) for k, v in sorted(kw.items())))


@ext('os.path.join')
def _osjoin(m, st, args, kw):
    out = []
    for a in args:
        a = m.snapshot(st, a)
        if a.op == 'call' and a.args[0] is mk('ext', 'os.path.join'):
            out.extend(a.args[1:])
        else:
            out.append(a)
    if len(out) == 1:
        return out[0]
    return mk('call', mk('ext', 'os.path.join'), *out)
