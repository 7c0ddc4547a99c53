"""Expressions, statements and loops of the abstract interpreter."""
import ast
from .interp import *            # noqa
from .interp import Interp, St, Out, W, UNDEF, restrict, implied, has_new, \
    Abort, Raised, MAXDEPTH, contains, Fn
from . import terms as tm
from . import nd as ndm
from .terms import _items, _mkpoly, _map

BOT = mk('bottom')

CMP = {ast.Lt: lambda a, b: lt(a, b), ast.Gt: lambda a, b: lt(b, a),
       ast.LtE: lambda a, b: le(a, b), ast.GtE: lambda a, b: le(b, a)}


def any_(s):
    """truth of: some element of the sequence s of booleans is true"""
    if s.op == 'ite':
        return ite(s.args[0], any_(s.args[1]), any_(s.args[2]))
    r = FALSE
    for g in segs(s):
        if g.op == 'it':
            r = or_(r, g.args[0])
        elif g.op == 'fm':
            v, n, body = g.args[0][0], g.args[1], g.args[2]
            if v not in free_bv(body):
                r = or_(r, and_(not_(eq(n, ZERO)), any_(body)))
            else:
                r = or_(r, as_bool(mk('any', g)))
        else:
            r = or_(r, as_bool(mk('any', g)))
    return r


class Interp2(Interp):

    pending = ()

    # ---------------------------------------------------------- expressions

    def ev(self, e, st, fid):
        self.steps += 1
        if self.steps > self.budget:
            raise Abort('budget')
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return mk('astunk', type(e).__name__)
        return m(e, st, fid)

    def val(self, e, st, fid):
        """dereferenced value of an expression"""
        return self.deref(st, self.ev(e, st, fid))

    def ev_Constant(self, e, st, fid):
        return C(e.value)

    def ev_Name(self, e, st, fid):
        return self.name(e.id, st, fid)

    def ev_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.assign(e.target, v, st, fid)
        return v

    def ev_Attribute(self, e, st, fid):
        return self.getattr(st, self.ev(e.value, st, fid), e.attr)

    def ev_Tuple(self, e, st, fid):
        return seq(*self.elts(e.elts, st, fid))

    def elts(self, elts, st, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.append(splice(self.itercontent(
                    st, self.ev(x.value, st, fid))))
            else:
                out.append(it(self.ev(x, st, fid)))
        return out

    def ev_List(self, e, st, fid):
        return self.alloc(st, seq(*self.elts(e.elts, st, fid)))

    def ev_Set(self, e, st, fid):
        return self.alloc(st, mkset(*[
            it(self.snapshot(st, x.args[0])) if x.op == 'it' else x
            for x in self.elts(e.elts, st, fid)]))

    def ev_Dict(self, e, st, fid):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.val(v, st, fid)
                ents.append(mk('sp', d))
            else:
                kk = self.snapshot(st, self.ev(k, st, fid))
                ents.append(pair(kk, self.ev(v, st, fid)))
        return self.alloc(st, mkdict(*ents))

    def ev_Lambda(self, e, st, fid):
        module, cls, parent = self.frames[fid]
        qual = '%s:lambda:%d:%d' % (module.name, e.lineno, e.col_offset)
        return self.regfn(e, module, fid, cls, qual, st)

    def ev_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.ev(v, st, fid))
        return strcat(*parts)

    def ev_FormattedValue(self, e, st, fid):
        raw = self.ev(e.value, st, fid)
        if self.strs is not None and e.format_spec is None:
            t = self.strs.show(self, st, raw, e.conversion == ord('r'))
            if t is not None:
                return C(t)
        v = self.snapshot(st, raw)
        spec = ''
        if e.format_spec is not None:
            s = self.ev(e.format_spec, st, fid)
            spec = str(s.args[0]) if isc(s) else repr(s)
        return tostr(v, spec)

    def ev_UnaryOp(self, e, st, fid):
        v = self.val(e.operand, st, fid)
        if v.op == 'nd' and isinstance(e.op, ast.USub):
            return self.alloc(st, ndm.nd(ndm.shape(v), [
                neg(x) for x in ndm.elems(v)]))
        if isinstance(e.op, ast.Not):
            return not_(restrict(as_bool(v), st.facts))
        if isinstance(e.op, ast.USub):
            r = neg(v)
            return self.alloc(st, r) if kind(r) == 'mat' else r
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('un' + type(e.op).__name__, v)

    def cond(self, e, st, fid):
        v = self.val(e, st, fid)
        return restrict(as_bool(v), st.facts)

    def branch(self, st, c, val):
        s = st.copy()
        s.facts = dict(st.facts)
        s.facts.update(implied(c, val))
        return s

    def ev_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st, fid)
        for x in e.values[1:]:
            c = restrict(as_bool(self.deref(st, v)), st.facts)
            if c is TRUE:
                if isand:
                    v = self.ev(x, st, fid)
                continue
            if c is FALSE:
                if not isand:
                    v = self.ev(x, st, fid)
                continue
            s1 = self.branch(st, c, isand)
            w = self.maybe(self.ev, x, s1, fid)
            m = self.merge(c if isand else not_(c), s1, st)
            st.d = m.d
            if isand:
                # value: w if c else v ; for booleans stay boolean
                v = ite(c, w, v if v.op in ('ite', 'c') or
                        kind(v) == 'bool' else v)
            else:
                v = ite(c, v, w)
        return v

    def ev_IfExp(self, e, st, fid):
        c = self.cond(e.test, st, fid)
        if c is TRUE:
            return self.ev(e.body, st, fid)
        if c is FALSE:
            return self.ev(e.orelse, st, fid)
        s1, s2 = self.branch(st, c, True), self.branch(st, c, False)
        a = self.maybe(self.ev, e.body, s1, fid)
        b = self.maybe(self.ev, e.orelse, s2, fid)
        st.d = self.merge(c, s1, s2).d
        return ite(c, a, b)

    def ev_Compare(self, e, st, fid):
        left = self.ev(e.left, st, fid)
        r = TRUE
        for op, rhs in zip(e.ops, e.comparators):
            right = self.ev(rhs, st, fid)
            x = self.compare(op, left, right, st)
            if len(e.ops) == 1 and self.nd and x.op == 'new':
                return x
            r = and_(r, x)
            left = right
        return restrict(r, st.facts)

    def compare(self, op, a, b, st):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if a is NONE or b is NONE or a is TRUE or b is TRUE or \
                    a is FALSE or b is FALSE:
                x, y = (a, b) if isc(b) else (b, a)

                def f(u):
                    if u.op in ('new', 'glob'):
                        return FALSE
                    return eq(self.snapshot(st, u), y)
                r = lift([x], f)
            else:
                def f(u, v):
                    if u is v:
                        return TRUE
                    if u.op == 'new' or v.op == 'new':
                        return FALSE
                    return eq(u, v)
                r = lift([a, b], f)
            return not_(r) if t is ast.IsNot else r
        if t in (ast.In, ast.NotIn):
            bb = self.deref(st, b)
            r = isin(self.snapshot(st, a), self.snapshot(st, bb))
            return not_(r) if t is ast.NotIn else r
        aa, bb = self.snapshot(st, a), self.snapshot(st, b)
        if aa.op == 'nd' or bb.op == 'nd':
            r = ndm.cmp(eq if t is ast.Eq else
                        (lambda x, y: not_(eq(x, y))) if t is ast.NotEq
                        else CMP[t], aa, bb)
            if r is not None:
                return self.alloc(st, r)
        if t is ast.Eq:
            return eq(aa, bb)
        if t is ast.NotEq:
            return not_(eq(aa, bb))
        return CMP[t](aa, bb)

    def ev_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        return self.binop(e.op, a, b, st)

    OPM = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}

    def binop(self, op, a, b, st):
        t = type(op)
        q = self.objcls.get(a)
        if q is not None and t in self.OPM:
            m = self.classattr(q, self.OPM[t])
            if m is not None:
                return self.call(m, [a, b], {}, st)
        da, db = self.deref(st, a), self.deref(st, b)
        fr = a.op in ('new', 'glob') or b.op in ('new', 'glob')
        da, db = self.unaddr(st, da), self.unaddr(st, db)
        if da.op == 'nd' or db.op == 'nd':
            r = ndm.binop(self, st, t, self.snapshot(st, da),
                          self.snapshot(st, db))
            if r is not None:
                return r
        if t is ast.Mod and kind(da) == 'str' and isc(da):
            return self.percent(da.args[0], b, st)
        if t is ast.Add:
            r = add(da, db)
        elif t is ast.Sub:
            if kind(da) == 'set' or kind(db) == 'set':
                r = mk('setdiff', da, db)
            else:
                r = sub(da, db)
        elif t is ast.Mult:
            r = mul(da, db)
        elif t is ast.Div:
            r = div(da, db)
        elif t is ast.Pow:
            r = power(da, db)
        elif t is ast.MatMult:
            r = mk('call', mk('ext', 'numpy.dot'), da, db)
        elif t is ast.FloorDiv:
            if isnum(da) and isnum(db) and db.args[0] != 0:
                r = C(da.args[0] // db.args[0])
            else:
                r = mk('floordiv', da, db)
        elif t is ast.Mod:
            if isnum(da) and isnum(db) and db.args[0] != 0:
                r = C(da.args[0] % db.args[0])
            else:
                r = mk('mod', da, db)
        elif t is ast.BitOr and (kind(da) == 'set' or kind(db) == 'set'):
            r = mkset(mk('sp', da), mk('sp', db))
        elif t in (ast.BitAnd, ast.BitOr) and (da is TRUE or da is FALSE) \
                and (db is TRUE or db is FALSE):
            r = and_(da, db) if t is ast.BitAnd else or_(da, db)
        else:
            r = mk('bin' + t.__name__, da, db)
        if kind(r) in ('mat', 'seq', 'set') and \
                (fr or kind(r) == 'mat' or r.op in ('fm',) or
                 kind(r) == 'seq' and not (a.op == 'seq' and b.op == 'seq')):
            return self.alloc(st, r)
        return r

    def unaddr(self, st, d):
        """a content whose items are mutable scalars/matrices in products"""
        if d.op in ('new', 'glob'):
            return self.snapshot(st, d)
        return d

    def percent(self, fmt, args, st):
        dv = self.deref(st, args)
        if args.op == 'seq':
            vals = [g.args[0] for g in args.args]
        else:
            vals = [args]
        import re
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r'%(\([^)]*\))?([-#0 +]*\d*(?:\.\d+)?)'
                             r'([sdrifgGeEx%])', fmt):
            parts.append(C(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(3) == '%':
                parts.append(C('%'))
                continue
            if m.group(1):
                v = idx(dv, C(m.group(1)[1:-1]))
            else:
                if i >= len(vals):
                    return mk('call', mk('ext', 'strmod'), C(fmt),
                              self.snapshot(st, args))
                v = vals[i]
                i += 1
            if self.strs is not None:
                spec = m.group(2)
                if m.group(3) not in 'sri' and not (m.group(3) == 'd' and
                                                    not spec):
                    spec += m.group(3)
                t = self.strs.show(self, st, v, m.group(3) == 'r', spec)
                if t is not None:
                    parts.append(C(t))
                    continue
            v = self.snapshot(st, v)
            spec = m.group(2)
            if m.group(3) in ('s', 'd', 'i', 'r') and not spec:
                parts.append(tostr(v))
            else:
                parts.append(tostr(v, spec + m.group(3)))
        parts.append(C(fmt[pos:]))
        return strcat(*parts)

    def ev_Slice(self, e, st, fid):
        f = [self.val(x, st, fid) if x is not None else NONE
             for x in (e.lower, e.upper, e.step)]
        return mk('slice', *f)

    def ev_Index(self, e, st, fid):          # python < 3.9
        return self.ev(e.value, st, fid)

    def ev_Subscript(self, e, st, fid):
        base = self.ev(e.value, st, fid)
        k = self.ev(e.slice, st, fid)
        return self.getitem(st, base, k)

    def maybe(self, f, *a):
        """evaluation that takes place under a condition"""
        try:
            return f(*a)
        except Raised as e:
            raise Abort('raises under a condition: %s' % (e,))

    def raised(self, name):
        """an exception in every case; None when not followed"""
        if self.nd:
            raise Raised(mk('exc', name))

    def getitem(self, st, base, k):
        if base.op == 'ite':
            return ite(base.args[0],
                       self.maybe(self.getitem, st, base.args[1], k),
                       self.maybe(self.getitem, st, base.args[2], k))
        q = self.objcls.get(base)
        if q is not None:
            m = self.classattr(q, '__getitem__')
            if m is not None:
                return self.call(m, [base, k], {}, st)
            if base.op == 'new':
                b = mk('idx', base, self.snapshot(st, k))
                v = st.d.get(('i', base, self.snapshot(st, k)))
                return v if v is not None else b
        content = self.deref(st, base)
        kk = self.deref(st, k) if not (k.op == 'seq' and content.op ==
                                       'dict') else k
        kk = self.snapshot(st, kk)
        if content.op == 'nd':
            r = ndm.get(self, st, content, k, kk)
            if r is not None:
                return r
        return self.getitem2(st, base, content, kk)

    def getitem2(self, st, base, content, k):
        if content.op == 'ite' or k.op == 'ite' and k.op != 'seq':
            return lift([content, k], lambda c, kk:
                        self.maybe(self.getitem2, st, base, c, kk))
        if kind(content) == 'mat':
            return self.matget(st, content, k)
        if k.op == 'slice':
            r = sl(content, *k.args)
            if base.op in ('new', 'glob') or kind(r) == 'seq':
                return self.alloc(st, r) if base.op != 'seq' else r
            return r
        ks = self.fancyidx(content, k)
        if ks is not None:
            return self.alloc(st, seq(*[it(content.args[j].args[0])
                                        for j in ks]))
        if self.nd:
            if content.op == 'dict' and tm._ck(k) and all(
                    e.op == 'pair' and tm._ck(e.args[0])
                    and e.args[0] is not k for e in content.args):
                self.raised('KeyError')
            if content.op == 'seq' and isnum(k) and all(
                    e.op == 'it' for e in content.args):
                n = len(content.args)
                if not -n <= k.args[0] < n:
                    self.raised('IndexError')
        r = idx(content, k)
        if r.op == 'idx':
            self.note(r)
            v = st.d.get(('i', base, k))
            if v is not None:
                return v
        return r

    def fancyidx(self, c, k):
        """positions selected in a literal array by a literal list of
        integers (numpy arrays are modelled by sequences)"""
        if not self.fancy or c.op != 'seq' or k.op != 'seq' or \
                any(g.op != 'it' for g in c.args) or \
                any(g.op != 'it' or not isnum(g.args[0]) for g in k.args):
            return None
        ks = [int(g.args[0].args[0]) for g in k.args]
        n = len(c.args)
        if any(not -n <= j < n for j in ks):
            return None
        return ks

    def matget(self, st, m, k):
        if k.op == 'seq' and len(k.args) == 2 and \
                all(g.op == 'it' for g in k.args):
            r, c = [self.deref(st, g.args[0]) for g in k.args]
            if r.op == 'slice' or c.op == 'slice' or \
                    kind(r) == 'seq' or kind(c) == 'seq':
                return self.alloc(st, self.matblk(m, r, c))
            return self.matel(m, r, c)
        if k.op == 'slice':
            return self.alloc(st, mk('mel1', m, k))
        if m.op == 'mlit' and tm.isnum(k) and m.args and \
                0 <= k.args[0] < len(m.args) * len(m.args[0]):
            return m.args[int(k.args[0]) // len(m.args[0])][
                int(k.args[0]) % len(m.args[0])]
        return mk('mel1', m, k)

    def rng(self, r):
        if r.op == 'slice':
            if r.args[2] is not NONE:
                return None
            return r.args[0], r.args[1]
        if kind(r) == 'seq' or kind(r) == '?' and r.op == 'fm':
            # consecutive indices [lo..hi)?
            if r.op == 'fm':
                v, n, body = r.args[0][0], r.args[1], r.args[2]
                if body.op == 'seq' and len(body.args) == 1 and \
                        body.args[0].op == 'it':
                    off = sub(body.args[0].args[0], v)
                    if v not in free_bv(off):
                        return off, add(off, n)
            if r is EMPTY:
                return ZERO, ZERO
            return None
        return r, add(r, ONE)

    def matblk(self, m, r, c):
        def one(rr, cc):
            a, b = self.rng(rr), self.rng(cc)
            if a is None or b is None:
                full = mk('slice', NONE, NONE, NONE)
                return tm.mperm(m, rr, cc)
            return blk(m, a[0], a[1], b[0], b[1])
        return lift([r, c], one)

    def matel(self, m, r, c):
        return tm.mel(m, r, c)

    # comprehensions: a loop that appends to a hidden container

    def comp(self, e, st, fid, emit):
        module, cls, parent = self.frames[fid]
        f2 = self.newframe(module, cls, fid)
        acc = self.alloc(st, EMPTY)

        def gen(i, s):
            if i == len(e.generators):
                emit(s, f2, acc)
                return self.normal(s)
            g = e.generators[i]
            itv = self.ev(g.iter, s, f2 if i else fid)

            def run(s2, elem):
                self.assign(g.target, elem, s2, f2)
                c = TRUE
                for cnd in g.ifs:
                    c = and_(c, self.cond(cnd, s2, f2))
                if c is TRUE:
                    return gen(i + 1, s2)
                if c is FALSE:
                    return self.normal(s2)
                s1 = self.branch(s2, c, True)
                o = gen(i + 1, s1)
                if 'n' in o.o:
                    o.o['n'] = (TRUE, self.merge(c, o.o['n'][1], s2), None)
                return o
            return self.loop(self.itercontent(s, itv), run, s)
        out = gen(0, st)
        if 'n' in out.o:
            st.d = out.o['n'][1].d
        return acc

    def normal(self, st):
        o = Out()
        o.o['n'] = (TRUE, st, None)
        return o

    def ev_ListComp(self, e, st, fid):
        def emit(s, f2, acc):
            v = self.ev(e.elt, s, f2)
            self.mutate(s, acc, lambda c: seq(splice(c), it(v)))
        return self.comp(e, st, fid, emit)

    def ev_GeneratorExp(self, e, st, fid):
        a = self.ev_ListComp(e, st, fid)
        return self.deref(st, a)

    def ev_SetComp(self, e, st, fid):
        a = self.ev_ListComp(e, st, fid)
        return self.alloc(st, mkset(splice(self.snapshot(st, a))))

    def ev_DictComp(self, e, st, fid):
        def emit(s, f2, acc):
            k = self.snapshot(s, self.ev(e.key, s, f2))
            v = self.ev(e.value, s, f2)
            self.mutate(s, acc, lambda c: seq(splice(c), it(pair(k, v))))
        a = self.comp(e, st, fid, emit)
        return self.alloc(st, self.todict(self.deref(st, a)))

    def todict(self, s):
        """sequence of pair(k,v) or 2-seqs -> dict term"""
        if s.op == 'ite':
            return ite(s.args[0], self.todict(s.args[1]),
                       self.todict(s.args[2]))
        ents = []
        for g in segs(s):
            if g.op == 'it':
                x = g.args[0]
                if x.op == 'pair':
                    ents.append(x)
                elif x.op == 'seq' and len(x.args) == 2:
                    ents.append(pair(x.args[0].args[0], x.args[1].args[0]))
                else:
                    ents.append(pair(idx(x, ZERO), idx(x, ONE)))
            elif g.op == 'fm':
                ents.append(subst(g, {}) if False else self._fmpair(g))
            else:
                ents.append(g)
        return mkdict(*ents)

    def _fmpair(self, g):
        v, n, body = g.args[0][0], g.args[1], g.args[2]

        def conv(b):
            if b.op == 'ite':
                return ite(b.args[0], conv(b.args[1]), conv(b.args[2]))
            out = []
            for s in segs(b):
                if s.op == 'it' and s.args[0].op == 'seq' and \
                        len(s.args[0].args) == 2:
                    x = s.args[0]
                    out.append(it(pair(x.args[0].args[0],
                                       x.args[1].args[0])))
                elif s.op == 'it' and s.args[0].op != 'pair':
                    x = s.args[0]
                    out.append(it(pair(idx(x, ZERO), idx(x, ONE))))
                else:
                    out.append(s)
            return mk('seq', *out)
        return canon_binder('fm', (v,), (n, conv(body)))

    def ev_Call(self, e, st, fid):
        f = self.ev(e.func, st, fid)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                content = self.itercontent(st, self.ev(a.value, st, fid))
                if content.op == 'seq' and all(g.op == 'it'
                                               for g in content.args):
                    args.extend(g.args[0] for g in content.args)
                else:
                    args.append(mk('star', self.snapshot(st, content)))
            else:
                args.append(self.ev(a, st, fid))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                d = self.deref(st, v)
                if d.op == 'dict' and all(x.op == 'pair' and isc(x.args[0])
                                          for x in d.args):
                    for x in d.args:
                        kw[x.args[0].args[0]] = x.args[1]
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = v
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                f.op == 'builtin':
            return self.mksuper(args, st, fid)
        if f.op == 'builtin' and f.args[0] in ('locals', 'globals', 'vars'):
            return mk('call', f)
        return self.call(f, args, kw, st)

    def mksuper(self, args, st, fid):
        if len(args) == 2:
            return mk('super', args[0].args[0], args[1])
        f = fid
        while f and not self.frames[f][1]:
            f = self.frames[f][2]
        cls = self.frames[f][1]
        fn = self.callstack[-1]
        a = self.fns[fn].node.args.args
        return mk('super', cls, st.d[('v', fid, a[0].arg)])

    def ev_Starred(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def ev_Yield(self, e, st, fid):
        v = self.ev(e.value, st, fid) if e.value is not None else NONE
        k = ('v', fid, '<yield>')
        old = st.d.get(k, EMPTY)
        st.d[k] = seq(splice(old), it(v))
        return NONE

    def ev_YieldFrom(self, e, st, fid):
        v = self.itercontent(st, self.ev(e.value, st, fid))
        k = ('v', fid, '<yield>')
        st.d[k] = seq(splice(st.d.get(k, EMPTY)), splice(v))
        return NONE

    def ev_Await(self, e, st, fid):
        return self.ev(e.value, st, fid)

    # ------------------------------------------------------------ iteration

    def indexed(self, v):
        """an object iterated by its elements 0, 1, ..."""
        q = self.objcls.get(v)
        return self.nd and q is not None and \
            self.classattr(q, '__iter__') is None and \
            set(self.extbases(q)) <= {mk('builtin', 'object')} and \
            self.classattr(q, '__getitem__') is not None

    def element(self, v, k, st):
        try:
            return self.getitem(st, v, C(k))
        except Raised as e:
            if e.exc.args[0] == 'IndexError':
                return None
            raise

    def indexloop(self, v, run, st):
        """for e in v, with the content of v at each iteration"""
        for k in range(64):
            e = self.element(v, k, st)
            if e is None:
                return self.normal(st)
            o = run(st, e)
            go = [a for a in o.o if a in ('n', 'c')]
            if len(o.o) != 1 or o.o[list(o.o)[0]][0] is not TRUE:
                raise Abort('loop on an object with several outcomes')
            if not go:
                return o
            st = o.o[go[0]][1]
        raise Raised(mk('exc', 'EndlessLoop'))

    def itercontent(self, st, v):
        """content of an iterable as a sequence term"""
        if self.indexed(v):
            out = []
            for k in range(64):
                e = self.element(v, k, st)
                if e is None:
                    return seq(*[it(x) for x in out])
                out.append(e)
            raise Abort('iteration without end')
        q = self.objcls.get(v)
        f = self.classattr(q, '__iter__') if q is not None and self.nd \
            else None
        if f is not None:
            r = self.call(f, [v], {}, st)
            if r is not v:
                return self.itercontent(st, r)
        d = self.deref(st, v)
        return self.asseq(d)

    def asseq(self, d):
        if d.op == 'ite':
            return ite(d.args[0], self.asseq(d.args[1]),
                       self.asseq(d.args[2]))
        if d.op == 'nd' and ndm.shape(d):
            return seq(*[it(r) for r in ndm.rows(d)])
        if d.op == 'dict':
            return self.dictkeys(d)
        if d.op == 'set':
            if all(g.op == 'it' and tm.ground(g.args[0]) for g in d.args):
                return mk('seq', *d.args)
            if d.op == 'set' and getattr(self, 'setorder', False) and all(
                    e.op == 'it' and tm.isname(e.args[0]) for e in d.args):
                return tm.seq(*d.args)
            return mk('order', d)
        if isc(d) and isinstance(d.args[0], str):
            return seq(*[it(C(ch)) for ch in d.args[0]])
        if d.op == 'mlit':
            return seq(*[it(e) for r in d.args for e in r])
        if d.op == 'colvec' and kind(d.args[0]) == 'seq':
            return d.args[0]
        if d.op == 'zeros' and ZERO in d.args:
            return EMPTY
        if kind(d) == 'dict' and d.op not in ('keys',):
            return mk('keys', d)
        return d

    def dictkeys(self, d):
        if d.op == 'ite':
            return ite(d.args[0], self.dictkeys(d.args[1]),
                       self.dictkeys(d.args[2]))
        if d.op != 'dict':
            return mk('keys', d)
        out = []
        if len(d.args) > 1 and not all(
                e.op == 'pair' and isc(e.args[0]) for e in d.args) and \
                not all(e.op == 'pair' for e in d.args):
            return mk('keys', d)
        for e in d.args:
            if e.op == 'pair':
                out.append(it(e.args[0]))
            elif e.op == 'sp':
                out.append(mk('sp', mk('keys', e.args[0])))
            elif e.op == 'fm':
                return mk('keys', d)
        return seq(*out)

    # ----------------------------------------------------------- statements

    def addout(self, out, k, c, st, v):
        if c is FALSE:
            return
        if k in out.o:
            c0, s0, v0 = out.o[k]
            s = self.merge(c0, s0, st)
            if v is None and v0 is None:
                vv = None
            else:
                vv = ite(c0, v0 if v0 is not None else NONE,
                         v if v is not None else NONE)
            out.o[k] = (or_(c0, c), s, vv)
        else:
            out.o[k] = (c, st, v)

    def block(self, stmts, st, fid):
        out = Out()
        cur, cc = st, TRUE
        for s in stmts:
            o = self.stmt(s, cur, fid)
            for k, (c, s2, v) in o.o.items():
                if k != 'n':
                    self.addout(out, k, and_(cc, c), s2, v)
            n = o.o.get('n')
            if n is None or n[0] is FALSE:
                return out
            c, s2, _ = n
            if c is not TRUE:
                s2 = s2.copy()
                s2.facts = dict(s2.facts)
                s2.facts.update(implied(c, True))
                cc = and_(cc, c)
            cur = s2
        self.addout(out, 'n', cc, cur, None)
        return out

    def stmt(self, s, st, fid):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            return self.normal(st)
        saved = self.pending
        self.pending = []
        try:
            o = m(s, st, fid)
            pend = self.pending
        except Raised as e:
            o = Out()
            o.o['x'] = (TRUE, st, e.exc)
            pend = self.pending
        finally:
            self.pending = saved
        if pend:
            o2 = Out()
            xc = FALSE
            for c, exc, ps in pend:
                c2 = and_(not_(xc), c)
                self.addout(o2, 'x', c2, ps, exc)
                xc = or_(xc, c)
            nc = not_(xc)
            for k, (c, s2, v) in o.o.items():
                self.addout(o2, k, and_(nc, c), s2, v)
            return o2
        return o

    def st_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return self.normal(st)
        self.ev(s.value, st, fid)
        return self.normal(st)

    def st_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)
        return self.normal(st)

    def st_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)
        return self.normal(st)

    def st_AugAssign(self, s, st, fid):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, st, fid)
            put = lambda v: st.d.__setitem__(('v', fid, t.id), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            old = self.getattr(st, o, t.attr)
            put = lambda v: self.setattr(st, o, t.attr, v)
        else:
            o = self.ev(t.value, st, fid)
            k = self.ev(t.slice, st, fid)
            old = self.getitem(st, o, k)
            put = lambda v: self.setitem(st, o, k, v)
        v = self.ev(s.value, st, fid)
        d = self.deref(st, old)
        if isinstance(s.op, ast.Add) and kind(d) == 'seq' and \
                old.op != 'seq':
            # in-place list extension: every alias sees it
            content = self.itercontent(st, v)
            self.mutate(st, old, lambda c: seq(splice(c), splice(content)))
            put(old)
        elif isinstance(s.op, ast.BitOr) and kind(d) == 'set' and \
                old.op != 'set':
            content = self.deref(st, v)
            self.mutate(st, old, lambda c: mkset(mk('sp', c),
                                                 mk('sp', content)))
            put(old)
        else:
            put(self.binop(s.op, old, v, st))
        return self.normal(st)

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            f = fid
            if ('nl', fid, t.id) in st.d:
                f = st.d[('nl', fid, t.id)].args[0]
            st.d[('v', f, t.id)] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st, fid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev(t.slice, st, fid)
            self.setitem(st, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            content = self.itercontent(st, v)
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    hi = C(i - n + 1) if i < n - 1 else NONE
                    self.assign(e.value, self.alloc(
                        st, sl(content, C(i), hi)), st, fid)
                    continue
                k = C(i)
                self.assign(e, self.getitem2(st, v, content, k), st, fid)

    def setitem(self, st, o, k, v):
        q = self.objcls.get(o)
        if q is not None:
            m = self.classattr(q, '__setitem__')
            if m is not None:
                self.call(m, [o, k, v], {}, st)
                return
            self.event(st, mk('ev', 'setitem', o, self.snapshot(st, k),
                              self.snapshot(st, v)))
            st.d[('i', o, self.snapshot(st, k))] = v
            return
        if o.op == 'idx' and False:
            return
        content = self.deref(st, o)
        kk = self.snapshot(st, k)

        def f(c):
            if c.op == 'ite':
                return ite(c.args[0], f(c.args[1]), f(c.args[2]))
            kc = kind(c)
            if c.op == 'nd':
                r = ndm.put(self, st, c, k, kk, v)
                if r is not None:
                    return r
            if c.op == 'dict' or kc == 'dict':
                return mkdict(mk('sp', c), pair(kk, v))
            if kc == 'mat':
                return self.matset(st, c, kk, v)
            if kk.op == 'slice':
                vs = self.itercontent(st, v)
                lo, hi, stp = kk.args
                if lo is NONE and hi is NONE and stp is NONE:
                    return vs if kc == 'seq' else mk('store', c, kk, vs)
                if stp is NONE and kc == 'seq':
                    a = sl(c, NONE, lo) if lo is not NONE else EMPTY
                    b = sl(c, hi, NONE) if hi is not NONE else EMPTY
                    return seq(splice(a), splice(vs), splice(b))
                return mk('store', c, kk, vs)
            ks = self.fancyidx(c, kk)
            if ks is not None:
                vs = self.deref(st, v)
                l = list(c.args)
                for n, j in enumerate(ks):
                    l[j] = it(vs if isnum(vs) else
                              self.getitem2(st, v, vs, C(n)))
                return seq(*l)
            if kc == 'seq':
                if c.op == 'seq' and isnum(kk) and \
                        all(g.op == 'it' for g in c.args):
                    l = list(c.args)
                    try:
                        l[kk.args[0]] = it(v)
                        return seq(*l)
                    except IndexError:
                        pass
                return mk('store', c, kk, v)
            return mk('store', c, kk, self.snapshot(st, v))
        if kk.op == 'ite':
            for path, leaf in leaves(kk):
                pass
        self.mutate(st, o, f)

    def matset(self, st, m, k, v):
        val = self.snapshot(st, v)
        if k.op == 'seq' and len(k.args) == 2:
            r, c = [g.args[0] for g in k.args]
            a, b = self.rng(r), self.rng(c)
            if a is not None and b is not None:
                z = lambda x: NONE if x is ZERO else x
                return tm.mstore(m, z(a[0]), a[1], z(b[0]), b[1], val)
        return mk('mstorex', m, k, val)

    def st_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fid)
                k = self.snapshot(st, self.ev(t.slice, st, fid))
                self.delitem(st, o, k)
            elif isinstance(t, ast.Name):
                st.d.pop(('v', fid, t.id), None)
        return self.normal(st)

    def delitem(self, st, o, k):
        if self.objcls.get(o) is not None:
            self.event(st, mk('ev', 'delitem', o, k))
            return
        self.mutate(st, o, lambda c: self.seqdel(c, k))

    def seqdel(self, c, k):
        if c.op == 'ite':
            return ite(c.args[0], self.seqdel(c.args[1], k),
                       self.seqdel(c.args[2], k))
        if c.op == 'dict':
            if all(e.op == 'pair' for e in c.args):
                qs = [tm.eq(e.args[0], k) for e in c.args]
                if all(isc(q) for q in qs):
                    return mkdict(*[e for e, q in zip(c.args, qs)
                                    if q is tm.FALSE])
            return mk('ddel', c, k)
        if kind(c) == 'dict':
            return mk('ddel', c, k)
        if isnum(k) and c.op == 'seq':
            n = k.args[0]
            g = c.args
            try:
                if n >= 0 and all(x.op == 'it' for x in g[:n + 1]) and \
                        len(g) > n:
                    return seq(*(g[:n] + g[n + 1:]))
                if n < 0 and all(x.op == 'it' for x in g[n:]) and \
                        len(g) >= -n:
                    l = list(g)
                    del l[n]
                    return seq(*l)
            except IndexError:
                pass
        if nonneg(k) and kind(c) == 'seq':
            a, b = sl(c, NONE, k), sl(c, add(k, ONE), NONE)
            if not (a.op == 'sl' and a.args[0].op in ('seq', 'fm') or
                    b.op == 'sl' and b.args[0].op in ('seq', 'fm')):
                return seq(splice(a), splice(b))
        if k is C(-1) and kind(c) == 'seq' and c.op != 'seq':
            return sl(c, NONE, C(-1))
        return mk('sdel', c, k)

    def st_Return(self, s, st, fid):
        v = self.ev(s.value, st, fid) if s.value is not None else NONE
        o = Out()
        o.o['r'] = (TRUE, st, v)
        return o

    def st_Pass(self, s, st, fid):
        return self.normal(st)

    def st_Break(self, s, st, fid):
        o = Out()
        o.o['b'] = (TRUE, st, None)
        return o

    def st_Continue(self, s, st, fid):
        o = Out()
        o.o['c'] = (TRUE, st, None)
        return o

    def st_Raise(self, s, st, fid):
        exc = self.ev(s.exc, st, fid) if s.exc is not None else \
            mk('reraise')
        o = Out()
        o.o['x'] = (TRUE, st, self.excname(exc))
        return o

    def excname(self, t):
        u = t
        if u.op == 'call':
            u = u.args[0]
        if u.op in ('builtin', 'ext', 'cls'):
            return mk('exc', str(u.args[0]).rpartition('.')[2])
        q = self.objcls.get(t)
        if q:
            return mk('exc', q.rpartition('.')[2])
        return mk('exc', '?')

    def st_Assert(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        o = Out()
        if c is not FALSE:
            o.o['n'] = (c, st, None)
        if c is not TRUE:
            o.o['x'] = (not_(c), st.copy(), mk('exc', 'AssertionError'))
        return o

    def st_If(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if c is TRUE:
            return self.block(s.body, st, fid)
        if c is FALSE:
            return self.block(s.orelse, st, fid)
        s1, s2 = self.branch(st, c, True), self.branch(st, c, False)
        o1 = self.block(s.body, s1, fid)
        o2 = self.block(s.orelse, s2, fid)
        out = Out()
        nc = not_(c)
        for k, (cc, ss, v) in o1.o.items():
            self.addout(out, k, and_(c, cc), ss, v)
        for k, (cc, ss, v) in o2.o.items():
            self.addout(out, k, and_(nc, cc), ss, v)
        return out

    def st_FunctionDef(self, s, st, fid):
        module, cls, parent = self.frames[fid]
        pre = self.fns[self.callstack[-1]].qual if self.callstack else \
            module.name
        st.d[('v', fid, s.name)] = self.regfn(
            s, module, fid, None, pre + '.<locals>.' + s.name, st)
        return self.normal(st)

    def st_Global(self, s, st, fid):
        return self.normal(st)

    def st_Nonlocal(self, s, st, fid):
        for n in s.names:
            f = self.frames[fid][2]
            while f and ('v', f, n) not in st.d:
                f = self.frames[f][2]
            if f:
                st.d[('nl', fid, n)] = mk('fid', f)
        return self.normal(st)

    def st_Import(self, s, st, fid):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            st.d[('v', fid, nm)] = mk('mod', tgt) if tgt in \
                self.prog.modules else mk('ext', tgt)
        return self.normal(st)

    def st_ImportFrom(self, s, st, fid):
        module = self.frames[fid][0]
        base = module.resolve_from(s)
        for a in s.names:
            v = None
            if base in self.prog.modules:
                v = self.modglobal(base, a.name)
                if v is None and base + '.' + a.name in self.prog.modules:
                    v = mk('mod', base + '.' + a.name)
            if v is None:
                v = self.extname('%s.%s' % (base, a.name))
            st.d[('v', fid, a.asname or a.name)] = v
        return self.normal(st)

    def st_With(self, s, st, fid):
        ctx = []
        for i in s.items:
            v = self.ev(i.context_expr, st, fid)
            q = self.objcls.get(v)
            f = self.classattr(q, '__enter__') if q is not None else None
            if f is not None:
                ctx.append((v, self.classattr(q, '__exit__')))
                v = self.call(f, [v], {}, st)
            else:
                vs = self.snapshot(st, v)
                self.event(st, mk('ev', 'enter', vs))
                ctx.append((vs, None))
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, fid)
        o = self.block(s.body, st, fid)
        for k, (c, ss, v) in list(o.o.items()):
            ss = ss.copy()
            for vs, f in reversed(ctx):
                if f is not None:
                    self.call(f, [vs, NONE, NONE, NONE], {}, ss)
                else:
                    self.event(ss, mk('ev', 'exit', vs))
            o.o[k] = (c, ss, v)
        return o

    def st_Try(self, s, st, fid):
        saved = self.mayraise
        self.mayraise = []
        entry = st.copy()
        o = self.block(s.body, st, fid)
        mr, self.mayraise = self.mayraise, saved
        if saved is not None:
            saved.extend(mr)
        out = Out()
        x = o.o.pop('x', None)
        # explicit raises reach the first compatible handler
        hs = s.handlers
        for k, v in o.o.items():
            pass
        implicit = FALSE
        if mr and hs:
            seen = []
            for t in mr:
                t = self.snapshot(entry, t)
                if t not in seen:
                    seen.append(t)
            implicit = as_bool(mk('raises', mk('seq', *[it(t)
                                                       for t in seen[:6]])))
        nrm = not_(implicit)
        els = o.o.get('n')
        if els is not None and s.orelse:
            o.o.pop('n')
            o2 = self.block(s.orelse, els[1], fid)
            for k, (c, ss, v) in o2.o.items():
                self.addout(out, k, and_(nrm, and_(els[0], c)), ss, v)
        for k, (c, ss, v) in o.o.items():
            self.addout(out, k, and_(nrm, c), ss, v)
        if implicit is not FALSE:
            for i, h in enumerate(hs):
                hc = implicit
                if len(hs) > 1:
                    hc = and_(implicit, as_bool(
                        mk('raises', mk('which', C(i)))) if i < len(hs) - 1
                        else TRUE)
                s1 = entry.copy()
                o3 = self.handler(h, s1, fid)
                for k, (c, ss, v) in o3.o.items():
                    self.addout(out, k, and_(hc, c), ss, v)
                if len(hs) > 1 and i < len(hs) - 1:
                    implicit = and_(implicit, not_(as_bool(
                        mk('raises', mk('which', C(i))))))
        if x is not None:
            c, ss, v = x
            caught = False
            for h in hs:
                if self.catches(h, v):
                    o3 = self.handler(h, ss.copy(), fid)
                    for k, (c3, s3, v3) in o3.o.items():
                        self.addout(out, k, and_(nrm, and_(c, c3)), s3, v3)
                    caught = True
                    break
            if not caught:
                self.addout(out, 'x', and_(nrm, c), ss, v)
        if s.finalbody:
            out2 = Out()
            for k, (c, ss, v) in out.o.items():
                o4 = self.block(s.finalbody, ss, fid)
                for k4, (c4, s4, v4) in o4.o.items():
                    if k4 == 'n':
                        self.addout(out2, k, and_(c, c4), s4, v)
                    else:
                        self.addout(out2, k4, and_(c, c4), s4, v4)
            out = out2
        return out

    st_TryStar = st_Try

    def catches(self, h, v):
        if h.type is None or v is None:
            return True
        names = [n.id if isinstance(n, ast.Name) else getattr(n, 'attr', '')
                 for n in (h.type.elts if isinstance(h.type, ast.Tuple)
                           else [h.type])]
        if 'Exception' in names or 'BaseException' in names:
            return True
        excs = set()
        for _, l in leaves(v):
            excs.add(l.args[0] if l.op == 'exc' else '?')
        return bool(excs & set(names)) or '?' in excs

    def handler(self, h, st, fid):
        if h.name:
            st.d[('v', fid, h.name)] = mk('excval')
        o = self.block(h.body, st, fid)
        return o

    # ---------------------------------------------------------------- loops

    def st_For(self, s, st, fid):
        itv = self.ev(s.iter, st, fid)

        def run(s2, elem):
            self.assign(s.target, elem, s2, fid)
            return self.block(s.body, s2, fid)
        if self.indexed(itv):
            return self.finish_loop(self.indexloop(itv, run, st), s.orelse,
                                    fid)
        content = self.itercontent(st, itv)
        o = self.loop(content, run, st)
        return self.finish_loop(o, s.orelse, fid)

    def finish_loop(self, o, orelse, fid):
        out = Out()
        for k, (c, ss, v) in o.o.items():
            if k == 'n' and orelse:
                o2 = self.block(orelse, ss, fid)
                for k2, (c2, s2, v2) in o2.o.items():
                    self.addout(out, k2, and_(c, c2), s2, v2)
            elif k == 'b':
                self.addout(out, 'n', c, ss, v)
            else:
                self.addout(out, k, c, ss, v)
        if 'n' in out.o:
            c, ss, v = out.o['n']
            out.o['n'] = (c, ss, None)
        return out

    def loop(self, content, run, st):
        """run: (state, element) -> Out.  Returns Out with 'b' for break."""
        content = restrict(content, st.facts)
        if content.op == 'ite':
            if sum(1 for _ in leaves(content)) > 12:
                return self.symloop(length(content),
                                    lambda s2, i: run(s2, idx(content, i)),
                                    st)
            c = as_bool(content.args[0])
            s1, s2 = self.branch(st, c, True), self.branch(st, c, False)
            o1 = self.loop(content.args[1], run, s1)
            o2 = self.loop(content.args[2], run, s2)
            out = Out()
            for k, (cc, ss, v) in o1.o.items():
                self.addout(out, k, and_(c, cc), ss, v)
            for k, (cc, ss, v) in o2.o.items():
                self.addout(out, k, and_(not_(c), cc), ss, v)
            return out
        out = Out()
        cur, cc = st, TRUE
        for g in segs(content):
            if g.op == 'it':
                o = self.bodyout(run(cur, g.args[0]))
            elif g.op == 'fm':
                v, n, body = g.args[0][0], g.args[1], g.args[2]

                def step(s2, i, body=body, v=v):
                    b = subst(body, {v: i})
                    if b.op == 'seq' and len(b.args) == 1 and \
                            b.args[0].op == 'it':
                        return run(s2, b.args[0].args[0])
                    return self.loop(b, run, s2)
                o = self.symloop(n, step, cur)
            else:
                u = g.args[0]

                def step(s2, i, u=u):
                    return run(s2, idx(u, i))
                o = self.symloop(length(u), step, cur)
            for k, (c, s2, v) in o.o.items():
                if k != 'n':
                    self.addout(out, k, and_(cc, c), s2, v)
            n = o.o.get('n')
            if n is None or n[0] is FALSE:
                return out
            if n[0] is not TRUE:
                cc = and_(cc, n[0])
            cur = n[1]
        self.addout(out, 'n', cc, cur, None)
        return out

    def bodyout(self, o):
        """continue = normal end of the body"""
        out = Out()
        for k, (c, s2, v) in o.o.items():
            self.addout(out, 'n' if k == 'c' else k, c, s2, v)
        return out

    def symloop(self, n, step, st, cond=None):
        if n is ZERO:
            return self.normal(st)
        i = fresh_bv()
        phis = {}
        comp = {}               # arrays of known length: one phi per element
        for rnd in range(8):
            mark, fmark = self.nnew, self.nfid
            s = st.copy()
            s.d.update((k, v) for k, v in phis.items() if k[0] != 'z')
            for k, m in comp.items():
                s.d[k] = seq(*[it(phis[('z', k, j)]) for j in range(m)])
            cnd = TRUE
            if cond is not None:
                cnd = cond(s)
                if cnd is FALSE:
                    return self.normal(st)
            o = self.bodyout(step(s, i))
            new = set()
            for kk, (c, s2, v) in o.o.items():
                for k, w in s2.d.items():
                    if k in phis or k in comp:
                        continue
                    if w is st.d.get(k):
                        continue
                    if self.transient(k, mark, fmark):
                        continue
                    if k[0] == 'q' or self.haskey(k, i):
                        continue
                    if k not in st.d and w is self.absent(k, st):
                        continue
                    new.add(k)
            if not new:
                break
            for k in new:
                base = st.d.get(k)
                if base is None:
                    base = self.absent(k, st)
                kd = '?'
                if self.fancy and n is None and k[0] == 'k' and \
                        base is not None and base.op == 'seq' and \
                        all(g.op == 'it' for g in base.args):
                    comp[k] = len(base.args)
                    for j, g in enumerate(base.args):
                        phis[('z', k, j)] = fresh_phi(
                            kind(g.args[0]) if kind(g.args[0]) != '?'
                            else 'num')
                    continue
                if base is not None and base is not UNDEF:
                    kd = kind(base)
                if kd in ('?', 'none'):
                    for kk, (c, s2, v) in o.o.items():
                        w = s2.d.get(k)
                        if w is not None and kind(w) not in ('?', 'none') \
                                and w.op not in ('new',):
                            kd = kind(w) if kd == '?' and base in (
                                None, UNDEF) else kd
                phis[k] = fresh_phi(kd)
        else:
            raise Abort('loop fixpoint')
        ends = o.o
        if 'n' not in ends and not any(k in ends for k in 'br'):
            # every iteration raises
            out = Out()
            if 'x' in ends:
                c, s2, v = ends['x']
                self.addout(out, 'x', not_(eq(n, ZERO)) if n is not None
                            else TRUE, st, v)
                self.addout(out, 'n', eq(n, ZERO), st, None)
                return out
            return self.normal(st)
        # next values
        order = sorted(phis, key=lambda k: (k[0], str(k[1:])))
        inits = {}
        for k in order:
            if k[0] == 'z':
                inits[k] = st.d[k[1]].args[k[2]].args[0]
                continue
            b = st.d.get(k)
            if b is None:
                b = self.absent(k, st)
            inits[k] = b if b is not None else UNDEF
        nexts = {}
        if 'n' in ends:
            sN = ends['n'][1]
            for k in order:
                if k[0] == 'z':
                    w = sN.d[k[1]]
                    if w.op != 'seq' or len(w.args) != comp[k[1]] or \
                            any(g.op != 'it' for g in w.args):
                        raise Abort('array length')
                    nexts[k] = self.settle(sN, w.args[k[2]].args[0], mark)
                    continue
                w = sN.d.get(k, phis[k])
                nexts[k] = self.settle(sN, w, mark)
        else:
            nexts = dict((k, phis[k]) for k in order)
        closed, final = self.solve(order, phis, inits, nexts, i, n,
                                   cnd if cond is not None else None)
        if n is None:
            n = closed.pop('n')
            if n is None:
                out = self.whileout(order, phis, inits, nexts, cnd, ends,
                                    st)
                for _, s3, _ in out.o.values():
                    for k, m in comp.items():
                        s3.d[k] = seq(*[it(s3.d.pop(('z', k, j)))
                                        for j in range(m)])
                return out
            if comp:
                raise Abort('array in a counted loop')
        cl = dict((phis[k], closed[k]) for k in order)

        def at(t, j):
            t = subst(t, cl) if (free_bv(t) & frozenset(cl)) else t
            return subst(t, {i: j}) if j is not i else t
        out = Out()
        done = FALSE
        for kk in ('x', 'r', 'b'):
            if kk in ends:
                c, s2, v = ends[kk]
                ci = at(c, i)
                bools = fm((i,), n, seq(it(ci)))
                anyc = any_(bools) if ci is not TRUE else not_(eq(n, ZERO))
                first = mk('first', bools) if ci is not TRUE else ZERO
                s3 = st.copy()
                for k in order:
                    w = self.settle(s2, s2.d.get(k, phis[k]), mark)
                    s3.d[k] = at(w, first)
                vv = None if v is None else at(
                    self.settle(s2, v, mark), first)
                self.addout(out, kk, and_(not_(done), anyc), s3, vv)
                done = or_(done, anyc)
        if 'n' in ends:
            s3 = st.copy()
            for k in order:
                s3.d[k] = final[k]
            self.qstores(ends['n'][1], st, s3, i, n, at, mark, fmark)
            self.addout(out, 'n', not_(done), s3, None)
        else:
            self.addout(out, 'n', and_(not_(done), eq(n, ZERO)), st, None)
        return out

    def qstores(self, sN, st, s3, i, n, at, mark, fmark):
        for k, w in sN.d.items():
            if k[0] == 'q':
                s3.d[k] = tuple(x for x in w)
        for k, w in sN.d.items():
            if k[0] in ('a', 'k') and self.haskey(k, i) and \
                    st.d.get(k) is not w:
                if k[0] == 'k' and w is k[1]:
                    continue
                w2 = at(self.settle(sN, w, mark), i)
                q = ('q', k[0], k[2] if k[0] == 'a' else None)
                s3.d[q] = s3.d.get(q, ()) + ((i, n, k[1], w2),)

    def haskey(self, k, i):
        for x in k[1:]:
            if isinstance(x, T) and i in free_bv(x):
                return True
        return False

    def transient(self, k, mark, fmark):
        if k[0] == 'v' and k[1] > fmark:
            return True
        if k[0] in ('a', 'k', 'i') and k[1].op == 'new' and \
                k[1].args[0] > mark:
            return True
        return False

    def settle(self, st, t, mark):
        """replace addresses created after `mark` by their contents"""
        if not has_new(t):
            return t
        memo = {}

        def go(u, busy):
            if u in memo:
                return memo[u]
            if not has_new(u):
                return u
            if u.op == 'new':
                if u.args[0] <= mark:
                    return u
                if u in busy:
                    return u
                v = st.d.get(('k', u))
                if v is not None:
                    r = go(v, busy | {u})
                elif u in self.objcls:
                    at = [pair(C(k[2]), go(w, busy | {u}))
                          for k, w in st.d.items()
                          if k[0] == 'a' and k[1] is u]
                    at.sort(key=lambda p: p.args[0].args[0])
                    r = mk('obj', self.objcls[u], *at)
                    self.objcls[r] = self.objcls[u]
                    for p in at:
                        self.gheap[('a', r, p.args[0].args[0])] = p.args[1]
                else:
                    r = u
                memo[u] = r
                return r
            if u.op in ('fn', 'cls'):
                return u
            if u.op in BINDERS:
                r = rebuild(u.op, (u.args[0],) + tuple(
                    _map(a, lambda x: go(x, busy)) for a in u.args[1:]))
            else:
                r = rebuild(u.op, tuple(_map(a, lambda x: go(x, busy))
                                        for a in u.args))
            memo[u] = r
            return r
        return go(t, frozenset())

    # --- recurrences

    def solve(self, order, phis, inits, nexts, i, n, cond=None):
        closed, final = {}, {}
        todo = list(order)
        allphi = dict((phis[k], k) for k in order)
        prog = True
        N = n
        while todo and prog:
            prog = False
            cl = dict((phis[k], closed[k]) for k in closed)
            if N is None and cond is not None:
                N = self.trip(subst(cond, cl) if cl else cond, i, allphi)
            for k in list(todo):
                phi = phis[k]
                nx = nexts[k]
                if cl and (free_bv(nx) & frozenset(cl)):
                    nx = subst(nx, cl)
                others = [p for p in free_bv(nx)
                          if p in allphi and p is not phi]
                if others:
                    continue
                r = self.recur(phi, inits[k], nx, i, N)
                if r is None:
                    continue
                cf, ff = r
                closed[k] = cf
                final[k] = ff
                todo.remove(k)
                prog = True
        if n is None:
            if N is None or todo:
                closed = {'n': None}
                return closed, {}
            # trip count found: recompute the finals
            for k in order:
                cl = dict((phis[q], closed[q]) for q in closed
                          if q is not k)
                nx = subst(nexts[k], cl)
                r = self.recur(phis[k], inits[k], nx, i, N)
                if r is None:
                    return {'n': None}, {}
                closed[k], final[k] = r
            closed['n'] = N
            return closed, final
        if todo:
            cl = dict((phis[k], closed[k]) for k in closed)
            ph = tuple(phis[k] for k in todo)
            ini = tuple(inits[k] for k in todo)
            nxs = tuple(subst(nexts[k], cl) for k in todo)
            for j, k in enumerate(todo):
                final[k] = canon_binder('fold', (i,) + ph,
                                        (n, ini, nxs, C(j)))
                closed[k] = canon_binder('fold', (fresh_bv(),) + ph,
                                         (i, ini, nxs, C(j))) \
                    if i not in frozenset().union(
                        *[free_bv(x) for x in nxs]) else phis[k]
                if closed[k] is phis[k]:
                    closed[k] = mk('foldat', final[k], i)
        return closed, final

    def trip(self, cond, i, allphi):
        """iterations of `while cond(i)` for cond linear in i"""
        if cond.op == 'ite' and cond.args[0].op == 'lt' and \
                cond.args[1] is TRUE and cond.args[2] is FALSE and \
                cond.args[0].args[0] is ZERO:
            d = cond.args[0].args[1]
            N = add(d, i)
            fb = free_bv(N)
            if i not in fb and not (fb & frozenset(allphi)):
                return N
        if cond.op == 'ite' and cond.args[0].op == 'lt' and \
                cond.args[1] is FALSE and cond.args[2] is TRUE:
            # not (0 < e)
            return None
        return None

    def recur(self, phi, init, nx, i, n):
        """(closed form at iteration i, final value) or None"""
        nn = n if n is not None else mk('tripcount')
        if nx is phi:
            return init, init
        if phi not in free_bv(nx):
            prev = subst(nx, {i: sub(i, ONE)})
            if init is UNDEF:
                cf = prev
            else:
                cf = ite(eq(i, ZERO), init, prev)
            last = subst(nx, {i: sub(nn, ONE)})
            if init is UNDEF:
                return cf, last
            return cf, ite(eq(nn, ZERO), init, last)
        kd = kind(phi)
        if init is UNDEF:
            return None
        t = self.tail(nx, phi)
        if t is not None:
            j = fresh_bv()
            ty = t[0]
            body = t[1]
            bj = subst(body, {i: j})
            if ty == 'seq':
                return (seq(splice(init), splice(fm((j,), i, bj))),
                        seq(splice(init), splice(fm((i,), nn, body))))
            if ty == 'pre':
                def rv(m):
                    w = fresh_bv()
                    return fm((w,), m, subst(body, {
                        i: sub(sub(m, ONE), w)}))
                return (seq(splice(rv(i)), splice(init)),
                        seq(splice(rv(nn)), splice(init)))
            if ty == 'str':
                return (strcat(init, joinm((j,), i, bj)),
                        strcat(init, joinm((i,), nn, body)))
            if ty == 'dict':
                return (mkdict(mk('sp', init), canon_binder(
                            'fm', (j,), (i, bj))),
                        mkdict(mk('sp', init), canon_binder(
                            'fm', (i,), (nn, body))))
            if ty == 'set':
                return (mkset(mk('sp', init), canon_binder(
                            'fm', (j,), (i, bj))),
                        mkset(mk('sp', init), canon_binder(
                            'fm', (i,), (nn, body))))
        # conditional overwrite / flag
        cv = self.condover(nx, phi)
        if cv is not None:
            c, v = cv
            j = fresh_bv()

            def upto(m):
                w = fresh_bv()
                b = fm((w,), m, seq(it(subst(c, {i: w}))))
                a = any_(b)
                if i in free_bv(v):
                    return ite(a, subst(v, {i: mk('lastidx', b)}), init)
                return ite(a, v, init)
            return upto(i), upto(nn)
        if kd in ('num', '?') and kind(nx) in ('num', 'ite', '?'):
            d = sub(nx, phi)
            if phi not in free_bv(d):
                j = fresh_bv()
                return (add(init, Sum((j,), i, subst(d, {i: j}))),
                        add(init, Sum((i,), nn, d)))
        if kd == 'mat' and nx.op == 'mstore' and nx.args[0] is phi:
            m = self.matfill(init, nx, phi, i, nn)
            if m is not None:
                return m
        if kd == 'mat':
            d = sub(nx, phi)
            if phi not in free_bv(d):
                j = fresh_bv()
                return (add(init, Sum((j,), i, subst(d, {i: j}))),
                        add(init, Sum((i,), nn, d)))
        # element-wise store
        if nx.op == 'store' and nx.args[0] is phi and nx.args[1] is i:
            v = subst(nx.args[2], {mk('idx', phi, i): idx(init, i)})
            if phi not in free_bv(v) and length(init) is nn:
                j = fresh_bv()
                return (seq(splice(fm((j,), i, seq(it(subst(v, {i: j}))))),
                            splice(sl(init, i, NONE))),
                        fm((i,), nn, seq(it(v))))
        return None

    def matfill(self, init, nx, phi, i, nn):
        """rows, then whole matrices, filled element by element"""
        _, r0, r1, c0, c1, v = nx.args
        v = subst(v, {mk('mel', phi, r0, c0): tm.mel(init, r0, c0)}) \
            if phi in free_bv(v) else v
        if phi in free_bv(v):
            return None
        sh = tm.mshape(init) or (UNDEF, UNDEF)
        one = lambda lo, hi, n: hi is add(lo, ONE) or \
            hi is NONE and n is add(lo, ONE)
        j = fresh_bv()
        if c0 is i and one(c0, c1, sh[1]) and kind(v) != 'mat' and \
                i not in free_bv(r0) and one(r0, r1, sh[0]):
            def row(n, x):
                return canon_binder('mrow', (x,), (n, subst(v, {i: x})))
            return (tm.mstore(init, r0, r1, ZERO, i, row(i, j)),
                    tm.mstore(init, r0, r1, ZERO, nn, row(nn, i)))
        if r0 is i and one(r0, r1, sh[0]) and kind(v) != 'mat' and \
                i not in free_bv(c0) and one(c0, c1, sh[1]):
            def col(n, x):
                return mT(canon_binder('mrow', (x,), (n, subst(v, {i: x}))))
            return (tm.mstore(init, ZERO, i, c0, c1, col(i, j)),
                    tm.mstore(init, ZERO, nn, c0, c1, col(nn, i)))
        if r0 is i and one(r0, r1, sh[0]) and v.op == 'mrow' and \
                c0 is ZERO and (c1 is NONE or c1 is sh[1]) and \
                v.args[1] is sh[1] and nn is sh[0]:
            (k,), n, body = v.args

            def mat(m):
                a, b = fresh_bv(), fresh_bv()
                return canon_binder('mmap', (a, b), (
                    m, n, subst(body, {i: a, k: b})))
            return (tm.mstore(init, ZERO, i, ZERO, NONE, mat(i)), mat(nn))
        if c0 is i and one(c0, c1, sh[1]) and v.op == 'mT' and \
                v.args[0].op == 'mrow' and r0 is ZERO and \
                (r1 is NONE or r1 is sh[0]) and nn is sh[1]:
            (k,), n, body = v.args[0].args

            def mat(m):
                a, b = fresh_bv(), fresh_bv()
                return canon_binder('mmap', (a, b), (
                    n, m, subst(body, {k: a, i: b})))
            return (tm.mstore(init, ZERO, NONE, ZERO, i, mat(i)), mat(nn))
        return None

    def condover(self, nx, phi):
        """nx == ite(c, v, phi) with phi not in c, v"""
        if nx.op != 'ite':
            return None

        def pick(t, keep):
            """BDD that is true where the leaf is (not) phi"""
            if t.op == 'ite':
                return ite(t.args[0], pick(t.args[1], keep),
                           pick(t.args[2], keep))
            return FALSE if t is phi else TRUE
        c = pick(nx, None)
        vals = set(l for _, l in leaves(nx) if l is not phi)
        if phi in free_bv(c):
            return None
        if any(phi in free_bv(v) for v in vals):
            return None
        if len(vals) == 1:
            return c, vals.pop()

        def rm(t):
            if t.op == 'ite':
                a, b = rm(t.args[1]), rm(t.args[2])
                if a is None:
                    return b
                if b is None:
                    return a
                return ite(t.args[0], a, b)
            return None if t is phi else t
        return c, rm(nx)

    def tail(self, nx, phi):
        """('seq'|'pre'|'str'|'dict'|'set', increment) or None"""
        if nx.op == 'ite':
            if phi in free_bv(nx.args[0]):
                return None
            a, b = self.tail(nx.args[1], phi), self.tail(nx.args[2], phi)
            if a is None or b is None:
                return None
            if a[0] == 'id' and b[0] == 'id':
                return ('id', EMPTY)
            ty = a[0] if a[0] != 'id' else b[0]
            if b[0] not in ('id', ty):
                return None
            em = C('') if ty == 'str' else EMPTY
            return (ty, ite(nx.args[0], em if a[0] == 'id' else a[1],
                            em if b[0] == 'id' else b[1]))
        if nx is phi:
            return ('id', EMPTY)
        if nx.op == 'seq' and len(nx.args) >= 1:
            if nx.args[0].op == 'sp' and nx.args[0].args[0] is phi:
                r = seq(*nx.args[1:])
                if phi not in free_bv(r):
                    return ('seq', r)
                # occurrences of len(phi)/phi elsewhere are not handled
                return None
            if nx.args[-1].op == 'sp' and nx.args[-1].args[0] is phi:
                r = seq(*nx.args[:-1])
                if phi not in free_bv(r):
                    return ('pre', r)
        if nx.op == 'str' and nx.args[0] is phi:
            r = strcat(*[C(q) if isinstance(q, str) else q
                         for q in nx.args[1:]])
            if phi not in free_bv(r):
                return ('str', r)
        if nx.op == 'dict' and nx.args and nx.args[0].op == 'sp' and \
                nx.args[0].args[0] is phi:
            r = mk('seq', *[it(e) if e.op == 'pair' else e
                            for e in nx.args[1:]])
            if phi not in free_bv(r):
                return ('dict', r)
        if nx.op == 'set':
            rest = [e for e in nx.args
                    if not (e.op == 'sp' and e.args[0] is phi)]
            if len(rest) == len(nx.args) - 1:
                r = mk('seq', *rest)
                if phi not in free_bv(r):
                    return ('set', r)
        return None

    def st_While(self, s, st, fid):
        def cond(s2):
            return self.cond(s.test, s2, fid)
        c0 = cond(st.copy())
        if c0 is FALSE:
            return self.block(s.orelse, st, fid)

        def step(s2, i):
            c = self.cond(s.test, s2, fid)
            if c is not TRUE:
                s2 = self.branch(s2, c, True)
            return self.block(s.body, s2, fid)
        if self.nd:
            out, cur, cc = Out(), st, TRUE
            for _ in range(400):
                c = self.cond(s.test, cur, fid)
                if c is FALSE:
                    self.addout(out, 'n', cc, cur, None)
                    return self.finish_loop(out, s.orelse, fid)
                if c is not TRUE:
                    break
                o = self.bodyout(self.block(s.body, cur, fid))
                for k, (c, s2, v) in o.o.items():
                    if k != 'n':
                        self.addout(out, k, and_(cc, c), s2, v)
                n = o.o.get('n')
                if n is None or n[0] is FALSE:
                    return self.finish_loop(out, s.orelse, fid)
                if n[0] is not TRUE:
                    cc = and_(cc, n[0])
                cur = n[1]
            if out.o or cc is not TRUE:
                raise Abort('loop unrolled')
            st = cur
        o = self.symloop(None, step, st, cond)
        return self.finish_loop(o, s.orelse, fid)

    def whileout(self, order, phis, inits, nexts, cnd, ends, st):
        ph = tuple(phis[k] for k in order)
        ini = tuple(inits[k] for k in order)
        nxs = tuple(nexts[k] for k in order)
        out = Out()
        s3 = st.copy()
        bc = FALSE
        if 'b' in ends:
            bc = ends['b'][0]
        for j, k in enumerate(order):
            if k == W:
                t = self.tail(nexts[k], phis[k])
                evs = t[1] if t is not None and t[0] in ('seq', 'id') else \
                    nexts[k]
                s3.d[W] = seq(splice(inits[k]), it(
                    mk('ev', 'while', cnd, bc, evs, ph, nxs, ini)))
            else:
                s3.d[k] = canon_binder('loop', ph, (cnd, bc, ini, nxs, C(j)))
        if 'r' in ends:
            c, s2, v = ends['r']
            rc = as_bool(mk('raises', mk('whileret', c)))
            s4 = s3.copy()
            self.addout(out, 'r', rc, s4, v)
            self.addout(out, 'n', not_(rc), s3, None)
            return out
        self.addout(out, 'n', TRUE, s3, None)
        return out
