"""Netlists: reading a file gives the components as they are written, writing
gives a file that reads back the same, the editing operations change the lines
they designate and no other, and the graph of a netlist is made of exactly its
components, with their labels, nodes and arguments.

Decided by abstract execution on texts with opaque names and numbers
(sa/strs.py): the names of dictionaries, components, labels, nodes and
parameters are arbitrary identifiers and the values arbitrary numbers."""
from fractions import Fraction
from . import common as cm
from .common import litlist
from . import c15, c16, c20
from .. import strs
from .. import terms as tm
from ..interp import Raised
from ..rig import Rig
from ..terms import mk, C, sym

FLOOR = 300
F = 'pyphs/graphs/netlists.py:Netlist'
NET = 'pyphs.graphs.netlists.Netlist'
GRAPH = 'pyphs.graphs.graph.Graph'
FIELDS = ('dictionary', 'component', 'label', 'nodes', 'arguments')
PATH = '/w/circuit.net'


class World(object):

    def __init__(self, graphs=False):
        self.r = r = c15.rig() if graphs else Rig()
        r.m.nd = True
        r.m.reclimit = 12
        tm.ORDERED[0] = True
        self.texts = r.m.strs = strs.Texts()
        self.files = c20.textmodels(r)
        m = r.m
        m.gcache[('pyphs.config', 'VERBOSE')] = C(0)
        m.gcache[('pyphs.config', 'datum')] = C('#')

        def isfile(mm, st, args, kw):
            p = mm.snapshot(st, args[0])
            return C(any(g.args[0] is p for g in
                         mm.snapshot(st, self.files).args))
        for n in ('os.path.exists', 'os.path.isfile'):
            m.extmodels[n] = isfile
        m.extmodels['ast.literal_eval'] = lambda mm, st, args, kw: \
            mm.literal(args[0], st)

        def base(mm, st, args, kw):
            p = mm.snapshot(st, args[0])
            if tm.isc(p):
                return C(p.args[0][p.args[0].rfind('/') + 1:])
        m.extmodels['os.path.basename'] = base

        def folder(mm, st, args, kw):
            p = mm.snapshot(st, args[0])
            if tm.isc(p):
                import posixpath
                return C(posixpath.dirname(p.args[0]))
        m.extmodels['os.path.dirname'] = folder

        def module(mm, st, args, kw):
            p = mm.snapshot(st, args[0])
            if tm.isc(p) and p.args[0] in mm.prog.modules:
                return mk('mod', p.args[0])
        m.extmodels['importlib.import_module'] = module

    def name(self):
        return self.texts.name()

    def number(self, n):
        t = sym('v%d' % n, 'num')
        return self.texts.number(t), t

    def put(self, path, text):
        self.r.m.setitem(self.r.st, self.files, C(path), C(text))

    def text(self, path):
        return self.r.snap(self.r.m.getitem(self.r.st, self.files, C(path)))

    def lines(self, net):
        """the lines of a netlist: terms"""
        r = self.r
        out = []
        n = r.meth(net, 'nlines')
        if not tm.isc(n):
            return None
        for k in range(int(n.args[0])):
            d = r.meth(net, '__getitem__', C(k))
            out.append(tuple(self.value(r.m.getitem(r.st, d, C(f)))
                             for f in FIELDS))
        return out

    def value(self, v):
        """a term that distinguishes lists and tuples"""
        r = self.r
        d = r.m.deref(r.st, v)
        if d.op == 'seq' and all(g.op == 'it' for g in d.args):
            return ('tuple' if v.op == 'seq' else 'list',) + tuple(
                self.value(g.args[0]) for g in d.args)
        if d.op == 'dict':
            return ('dict',) + tuple(sorted(
                (tm.pp(g.args[0]), self.value(g.args[1])) for g in d.args))
        return tm.pp(r.snap(d))


def pretty(v):
    return repr(v).replace('\\ue0', '<name ')


def compare(rep, rule, cons, got, want):
    if got is None:
        return rep.undecided(rule, cons, 'number of lines unknown')
    if got == want:
        return rep.holds(rule, cons)
    if len(got) != len(want):
        return rep.violated(rule, cons, '%d lines instead of %d' % (
            len(got), len(want)))
    for a, b in zip(got, want):
        for f, x, y in zip(FIELDS, a, b):
            if x != y:
                bad = [z for z in ('call', 'idx(', 'meth') if z in repr(x)]
                if bad:
                    return rep.undecided(rule, cons, '%s is %s' % (f, x))
                return rep.violated(rule, cons, '%s is %s instead of %s' % (
                    f, pretty(x), pretty(y)))



class Line(object):
    """a line to read: pieces of text, and the values expected"""

    def __init__(self, w, nodes=2, params=(), comp=None, dic=None,
                 label=None, listed=False):
        self.dic = dic or w.name()
        self.comp = comp or w.name()
        self.label = label or w.name()
        self.nodes = [w.name() if k % 2 == 0 else '#' for k in range(nodes)]
        self.listed = listed
        self.params = []
        for k in params:
            self.params.append((w.name(),) + KINDS[k](w))

    def nodestext(self, gap=' '):
        a, b = '[]' if self.listed else '()'
        t = (',' + gap).join("'%s'" % n for n in self.nodes)
        if len(self.nodes) == 1 and not self.listed:
            t += ','
        return a + t + b

    def text(self, style=0):
        s = STYLES[style]
        t = s['head'].format(self.dic, self.comp, self.label,
                             self.nodestext(s.get('gap', ' ')))
        t += ''.join(s['par'].format(k, v) for k, v, _ in self.params)
        return t

    def term(self, w):
        """as add_line and setline take it"""
        r = w.r
        ns = [C(n) for n in self.nodes]
        nodes = litlist(r, ns) if self.listed else tm.seq(*map(tm.it, ns))
        args = r.m.alloc(r.st, tm.mkdict(*[tm.pair(C(k), v)
                                           for k, _, v in self.params]))
        return r.m.alloc(r.st, tm.mkdict(*[
            tm.pair(C(f), v) for f, v in zip(FIELDS, (
                C(self.dic), C(self.comp), C(self.label), nodes, args))]))

    def want(self):
        return (C(self.dic), C(self.comp), C(self.label)), \
            ('list' if self.listed else 'tuple', self.nodes), self.params

    def value(self, w):
        a, (k, ns), ps = self.want()
        return tuple(map(tm.pp, a)) + (
            (k,) + tuple(tm.pp(C(n)) for n in ns),
            ('dict',) + tuple(sorted((tm.pp(C(k)), w.value(v))
                                     for k, _, v in ps)))


STYLES = (
    dict(head='{0}.{1} {2} {3}:', par=' {0}={1};'),
    dict(head='{0}.{1}   {2}\t{3} :', par='  {0} = {1} ;  '),
    dict(head='{0}.{1} {2} {3}:', par='{0}={1};', gap=''),
    dict(head='{0}.{1} {2} {3}:', par=' {0}={1};', gap='   '),
)


def _num(w):
    w.k = getattr(w, 'k', 0) + 1
    return w.number(w.k)


def _pair(w):
    n, (t, v) = w.name(), _num(w)
    return "('%s', %s)" % (n, t), tm.seq(tm.it(C(n)), tm.it(v))


def _bare(w):
    n = w.name()
    return n, C(n)


def _lit(t, v):
    return lambda w: (t, v)


def _bounds(w):
    (t, a), (u, b) = _num(w), _num(w)
    return '(%s, %s)' % (t, u), tm.seq(tm.it(a), tm.it(b))


KINDS = {
    'number': _num, 'pair': _pair, 'name': _bare, 'bounds': _bounds,
    'true': _lit('True', tm.TRUE), 'false': _lit('False', tm.FALSE),
    'int': _lit('12', C(12)), 'negative': _lit('-3', C(-3)),
    'small': _lit('2.5e-09', C(Fraction('2.5e-9'))),
    'large': _lit('1e+20', C(Fraction(10) ** 20)),
    'none': _lit('None', tm.NONE),
}
# texts that are read, and written in another form
READ = dict(KINDS)
KINDS['quoted'] = lambda w: (lambda n: ("'%s'" % n, C(n)))(w.name())
KINDS['product'] = lambda w: (lambda n: (
    "('%s', 10*1e-3)" % n,
    tm.seq(tm.it(C(n)), tm.it(C(Fraction(1, 100))))))(w.name())
KINDS['tight'] = lambda w: (lambda n, q: (
    "('%s',%s)" % (n, q[0]), tm.seq(tm.it(C(n)), tm.it(q[1]))))(
        w.name(), _num(w))

SETS = ((), ('number',), ('pair',), ('name',), ('bounds',), ('true',),
        ('false',), ('int',), ('negative',), ('small',), ('large',),
        ('none',), ('number', 'pair'), ('pair', 'name', 'number'),
        ('name', 'pair', 'pair', 'true', 'int'))


def attempt(rep, rule, cons, f, *a):
    """f(world); exceptions are violations"""
    w = World()
    try:
        f(w, *a)
    except Raised as e:
        return rep.violated(rule, cons, 'raises %s' % pretty(
            tm.pp(e.exc))[:200])
    for p in w.r.m.pending:
        if p[0] is tm.TRUE:
            return rep.violated(rule, cons, 'raises an exception')
        return rep.undecided(rule, cons, 'may raise')
    rep.visited |= w.r.m.visited


def reading(rep):
    """lines of a file"""
    def one(w, sets, style, end, extra, cons):
        ls = [Line(w, nodes=n, params=p) for n, p in sets]
        ts = [l.text(style) + '\n' for l in ls]
        t = ''.join(extra + x for x in ts) + extra
        if end:
            t = t.rstrip('\n')
        if end == 'open':
            t = t.rstrip('; ')
        w.put(PATH, t)
        net = w.r.new(NET, C(PATH))
        compare(rep, 'C19.read', cons, w.lines(net),
                [l.value(w) for l in ls])
        rep.same('C19.read', cons + ' nlines', w.r.snap(w.r.meth(
            net, 'nlines')), C(len(ls)))
        rep.same('C19.read', cons + ' file left as it was', w.text(PATH),
                 C(t))
    allk = SETS + (('quoted',), ('product',), ('tight',), ('quoted', 'name'))
    for s in allk:
        for style in range(len(STYLES)):
            for end in ('', 'cut', 'open'):
                if end == 'open' and not s:
                    continue
                cons = '%s.read %s, layout %d%s' % (
                    F, '+'.join(s) or 'no parameter', style,
                    {'': '', 'cut': ', without final newline',
                     'open': ', without final semicolon'}[end])
                attempt(rep, 'C19.read', cons, one, [(2, s)], style, end,
                        '', cons)
    # a line without final semicolon, followed by others
    for s in allk[1:]:
        cons = '%s.read %s, without semicolon, then another line' % (
            F, '+'.join(s))

        def two(w, s=s, cons=cons):
            a, b = Line(w, params=s), Line(w, params=('number',))
            w.put(PATH, a.text().rstrip(';') + '\n' + b.text() + '\n')
            net = w.r.new(NET, C(PATH))
            compare(rep, 'C19.read', cons, w.lines(net),
                    [a.value(w), b.value(w)])
        attempt(rep, 'C19.read', cons, two)
    for n in (1, 2, 3, 4, 5):
        cons = '%s.read %d nodes' % (F, n)
        attempt(rep, 'C19.read', cons, one, [(n, ('pair',))] * 2, 0, '', '',
                cons)
    for n, x in (('comments', '# text: a=1;\n'), ('blank lines', '\n'),
                 ('comments and blank lines', '#\n\n#===  a ===#\n'),
                 ('lines of spaces', '  \n\t\n')):
        for k in (1, 2, 3):
            for end in ('', 'cut'):
                cons = '%s.read %d lines, %s%s' % (
                    F, k, n, ', no final newline' if end else '')
                attempt(rep, 'C19.read', cons, one,
                        [(2, SETS[-1]), (1, ()), (3, ('pair', 'number'))][:k],
                        0, end, x, cons)


LIST = (((2, ('pair',)), (1, ()), (3, ('name', 'number', 'true'))))


def made(w, sets=LIST, path=PATH, **kw):
    ls = [Line(w, nodes=n, params=p, **kw) for n, p in sets]
    w.put(path, ''.join(l.text() + '\n' for l in ls))
    return w.r.new(NET, C(path)), ls


def values(w, ls):
    return [l.value(w) for l in ls]


def writing(rep):
    """write, then read"""
    def trip(w, make, cons):
        net, ls = make(w)
        before = w.lines(net)
        compare(rep, 'C19.write', cons + ' lines', before, values(w, ls))
        for path in (None, '/w/other.net'):
            how = cons + (' to another file' if path else '')
            if path:
                w.r.meth(net, 'write', path=C(path))
            else:
                w.r.meth(net, 'write')
            back = w.r.new(NET, C(path or PATH))
            compare(rep, 'C19.write', how, w.lines(back), before)
            compare(rep, 'C19.write', how + ', lines of the netlist written',
                    w.lines(net), before)
            w.r.meth(back, 'write', path=C('/w/third.net'))
            rep.same('C19.write', how + ' again', w.text('/w/third.net'),
                     w.text(path or PATH))
        rep.same('C19.write', cons + ' path', w.r.snap(w.r.get(net, 'path')),
                 C(PATH))
        rep.same('C19.write', cons + ' text', w.text(PATH),
                 w.r.snap(w.r.meth(net, 'netlist')))

    def read(sets, **kw):
        return lambda w: made(w, sets, **kw)

    def added(sets, **kw):
        def f(w):
            net = w.r.new(NET, C(PATH))
            ls = [Line(w, nodes=n, params=p, **kw) for n, p in sets]
            for l in ls:
                w.r.meth(net, 'add_line', l.term(w))
            return net, ls
        return f
    for how, f in (('read', read), ('added', added)):
        for s in SETS + (('quoted',), ('product',)):
            cons = '%s %s, %s' % (F, how, '+'.join(s) or 'no parameter')
            attempt(rep, 'C19.write', cons, trip, f([(2, s)]), cons)
        for n in (1, 2, 3, 4, 5):
            cons = '%s %s, %d nodes' % (F, how, n)
            attempt(rep, 'C19.write', cons, trip, f([(n, ('pair',))]), cons)
            cons = '%s %s, list of %d nodes' % (F, how, n)
            attempt(rep, 'C19.write', cons, trip, f([(n, ('pair',))],
                                                    listed=True), cons)
        for k in (0, 2, 3):
            cons = '%s %s, %d lines' % (F, how, k)
            attempt(rep, 'C19.write', cons, trip, f(LIST[:k]), cons)
    # the text of one line
    def single(w, k, cons):
        net, ls = made(w)
        rep.same('C19.write', cons, w.r.snap(w.r.meth(net, 'line', C(k))),
                 C(ls[k].text() + '\n'))
        d = w.r.meth(net, '__getitem__', C(k))
        rep.same('C19.write', cons + ' print_netlist_line', w.r.snap(
            w.r.call(w.r.fn('pyphs.graphs.netlists.print_netlist_line'), d)),
            C(ls[k].text() + '\n'))
    for k in range(3):
        cons = '%s line(%d)' % (F, k)
        attempt(rep, 'C19.write', cons, single, k, cons)


def operations(w, other=None):
    """name -> (apply to the netlist, apply to the list of lines)"""
    def add(net, ls):
        l = Line(w, params=('pair', 'name'))
        w.r.meth(net, 'add_line', l.term(w))
        return ls + [l]

    def dele(k):
        def f(net, ls):
            w.r.meth(net, 'delline', C(k))
            return [l for j, l in enumerate(ls) if j != k % len(ls)]
        return f

    def put(k, **kw):
        def f(net, ls):
            l = Line(w, nodes=3, params=('number', 'bounds'), **kw)
            w.r.meth(net, 'setline', C(k), l.term(w))
            return ls[:k] + [l] + ls[k + 1:]
        return f

    def move(k, j):
        """line k becomes a copy of line j"""
        def f(net, ls):
            w.r.meth(net, 'setline', C(k), w.r.meth(net, '__getitem__',
                                                    C(j)))
            return ls[:k] + [ls[j]] + ls[k + 1:]
        return f

    def plus(net, ls):
        w2, l2 = made(w, LIST[1:], '/w/second.net')
        before = w.lines(w2)
        t = w.r.meth(net, '__add__', w2)
        return ls + l2, t, (w2, before)
    return (('add', add), ('delete 0', dele(0)), ('delete 1', dele(1)),
            ('delete 2', dele(2)), ('delete -1', dele(-1)),
            ('set 0', put(0)), ('set 1', put(1)), ('set 2', put(2)),
            ('set 1, label of digits', put(1, label='1')),
            ('set 0, label like a number', put(0, label='2e3')),
            ('copy 0 to 2', move(2, 0)), ('plus', plus))


def editing(rep, first=None):
    """sequences of one and two operations"""
    def go(w, names, cons):
        net, ls = made(w, path=PATH)
        text = w.text(PATH)
        ops = dict(operations(w))
        others = []
        for n in names:
            if n == 'plus' and others:
                return
            out = ops[n](net, ls)
            if n == 'plus':
                ls, net, o = out
                others.append(o)
            else:
                ls = out
        compare(rep, 'C19.edit', cons, w.lines(net), values(w, ls))
        for o, before in others:
            compare(rep, 'C19.edit', cons + ' second netlist', w.lines(o),
                    before)
        rep.same('C19.edit', cons + ' nlines', w.r.snap(w.r.meth(
            net, 'nlines')), C(len(ls)))
        rep.same('C19.edit', cons + ' file', w.text(PATH), text)
        w.r.meth(net, 'write', path=C('/w/out.net'))
        compare(rep, 'C19.edit', cons + ' written and read', w.lines(
            w.r.new(NET, C('/w/out.net'))), values(w, ls))
    names = [n for n, _ in operations(None)]
    for n in names if first is None else [names[first]]:
        if first is None:
            cons = '%s %s' % (F, n)
            attempt(rep, 'C19.edit', cons, go, (n,), cons)
            continue
        for m in names:
            if 'delete' in n and '2' in m.split(','):
                continue
            if 'delete' in n and m in ('delete 2', 'set 2', 'copy 0 to 2'):
                continue
            cons = '%s %s, then %s' % (F, n, m)
            attempt(rep, 'C19.edit', cons, go, (n, m), cons)


def files(rep):
    """new files, cleared files, names of files, two netlists"""
    def new(w, clear, there, cons):
        if there:
            made(w)
        net = w.r.new(NET, C(PATH), **({'clear': C(clear)} if clear is not
                                       None else {}))
        keep = there and not clear
        got = w.lines(net)
        if got is None:
            return rep.undecided('C19.files', cons, 'number of lines')
        rep.same('C19.files', cons, C(len(got)), C(3 if keep else 0))
        t = w.text(PATH)
        if keep:
            return
        rep.same('C19.files', cons + ' file', t, C(''))
    for clear in (None, False, True):
        for there in (False, True):
            cons = '%s(%s%s)' % (F, 'existing file' if there else
                                 'new file', ', clear=%s' % clear if clear
                                 is not None else '')
            attempt(rep, 'C19.files', cons, new, clear, there, cons)

    def names(w, path, folder, name, cons):
        net, _ = made(w, LIST[:1], path)
        rep.same('C19.files', cons + ' filename', w.r.snap(w.r.get(
            net, 'filename')), C(name))
        rep.same('C19.files', cons + ' folder', w.r.snap(w.r.get(
            net, 'folder')), C(folder))
    for path, folder, name in (('/w/circuit.net', '/w', 'circuit.net'),
                               ('/w/a/b.net', '/w/a', 'b.net'),
                               ('w/b.net', 'w', 'b.net'),
                               ('rlc.net', '', 'rlc.net')):
        cons = '%s(%s)' % (F, path)
        attempt(rep, 'C19.files', cons, names, path, folder, name, cons)

    def double(w, cons):
        a, la = made(w, LIST)
        b, lb = made(w, LIST[:2], '/w/second.net')
        l = Line(w, params=('number',))
        w.r.meth(b, 'add_line', l.term(w))
        w.r.meth(a, 'delline', C(0))
        compare(rep, 'C19.files', cons, w.lines(a), values(w, la[1:]))
        compare(rep, 'C19.files', cons, w.lines(b), values(w, lb + [l]))
    cons = F + ' two netlists'
    attempt(rep, 'C19.files', cons, double, cons)

    def itself(w, cons):
        net, ls = made(w)
        t = w.r.meth(net, '__add__', net)
        compare(rep, 'C19.edit', cons, w.lines(t), values(w, ls + ls))
    cons = F + ' a netlist plus itself'
    attempt(rep, 'C19.edit', cons, itself, cons)


def recorded(w, classes):
    """constructors of components leave a record and one storage"""
    r, m = w.r, w.r.m
    calls = []

    def init(q):
        def f(mm, st, args, kw):
            g = args[0]
            mm.call(mm.getfn(GRAPH + '.__init__'), [g], {}, st)
            calls.append((q, [mm.snapshot(st, args[1]),
                              w.value(args[2])] + list(args[3:]),
                          dict((k, w.value(v)) for k, v in kw.items())))
            n = len(calls)
            mm.call(mm.getattr(st, mm.getattr(st, g, 'core'),
                               'add_storages'), [
                mm.alloc(st, tm.seq(tm.it(tm.named('x%d' % n)))),
                sym('H%d' % n, 'num')], {}, st)
            mm.call(mm.getattr(st, g, 'add_edges_from'), [mm.alloc(
                st, tm.seq(tm.it(edge(mm, st, n))))], {}, st)
            return tm.NONE
        return f
    for q in classes:
        c = m.modglobal('pyphs.dictionary.' + q.split('.')[0],
                        q.split('.')[1])
        if c is None or c.op != 'cls':
            continue
        t = m.classattr(c.args[0], '__init__')
        m.models[t.args[0] if isinstance(t.args[0], str) else
                 c.args[0] + '.__init__'] = init(q)
    return calls


def edge(m, st, n):
    return tm.seq(*[tm.it(x) for x in (
        C('a%d' % n), C('b%d' % n), m.alloc(st, tm.mkdict(tm.pair(
            C('label'), tm.named('x%d' % n)))))])


def components():
    from ..rig import program
    out = list(c16.COMPONENTS)
    return sorted(out)


def graphs(rep, k, n):
    """the graph of a netlist"""
    def one(w, qs, how, cons):
        calls = recorded(w, components())
        ls = []
        for j, q in enumerate(qs):
            dic, cl = q.split('.')
            name = (cl.lower(), cl, cl.upper())[(k + j) % 3]
            ls.append(Line(w, nodes=1 + j % 3, params=SETS[
                (5 * j + k) % len(SETS)], dic=dic, comp=name))
        w.put(PATH, ''.join(l.text() + '\n' for l in ls))
        r = w.r
        label, kw = 'circuit', {}
        if how == 'path':
            g = r.new(GRAPH, C(PATH))
        elif how == 'label':
            label, kw = 'own', {'label': C('own')}
            g = r.new(GRAPH, netlist=r.new(NET, C(PATH)), **kw)
        elif how == 'to_graph':
            g = r.meth(r.new(NET, C(PATH)), 'to_graph')
        elif how == 'to_graph(label)':
            label = 'own'
            g = r.meth(r.new(NET, C(PATH)), 'to_graph', label=C('own'))
        else:
            g = r.new(GRAPH, r.new(NET, C(PATH)))
        got = [(q, a[0], a[1], len(a) - 2, kw) for q, a, kw in calls]
        want = []
        for q, l in zip(qs, ls):
            v = l.value(w)
            want.append((q, C(l.label), v[3], 0, dict(
                (a.args[0], b) for a, b in (
                    (C(x), w.value(y)) for x, _, y in l.params))))
        for a, b in zip(got, want):
            for what, x, y in zip(('component', 'label', 'nodes', 'other '
                                   'arguments', 'arguments'), a, b):
                c = '%s: %s of %s' % (cons, what, b[0])
                if x == y:
                    rep.holds('C19.graph', c)
                else:
                    rep.violated('C19.graph', c, 'is %s instead of %s' % (
                        pretty(x), pretty(y)))
        if len(got) != len(want):
            rep.violated('C19.graph', cons, '%d components instead of %d' % (
                len(got), len(want)))
        n = len(want)
        rep.same('C19.graph', cons + ': label', r.snap(r.get(g, 'label')),
                 C(label))
        core = r.get(g, 'core')
        rep.same('C19.graph', cons + ': core.x', r.snap(r.get(core, 'x')),
                 tm.seq(*[tm.it(tm.named('x%d' % (j + 1)))
                          for j in range(n)]))
        h = r.snap(r.get(core, 'H'))
        want = tm.ZERO
        for j in range(n):
            want = tm.add(want, sym('H%d' % (j + 1), 'num'))
        rep.same('C19.graph', cons + ': core.H', h, want)
        es = r.snap(r.m.bi_list([r.meth(g, 'edges', data=tm.TRUE)], {},
                                r.st))
        want = [r.snap(edge(r.m, r.st, j + 1)) for j in range(n)]
        if es.op != 'seq' or any(e.op != 'it' for e in es.args):
            return rep.undecided('C19.graph', cons + ': edges', tm.pp(es))
        rep.same('C19.graph', cons + ': edges', tm.seq(*[tm.it(e) for e in
                 sorted((e.args[0] for e in es.args), key=tm.pp)]),
                 tm.seq(*[tm.it(e) for e in sorted(want, key=tm.pp)]))

    def go(qs, how):
        cons = '%s of %s%s' % ('pyphs/graphs/graph.py:Graph',
                               ', '.join(qs) or 'an empty netlist',
                               ', ' + how if how else '')

        w = World(True)
        try:
            one(w, qs, how, cons)
        except Raised as e:
            rep.violated('C19.graph', cons, 'raises %s' % pretty(
                tm.pp(e.exc))[:200])
        rep.visited |= w.r.m.visited
    cs = components()
    for j in range(k, len(cs), n):
        go([cs[j]], '')
        go([cs[j], cs[(j + 7) % len(cs)], cs[(3 * j + 1) % len(cs)]], '')
    if k == 0:
        go([], '')
        for how in ('path', 'label', 'to_graph', 'to_graph(label)'):
            go(cs[:2], how)
        go(cs[:1] * 3, '')


def run(rep, tier):
    n = len(operations(None))
    cm.parallel(rep, [reading, writing, files, editing] + [
        lambda rep, k=k: editing(rep, k) for k in range(n)] + [
        lambda rep, k=k: graphs(rep, k, 6) for k in range(6)])
