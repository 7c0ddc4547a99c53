"""Generated C++ code, read and evaluated on terms.

The text a generator of the repository writes is parsed (a class of matrices,
vectors, pointers and doubles) and its methods are evaluated with terms for
the numbers.  `Bad` is a definite error of the text (a name nobody declares,
shapes which do not fit, unbalanced brackets), `Unsupported` a construct this
reader does not know."""
import re
from . import terms as tm
from .terms import C, sym


class Bad(Exception):
    pass


class Unsupported(Exception):
    pass


TOKEN = re.compile(r'''
    (?P<ws>\s+)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFuUlL]*)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
  | (?P<op>::|\+\+|--|\+=|-=|\*=|/=|==|!=|<=|>=|&&|\|\||->|<<|[-+*/%=<>!&|(){}\[\];,.:?~])
''', re.X)


def strip(text):
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    text = re.sub(r'//[^\n]*', ' ', text)
    return '\n'.join('' if l.lstrip().startswith('#') else l
                     for l in text.split('\n'))


def tokens(text):
    out = []
    p = 0
    text = strip(text)
    while p < len(text):
        m = TOKEN.match(text, p)
        if m is None:
            raise Bad('character %r' % text[p])
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
        p = m.end()
    stack = []
    pairs = {')': '(', ']': '[', '}': '{'}
    for k, t in out:
        if k != 'op':
            continue
        if t in '([{':
            stack.append(t)
        elif t in pairs:
            if not stack or stack.pop() != pairs[t]:
                raise Bad('unbalanced %s' % t)
    if stack:
        raise Bad('unclosed %s' % stack[-1])
    return out


BASE = ('double', 'float', 'int', 'unsigned', 'void', 'bool', 'long', 'auto',
        'char', 'size_t', 'hsize_t')
TEMPLATES = ('Matrix', 'vector', 'Map')


class Type(object):
    """base name, template arguments, pointer or reference"""

    def __init__(self, name, args=(), ref='', const=False):
        self.name, self.args, self.ref, self.const = name, args, ref, const

    def key(self):
        return (self.name, tuple(a.key() if isinstance(a, Type) else a
                                 for a in self.args), self.ref, self.const)

    def __repr__(self):
        a = '<%s>' % ','.join(map(str, self.args)) if self.args else ''
        return '%s%s%s%s' % ('const ' if self.const else '', self.name, a,
                             self.ref)


class Method(object):

    def __init__(self, name, ret, params, const, body):
        self.name, self.ret, self.params = name, ret, params
        self.const, self.body = const, body

    def sig(self):
        return (self.name, tuple(t.key() for t, n in self.params),
                self.const)


class Parser(object):

    def __init__(self, text, types=()):
        self.t = tokens(text)
        self.p = 0
        self.types = set(types)

    def peek(self, k=0):
        return self.t[self.p + k][1] if self.p + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.p + k][0] if self.p + k < len(self.t) else None

    def next(self):
        if self.p >= len(self.t):
            raise Bad('unexpected end')
        self.p += 1
        return self.t[self.p - 1][1]

    def accept(self, *s):
        for k, x in enumerate(s):
            if self.peek(k) != x:
                return False
        self.p += len(s)
        return True

    def expect(self, s):
        if self.peek() != s:
            raise Bad('%r instead of %r after %r' % (
                self.peek(), s, ' '.join(x[1] for x in
                                         self.t[max(0, self.p - 6):self.p])))
        self.p += 1

    # ---------------------------------------------------------------- types
    def istype(self):
        k = 0
        while self.peek(k) in ('const', 'static', 'typedef', 'extern',
                               'std', '::', 'volatile', 'inline', 'virtual'):
            k += 1
        t = self.peek(k)
        if t in BASE or t == 'struct':
            return True
        if t in TEMPLATES:
            return self.peek(k + 1) == '<'
        return t in self.types and self.peek(k + 1) not in ('::', '(')

    def type(self):
        const = False
        while self.peek() in ('const', 'static', 'std', '::', 'extern',
                              'inline', 'virtual'):
            const |= self.next() == 'const'
        name = self.next()
        if name == 'unsigned':
            while self.peek() in ('int', 'long', 'char', 'short'):
                self.next()
        args = []
        if name in TEMPLATES and self.accept('<'):
            while not self.accept('>'):
                if self.istype():
                    args.append(self.type())
                else:
                    if self.kind() != 'num':
                        raise Unsupported('template argument')
                    args.append(int(self.next()))
                self.accept(',')
        while self.peek() == 'const':
            self.next()
            const = True
        ref = ''
        while self.peek() in ('&', '*'):
            ref += self.next()
        while self.peek() == 'const':
            self.next()
        return Type(name, tuple(args), ref, const)

    def params(self):
        out = []
        self.expect('(')
        while not self.accept(')'):
            if self.accept('void', ')'):
                break
            t = self.type()
            n = self.next() if self.kind() == 'id' else None
            out.append((t, n))
            if self.peek() != ')':
                self.expect(',')
        return out

    # ------------------------------------------------------------ structure
    def unit(self):
        """classes, functions and global declarations"""
        classes, methods, decls = {}, [], []
        while self.peek() is not None:
            if self.accept(';'):
                continue
            if self.accept('using'):
                while self.next() != ';':
                    pass
                continue
            if self.peek() == 'class' or self.peek() == 'struct':
                self.next()
                n = self.next()
                self.types.add(n)
                classes[n] = self.members(n)
                continue
            # definitions of members
            k = self.p
            if self.kind() == 'id' and self.peek(1) == '::' and \
                    not self.peek() == 'std':
                cls = self.next()
                self.next()
                tilde = self.accept('~')
                name = ('~' if tilde else '') + self.next()
                ret = None
            else:
                ret = self.type()
                cls = None
                name = self.next()
                if self.accept('::'):
                    cls = name
                    name = self.next()
            if self.peek() == '(':
                ps = self.params()
                const = self.accept('const')
                if self.accept(';'):
                    continue
                methods.append((cls, Method(name, ret, ps, const,
                                            self.block())))
                continue
            self.p = k
            decls.extend(self.decl())
        return classes, methods, decls

    def members(self, cls):
        self.expect('{')
        fields, methods = [], []
        while not self.accept('}'):
            if self.peek() in ('public', 'private', 'protected') and \
                    self.peek(1) == ':':
                self.p += 2
                continue
            if self.accept(';'):
                continue
            if self.peek() == '~' or self.peek() == cls and \
                    self.peek(1) == '(':
                name = ('~' if self.accept('~') else '') + self.next()
                ret = None
            else:
                k = self.p
                ret = self.type()
                name = self.next()
                if self.peek() != '(':
                    self.p = k
                    fields.extend(self.decl())
                    continue
            ps = self.params()
            const = self.accept('const')
            body = self.block() if self.peek() == '{' else None
            if body is None:
                self.expect(';')
            methods.append(Method(name, ret, ps, const, body))
        self.accept(';')
        return fields, methods

    # ----------------------------------------------------------- statements
    def block(self):
        self.expect('{')
        out = []
        while not self.accept('}'):
            out.append(self.stmt())
        return out

    def body(self):
        if self.peek() == '{':
            return self.block()
        return [self.stmt()]

    def decl(self):
        """declaration of variables, with the final semicolon"""
        static = self.peek() == 'static'
        t = self.type()
        out = []
        while True:
            n = self.next()
            dims = []
            while self.accept('['):
                dims.append(None if self.peek() == ']' else self.expr())
                self.expect(']')
            init = None
            if self.accept('='):
                init = self.initial()
            elif self.peek() == '(':
                self.next()
                a = []
                while not self.accept(')'):
                    a.append(self.expr())
                    if self.peek() != ')':
                        self.expect(',')
                init = ('new', t, a)
            elif self.peek() == '{':
                init = self.initial()
            out.append(('decl', t, n, dims, init, static))
            if self.accept(','):
                continue
            self.expect(';')
            return out

    def initial(self):
        if self.accept('{'):
            a = []
            while not self.accept('}'):
                a.append(self.initial())
                if self.peek() != '}':
                    self.expect(',')
            return ('list', a)
        return self.expr()

    def stmt(self):
        t = self.peek()
        if t == '{':
            return ('block', self.block())
        if self.accept(';'):
            return ('block', [])
        if t in ('if', 'while'):
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            b = self.body()
            if t == 'while':
                return ('while', c, b)
            e = self.body() if self.accept('else') else []
            return ('if', c, b, e)
        if t == 'for':
            self.next()
            self.expect('(')
            i = []
            if not self.accept(';'):
                if self.istype():
                    i = self.decl()
                else:
                    i = [('expr', self.expr())]
                    self.expect(';')
            c = None if self.peek() == ';' else self.expr()
            self.expect(';')
            s = None if self.peek() == ')' else self.expr()
            self.expect(')')
            return ('for', i, c, s, self.body())
        if t == 'return':
            self.next()
            e = None if self.peek() == ';' else self.expr()
            self.expect(';')
            return ('return', e)
        if t == 'try':
            self.next()
            b = self.block()
            while self.accept('catch'):
                self.expect('(')
                while self.next() != ')':
                    pass
                self.block()
            return ('block', b)
        if t in ('typedef', 'struct') and (
                t == 'struct' or self.peek(1) == 'struct'):
            self.accept('typedef')
            self.expect('struct')
            n = self.next()
            f, m = self.members(n)
            alias = n
            if t == 'typedef':
                alias = self.next()
                self.expect(';')
            self.types.update((n, alias))
            return ('struct', (n, alias), f)
        if t in ('break', 'continue', 'do', 'switch', 'goto', 'delete',
                 'throw'):
            raise Unsupported(t)
        if self.istype():
            return ('decls', self.decl())
        e = self.expr()
        self.expect(';')
        return ('expr', e)

    # ---------------------------------------------------------- expressions
    def expr(self):
        a = self.binary(0)
        if self.peek() in ('=', '+=', '-=', '*=', '/='):
            op = self.next()
            if self.peek() == '{':
                b = self.initial()
            else:
                b = self.expr()
            return ('assign', op, a, b)
        if self.accept('?'):
            b = self.expr()
            self.expect(':')
            return ('cond', a, b, self.expr())
        return a

    LEVELS = (('||',), ('&&',), ('|',), ('&',), ('==', '!='),
              ('<', '>', '<=', '>='), ('<<',), ('+', '-'), ('*', '/', '%'))

    def binary(self, k):
        if k == len(self.LEVELS):
            return self.unary()
        a = self.binary(k + 1)
        while self.peek() in self.LEVELS[k] and self.kind() == 'op':
            op = self.next()
            a = ('bin', op, a, self.binary(k + 1))
        return a

    def unary(self):
        t = self.peek()
        if self.kind() == 'op' and t in ('-', '+', '*', '&', '!'):
            self.next()
            return ('un', t, self.unary())
        if self.kind() == 'op' and t in ('++', '--'):
            self.next()
            return ('assign', t[0] + '=', self.unary(), ('num', '1'))
        if t == '(':
            k = self.p
            self.next()
            if self.istype():
                ty = self.type()
                if self.accept(')'):
                    return ('cast', ty, self.unary())
            self.p = k
        return self.postfix()

    def postfix(self):
        t = self.peek()
        if self.accept('('):
            a = self.expr()
            self.expect(')')
        elif self.kind() == 'num':
            a = ('num', self.next())
        elif self.kind() == 'str':
            a = ('str', self.next())
        elif self.istype():
            ty = self.type()
            if self.peek() == '{':
                a = ('new', ty, [self.initial()])
            else:
                self.expect('(')
                v = []
                while not self.accept(')'):
                    v.append(self.expr())
                    if self.peek() != ')':
                        self.expect(',')
                a = ('new', ty, v)
        elif self.kind() == 'id':
            self.next()
            while t == 'std' and self.accept('::'):
                t = self.next()
            if self.peek() == '::':
                raise Unsupported('scope %s::' % t)
            a = ('name', t)
        else:
            raise Bad('unexpected %r' % t)
        while True:
            if self.accept('('):
                v = []
                while not self.accept(')'):
                    v.append(self.expr())
                    if self.peek() != ')':
                        self.expect(',')
                a = ('call', a, v)
            elif self.accept('['):
                i = self.expr()
                self.expect(']')
                a = ('index', a, i)
            elif self.accept('.'):
                a = ('member', a, self.next())
            elif self.accept('->'):
                a = ('member', ('un', '*', a), self.next())
            elif self.peek() in ('++', '--'):
                a = ('assign', self.next()[0] + '=', a, ('num', '1'))
            else:
                return a


# --------------------------------------------------------------- evaluation

class Mat(object):

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d


class Vec(object):

    def __init__(self, d):
        self.d = d


class Cell(object):

    def __init__(self, v=None):
        self.v = v


class Ptr(object):
    """the k-th entry of a list of values"""

    def __init__(self, d, k):
        self.d, self.k = d, k


class Obj(object):
    """instance of a class"""

    def __init__(self, cls):
        self.cls = cls
        self.fields = {}


class Return(Exception):

    def __init__(self, v):
        self.v = v


class Numbers(object):
    """opaque applications, shared by the two evaluations which are compared
    """

    def __init__(self):
        self.table = {}
        self.fresh = 0

    def app(self, name, args, n=1):
        k = (name, tuple(args))
        if k not in self.table:
            i = len(self.table)
            self.table[k] = [sym('A%d.%d' % (i, j), 'num')
                             for j in range(n)]
        return self.table[k]

    def unset(self):
        self.fresh += 1
        return sym('UNSET%d' % self.fresh, 'num')

    def inv(self, a):
        if a.r != a.c:
            raise Bad('inverse of a %dx%d matrix' % (a.r, a.c))
        return Mat(a.r, a.c, list(self.app('inv%d' % a.r, a.d, a.r * a.c)))

    def sqrt(self, x):
        if tm.isc(x) and x.args[0] in (0, 1):
            return x
        return self.app('sqrt', [x])[0]

    def mul(self, a, b):
        if a.c != b.r:
            raise Bad('product of %dx%d and %dx%d' % (a.r, a.c, b.r, b.c))
        return Mat(a.r, b.c, [
            add(*[tm.mul(a.d[i * a.c + k], b.d[k * b.c + j])
                  for k in range(a.c)])
            for i in range(a.r) for j in range(b.c)])

    def div(self, a, b):
        if tm.isc(a) and tm.isc(b) and b.args[0] != 0:
            x, y = a.args[0], b.args[0]
            return number(x / float(y))
        return tm.mul(a, tm.power(b, C(-1)))


def add(*v):
    if not v:
        return C(0)
    x = v[0]
    for y in v[1:]:
        x = tm.add(x, y)
    return x


def number(x):
    x = float(x)
    return C(int(x)) if x == int(x) else C(x)


CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b,
       '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


class Machine(object):
    """evaluation of methods"""

    def __init__(self, num, holes):
        self.num = num
        self.holes = holes      # holes(k, read) -> value of the expression
        self.classes = {}
        self.globals = {}
        self.statics = {}
        self.choose = None      # decision of the undetermined conditions
        self.steps = 0
        self.extern = {}

    def load(self, *texts, types=()):
        defs = []
        types = list(types)
        for text in texts:
            p = Parser(text, types)
            cl, me, de = p.unit()
            types.extend(cl)
            for n, (f, m) in cl.items():
                if n in self.classes:
                    raise Bad('class %s defined twice' % n)
                t = {}
                for x in m:
                    if x.body is not None:
                        t.setdefault(x.name, []).append(x)
                self.classes[n] = (f, t, m)
            defs.extend(me)
            for d in de:
                self.globals[d[2]] = self.declare(d, None)
        for cls, m in defs:
            if cls is None:
                self.globals[m.name] = m
                continue
            if cls not in self.classes:
                raise Bad('%s::%s: no such class' % (cls, m.name))
            f, t, decl = self.classes[cls]
            same = [d for d in decl if d.sig() == m.sig()]
            if not same:
                raise Bad('%s::%s%s is not declared so' % (
                    cls, m.name, sigtext(m)))
            a, b = same[0].ret, m.ret
            if (a.key() if a else None) != (b.key() if b else None):
                raise Bad('%s::%s returns %s, declared %s' % (
                    cls, m.name, b, a))
            if any(x.sig() == m.sig() for x in t.get(m.name, ())):
                raise Bad('%s::%s defined twice' % (cls, m.name))
            t.setdefault(m.name, []).append(m)
        for n, (f, t, decl) in self.classes.items():
            seen = set()
            for d in decl:
                if d.sig() in seen:
                    raise Bad('%s::%s declared twice' % (n, d.name))
                seen.add(d.sig())
            names = [d[2] for d in f]
            for x in names:
                if names.count(x) > 1:
                    raise Bad('%s::%s declared twice' % (n, x))

    # -------------------------------------------------------------- objects
    def new(self, cls):
        fields, methods, decl = self.classes[cls]
        o = Obj(cls)
        for d in fields:
            o.fields[d[2]] = self.declare(d, o)
        if any(d.name == cls for d in decl):
            self.call(o, cls, [])
        return o

    def missing(self, cls):
        """methods declared and never defined"""
        f, t, decl = self.classes[cls]
        have = set(m.sig() for x in t.values() for m in x)
        return [d for d in decl if d.body is None and d.sig() not in have]

    def declare(self, d, o, env=None):
        _, t, n, dims, init, static = d
        if dims:
            v = self.initval(init, o, env) if init is not None else None
            shape = [None if x is None else self.int(self.ev(x, o, env))
                     for x in dims]
            if v is None:
                if None in shape:
                    raise Bad('array %s has no size' % n)

                def fresh(s):
                    return [self.num.unset() if len(s) == 1 else fresh(s[1:])
                            for k in range(s[0])]
                return fresh(shape)

            def fit(v, s, top=True):
                if not isinstance(v, list):
                    raise Bad('array %s: initialiser' % n)
                k = s[0] if s[0] is not None else len(v)
                if len(v) > k:
                    raise Bad('array %s: %d values for %d' % (n, len(v), k))
                if len(s) > 1:
                    return [fit(x, s[1:], False) for x in v] + [
                        fit([], s[1:], False) for x in range(k - len(v))]
                return [self.scalar(x, n) for x in v] + [C(0)] * (k - len(v))
            return fit(v, shape)
        if t.ref == '*':
            if init is None:
                return Cell(None)
            v = self.ev(init, o, env)
            if not isinstance(v, Ptr):
                raise Bad('pointer %s' % n)
            return Cell(v)
        if t.ref == '&':
            return self.ev(init, o, env)
        v = None if init is None else self.initval(init, o, env)
        return self.make(t, v, n)

    def make(self, t, v, n):
        """new variable of type t, value v"""
        if t.name == 'Matrix':
            r, c = t.args[1:3]
            if v is None:
                return Mat(r, c, [self.num.unset() for k in range(r * c)])
            if not isinstance(v, Mat):
                raise Bad('matrix %s: initial value' % n)
            if (v.r, v.c) != (r, c):
                raise Bad('%dx%d matrix for the %dx%d matrix %s' % (
                    v.r, v.c, r, c, n))
            return Mat(r, c, list(v.d))
        if t.name == 'vector':
            if v is None:
                return Vec([])
            if isinstance(v, list):
                return Vec([self.scalar(x, n) for x in v])
            if isinstance(v, Vec):
                return Vec(list(v.d))
            raise Bad('vector %s: initial value' % n)
        if t.name in BASE:
            if v is None:
                return Cell(self.num.unset())
            return Cell(self.scalar(v, n, t.name))
        if t.name in self.classes:
            return self.new(t.name)
        if t.name in self.extern:
            return v if isinstance(v, Obj) else self.extern[t.name]()
        raise Unsupported('type %s' % t.name)

    def scalar(self, v, n='', name='double'):
        v = self.value(v)
        if isinstance(v, (Mat, Vec, list, Ptr, Obj)) or v is None:
            raise Bad('%s is not a number' % (n or 'the value'))
        if name == 'float':
            if tm.isc(v):
                import struct
                x = struct.unpack('f', struct.pack('f', v.args[0]))[0]
                return number(x)
            return self.num.app('float', [v])[0]
        if name in ('int', 'unsigned', 'long') and tm.isc(v):
            return C(int(v.args[0]))
        return v

    def value(self, v):
        if isinstance(v, Cell):
            return v.v
        return v

    def int(self, v):
        v = self.value(v)
        if isinstance(v, bool) or not hasattr(v, 'op') or not tm.isc(v) or \
                int(v.args[0]) != v.args[0]:
            raise Unsupported('index')
        return int(v.args[0])

    def initval(self, e, o, env):
        if e[0] == 'list':
            return [self.initval(x, o, env) for x in e[1]]
        v = self.ev(e, o, env)
        return self.value(v)

    # ---------------------------------------------------------------- calls
    def fits(self, t, v):
        v = self.value(v)
        if t.name == 'Matrix':
            return isinstance(v, Mat) and (v.r, v.c) == tuple(t.args[1:3])
        if t.name == 'vector':
            return isinstance(v, Vec)
        if t.name in BASE:
            return not isinstance(v, (Mat, Vec, list, Ptr, Obj))
        return isinstance(v, Obj) and v.cls == t.name

    def call(self, o, name, args):
        fields, methods, decl = self.classes[o.cls]
        cand = [m for m in methods.get(name, ())
                if len(m.params) == len(args) and
                all(self.fits(t, a) for (t, n), a in zip(m.params, args))]
        if not cand:
            shapes = [(v.r, v.c) if isinstance(v, Mat) else type(v).__name__
                      for v in map(self.value, args)]
            raise Bad('no %s::%s for %s' % (o.cls, name, shapes))
        m = cand[0]
        env = {}
        for (t, n), a in zip(m.params, args):
            if t.ref == '&' and not (t.name in BASE):
                env[n] = self.value(a)
            else:
                env[n] = a if t.ref == '&' and isinstance(a, Cell) else \
                    self.make(Type(t.name, t.args), self.value(a), n)
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many calls')
        env[' key'] = (o.cls, m.sig())
        try:
            self.run(m.body, o, env)
        except Return as e:
            v = e.v
            if m.ret is None or m.ret.name == 'void':
                if v is not None:
                    raise Bad('%s returns a value' % name)
                return None
            if v is None or not self.fits(m.ret, v):
                raise Bad('%s::%s does not return a %s' % (o.cls, name,
                                                         m.ret))
            return v if m.ret.ref == '&' else self.make(
                Type(m.ret.name, m.ret.args), self.value(v), name)
        if m.ret is not None and m.ret.name != 'void':
            raise Bad('%s::%s returns nothing' % (o.cls, name))

    def run(self, body, o, env):
        for s in body:
            self.exec(s, o, env)

    def exec(self, s, o, env):
        k = s[0]
        if k == 'block':
            self.run(s[1], o, dict(env) if False else env)
        elif k == 'decls':
            for d in s[1]:
                if d[5]:
                    key = (env[' key'], d[2])
                    if key not in self.statics:
                        self.statics[key] = self.declare(d, o, env)
                    env[d[2]] = self.statics[key]
                else:
                    env[d[2]] = self.declare(d, o, env)
        elif k == 'expr':
            self.ev(s[1], o, env)
        elif k == 'struct':
            for n in s[1]:
                self.classes[n] = (s[2], {}, [])
        elif k == 'if':
            self.run(s[2] if self.truth(s[1], o, env) else s[3], o, env)
        elif k == 'while':
            while self.truth(s[1], o, env):
                self.run(s[2], o, env)
        elif k == 'for':
            for d in s[1]:
                self.exec(('decls', [d]) if d[0] == 'decl' else d, o, env)
            while s[2] is None or self.truth(s[2], o, env):
                self.run(s[4], o, env)
                if s[3] is not None:
                    self.ev(s[3], o, env)
        elif k == 'return':
            raise Return(None if s[1] is None else self.ev(s[1], o, env))
        else:
            raise Unsupported(k)

    def truth(self, e, o, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps')
        v = self.value(self.ev(e, o, env))
        v = self.conj(v)
        if v is True or v is False:
            return v
        if self.choose is None:
            raise Unsupported('undetermined condition')
        return self.choose(v)

    def conj(self, v):
        if isinstance(v, (bool, frozenset)):
            return v
        if hasattr(v, 'op') and tm.isc(v):
            return bool(v.args[0])
        raise Unsupported('condition')

    def ev(self, e, o, env):
        k = e[0]
        if k == 'num':
            t = e[1].rstrip('fFuUlL')
            return number(t)
        if k == 'str':
            return C(e[1])
        if k == 'name':
            return self.name(e[1], o, env)
        if k == 'bin' and e[1] == '<<':
            return None         # output
        if k == 'bin' and e[1] == '&&':
            a = self.conj(self.value(self.ev(e[2], o, env)))
            if a is False:
                return False
            return self.bin('&&', a, self.value(self.ev(e[3], o, env)),
                            False)
        if k == 'bin':
            a = self.value(self.ev(e[2], o, env))
            b = self.value(self.ev(e[3], o, env))
            isint = self.isint(e[2], o, env) and self.isint(e[3], o, env)
            return self.bin(e[1], a, b, isint)
        if k == 'un':
            return self.un(e[1], e[2], o, env)
        if k == 'assign':
            return self.assign(e[1], e[2], e[3], o, env)
        if k == 'call':
            return self.callexpr(e, o, env)
        if k == 'index':
            d, i = self.entry(e, o, env)
            if isinstance(d[i], list):
                return d[i]
            return Ref(d, i)
        if k == 'member':
            a = self.value(self.ev(e[1], o, env))
            if isinstance(a, Obj):
                if e[2] in a.fields:
                    return a.fields[e[2]]
                raise Bad('%s has no member %s' % (a.cls, e[2]))
            raise Unsupported('member %s' % e[2])
        if k == 'new':
            return self.build(e[1], e[2], o, env)
        if k == 'cast':
            v = self.ev(e[2], o, env)
            t = e[1]
            if t.name == 'Matrix' and t.ref == '&' and isinstance(v, list):
                r, c = t.args[1:3]
                if len(v) < r * c:
                    raise Bad('%d values read as a %dx%d matrix' % (
                        len(v), r, c))
                return Mat(r, c, [v[j * r + i] for i in range(r)
                                  for j in range(c)])
            if t.ref or t.name not in BASE:
                raise Unsupported('cast')
            return self.scalar(v, '', t.name)
        if k == 'cond':
            return self.ev(e[2] if self.truth(e[1], o, env) else e[3], o,
                           env)
        raise Unsupported(k)

    def isint(self, e, o, env):
        return e[0] == 'num' and e[1].isdigit()

    def name(self, n, o, env):
        if env is not None and n in env:
            return env[n]
        if o is not None and n in o.fields:
            return o.fields[n]
        if n in self.globals:
            return self.globals[n]
        h = re.match(r'HOLE(\d+)X$', n)
        if h:
            def read(s):
                c = self.name(s, o, env)
                p = self.value(c)
                if not isinstance(p, Ptr):
                    raise Bad('*%s: not a pointer' % s)
                v = p.d[p.k]
                return v
            return self.holes(int(h.group(1)), read)
        raise Bad('%s is not declared' % n)

    def bin(self, op, a, b, isint):
        if op in ('&', '&&'):
            a, b = self.conj(a), self.conj(b)
            if a is False or b is False:
                return False
            if a is True:
                return b
            if b is True:
                return a
            return a | b
        if op in ('|', '||'):
            a, b = self.conj(a), self.conj(b)
            if a is True or b is True:
                return True
            if a is False:
                return b
            if b is False:
                return a
            raise Unsupported('disjunction')
        if op in CMP:
            if isinstance(a, (Mat, Vec)) or isinstance(b, (Mat, Vec)):
                raise Unsupported('comparison of matrices')
            if tm.isc(a) and tm.isc(b):
                return CMP[op](a.args[0], b.args[0])
            if op in ('<', '<='):
                op, a, b = {'<': '>', '<=': '>='}[op], b, a
            return frozenset([(op, a, b)])
        m, n = isinstance(a, Mat), isinstance(b, Mat)
        if isinstance(a, (Vec, list, Ptr, Obj)) or \
                isinstance(b, (Vec, list, Ptr, Obj)) or a is None or \
                b is None:
            raise Bad('operands of %s' % op)
        if op in ('+', '-'):
            if m != n:
                raise Bad('sum of a matrix and a number')
            if op == '-':
                b = self.bin('*', C(-1), b, False)
            if m:
                if (a.r, a.c) != (b.r, b.c):
                    raise Bad('sum of %dx%d and %dx%d' % (a.r, a.c, b.r,
                                                          b.c))
                return Mat(a.r, a.c, [tm.add(x, y)
                                      for x, y in zip(a.d, b.d)])
            return tm.add(a, b)
        if op == '*':
            if m and n:
                return self.num.mul(a, b)
            if n:
                a, b, m = b, a, True
            if m:
                return Mat(a.r, a.c, [tm.mul(x, b) for x in a.d])
            return tm.mul(a, b)
        if op == '/':
            if n:
                raise Bad('division by a matrix')
            if m:
                return Mat(a.r, a.c, [self.num.div(x, b) for x in a.d])
            if isint:
                raise Unsupported('integer division')
            return self.num.div(a, b)
        if op == '%' and not m and not n:
            return self.num.app('mod', [a, b])[0]
        raise Unsupported(op)

    def un(self, op, e, o, env):
        if op == '&':
            if e[0] == 'index':
                d, i = self.entry(e, o, env)
                return Ptr(d, i)
            v = self.ev(e, o, env)
            if isinstance(v, Ref):
                return Ptr(v.d, v.k)
            if isinstance(v, Cell):
                return Ptr(CellList(v), 0)
            return v
        v = self.ev(e, o, env)
        if op == '*':
            p = self.value(v)
            if not isinstance(p, Ptr):
                raise Bad('* of no pointer')
            return Ref(p.d, p.k)
        v = self.value(v)
        if op == '-':
            return self.bin('*', C(-1), v, False)
        if op == '+':
            return v
        if op == '!':
            v = self.conj(v)
            if isinstance(v, bool):
                return not v
        raise Unsupported(op)

    def entry(self, e, o, env):
        a = self.value(self.ev(e[1], o, env))
        i = self.int(self.ev(e[2], o, env))
        d = a.d if isinstance(a, Vec) else a
        if isinstance(a, Mat):
            if a.c != 1:
                raise Unsupported('[] of a matrix')
            d = a.d
        if not isinstance(d, list):
            raise Bad('[] of no array')
        if not 0 <= i < len(d):
            raise Bad('index %d of %d values' % (i, len(d)))
        return d, i

    def assign(self, op, l, r, o, env):
        t = self.ev(l, o, env)
        v = self.initval(r, o, env)
        if op != '=':
            v = self.bin(op[0], self.value(t), v, False)
        if isinstance(t, Mat):
            if not isinstance(v, Mat):
                raise Bad('a number assigned to a matrix')
            if (v.r, v.c) != (t.r, t.c):
                raise Bad('%dx%d assigned to %dx%d' % (v.r, v.c, t.r, t.c))
            t.d[:] = list(v.d)
        elif isinstance(t, Vec):
            if not isinstance(v, (Vec, list)):
                raise Bad('assignment to a vector')
            t.d[:] = list(v.d if isinstance(v, Vec) else v)
        elif isinstance(t, Cell):
            if isinstance(v, Ptr):
                t.v = v
            else:
                t.v = self.scalar(v, str(l))
        elif isinstance(t, Obj) and isinstance(v, Obj) and t.cls == v.cls:
            t.fields = v.fields
        else:
            raise Bad('assignment to no variable')
        return t

    def callexpr(self, e, o, env):
        f, args = e[1], e[2]
        if f[0] == 'member':
            a = self.value(self.ev(f[1], o, env))
            if isinstance(a, Mat):
                v = [self.value(self.ev(x, o, env)) for x in args]
                if f[2] == 'inverse' and not v:
                    return self.num.inv(a)
                if f[2] == 'dot' and len(v) == 1 and isinstance(v[0], Mat):
                    b = v[0]
                    if a.c != 1 or b.c != 1 or a.r != b.r:
                        raise Bad('dot of %dx%d and %dx%d' % (
                            a.r, a.c, b.r, b.c))
                    return add(*[tm.mul(x, y) for x, y in zip(a.d, b.d)])
                if f[2] == 'transpose' and not v:
                    return Mat(a.c, a.r, [a.d[i * a.c + j]
                                          for j in range(a.c)
                                          for i in range(a.r)])
                raise Unsupported('matrix method %s' % f[2])
            if isinstance(a, Obj):
                if a.cls not in self.classes:
                    return a.method(f[2], [self.ev(x, o, env) for x in args])
                return self.call(a, f[2], [self.ev(x, o, env)
                                           for x in args])
            raise Unsupported('method %s' % f[2])
        if f[0] == 'name':
            n = f[1]
            v = None
            if env is not None and n in env or o is not None and \
                    n in o.fields:
                v = self.value(self.name(n, o, env))
            if isinstance(v, Mat):
                i = [self.int(self.ev(x, o, env)) for x in args]
                if len(i) == 1 and v.c == 1:
                    i = [i[0], 0]
                if len(i) != 2:
                    raise Bad('%d indices' % len(i))
                if not (0 <= i[0] < v.r and 0 <= i[1] < v.c):
                    raise Bad('entry (%d, %d) of the %dx%d matrix %s' % (
                        i[0], i[1], v.r, v.c, n))
                return Ref(v.d, i[0] * v.c + i[1])
            if v is not None:
                raise Bad('call of %s' % n)
            a = [self.ev(x, o, env) for x in args]
            if o is not None and any(m.name == n for m in
                                     self.classes[o.cls][2]):
                return self.call(o, n, a)
            if n == 'sqrt' and len(a) == 1:
                return self.num.sqrt(self.scalar(a[0]))
            if n in self.extern:
                return self.extern[n](*a)
            if n in self.globals:
                raise Unsupported('function %s' % n)
            if n in ('pow', 'floor', 'exp', 'log', 'fabs', 'abs', 'sin', 'cos',
                     'tanh', 'max', 'min'):
                return self.num.app(n, [self.scalar(x) for x in a])[0]
            raise Bad('%s is not declared' % n)
        raise Unsupported('call')

    def build(self, t, args, o, env):
        if t.name in BASE:
            if len(args) != 1:
                raise Unsupported('conversion')
            return self.scalar(self.ev(args[0], o, env), '', t.name)
        if t.name == 'vector':
            if len(args) == 1 and args[0][0] == 'list':
                return Vec([self.scalar(x) for x in
                            self.initval(args[0], o, env)])
            n = self.int(self.ev(args[0], o, env)) if args else 0
            f = self.scalar(self.ev(args[1], o, env)) if len(args) > 1 \
                else C(0)
            return Vec([f] * n)
        if t.name == 'Map':
            if len(args) != 1 or not isinstance(t.args[0], Type) or \
                    t.args[0].name != 'Matrix':
                raise Unsupported('Map')
            r, c = t.args[0].args[1:3]
            d = self.value(self.ev(args[0], o, env))
            if not isinstance(d, list):
                raise Bad('Map of no array')
            if len(d) < r * c:
                raise Bad('%d values for a %dx%d matrix' % (len(d), r, c))
            return Mat(r, c, [d[j * r + i] for i in range(r)
                              for j in range(c)])
        if t.name == 'Matrix' and not args:
            return self.make(t, None, '')
        raise Unsupported('construction of %s' % t.name)


class Ref(Cell):
    """entry of a list, as a variable"""

    def __init__(self, d, k):
        self.d, self.k = d, k

    v = property(lambda self: self.d[self.k],
                 lambda self, x: self.d.__setitem__(self.k, x))


class CellList(object):
    """a variable seen as a list of one value"""

    def __init__(self, c):
        self.c = c

    def __getitem__(self, k):
        return self.c.v

    def __setitem__(self, k, x):
        self.c.v = x


def sigtext(m):
    return '(%s)%s' % (', '.join(map(repr, [t for t, n in m.params])),
                       ' const' if m.const else '')
