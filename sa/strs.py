"""Texts with opaque parts: a name or the printed form of a number that is not
known is a private character inside a string constant. An opaque name is an
identifier, distinct from every literal text; an opaque number prints as a
literal that evaluates to it. Operations that depend on the characters of an
opaque part are not followed."""
import ast
import re
from fractions import Fraction
from . import terms as tm
from .terms import C, mk

BASE = 0xE000
DEPENDS = ('lower', 'upper', 'isdigit', 'isalpha', 'isspace', 'isalnum',
           'swapcase', 'capitalize', 'title', 'zfill', 'center', 'ljust',
           'rjust', 'index', 'find', 'rfind')
HOLE = re.compile('[\ue000-\uf8ff]')


def opaque(s):
    return bool(HOLE.search(s))


class Texts(object):

    def __init__(self):
        self.numbers = {}
        self.n = 0

    def name(self):
        """an arbitrary identifier"""
        self.n += 1
        return chr(BASE + self.n)

    def number(self, t):
        """printed form of a number"""
        for c, u in self.numbers.items():
            if u is t:
                return c
        c = self.name()
        self.numbers[c] = t
        return c

    # ------------------------------------------------------------- printing

    def show(self, m, st, v, rep=False, spec=''):
        """str(v) or repr(v) as a python string, None when not known"""
        d = m.deref(st, v)
        if spec:
            if tm.isc(d) and not opaque(str(d.args[0])):
                a = d.args[0]
                try:
                    return format(float(a) if isinstance(a, Fraction) else a,
                                  spec)
                except (ValueError, TypeError):
                    return None
            if tm.isc(d) or tm.isname(d) or tm.kind(d) != 'num' or \
                    not re.match(r'^[.\d]*[gefd]$', spec):
                return None
            # the number that is printed with some digits is another one
            return self.number(mk('call', mk('ext', 'printed:' + spec), d))
        if tm.isc(d):
            a = d.args[0]
            if isinstance(a, str):
                if not rep:
                    return a
                if "'" in a or '\\' in a or '\n' in a:
                    return repr(a)
                return "'%s'" % a
            if isinstance(a, bool) or a is None:
                return str(a)
            if isinstance(a, Fraction):
                return repr(float(a))
            return repr(a)
        if d is tm.NONE:
            return 'None'
        if d.op == 'seq' and all(g.op == 'it' for g in d.args):
            parts = [self.show(m, st, g.args[0], True) for g in d.args]
            if None in parts:
                return None
            if v.op == 'seq':
                return '(%s%s)' % (', '.join(parts),
                                   ',' if len(parts) == 1 else '')
            return '[%s]' % ', '.join(parts)
        if tm.isname(d):
            return None
        if tm.kind(d) == 'num':
            return self.number(d)
        return None

    # ----------------------------------------------------------- evaluation

    def back(self, s):
        return C(re.sub(r'Qx(\d+)xQ', lambda q: chr(int(q.group(1))), s))

    def evaluate(self, m, st, text, names=False):
        """value of a text of literals: a term, an exception name or None"""
        table = {}

        def put(q):
            c = q.group()
            if c in self.numbers:
                k = 7.25e77 + len(table) * 1e70
                table[k] = self.numbers[c]
                return repr(k)
            return 'Qx%dxQ' % ord(c)
        bad = [c for c in self.numbers if re.search(
            r'[\w.]%s|%s[\w.]' % (c, c), text)]
        if bad:
            return None
        src = HOLE.sub(put, text)
        try:
            tree = ast.parse(src.lstrip(' \t') if not names else
                             src.strip(' \t'), mode='eval').body
        except (SyntaxError, ValueError):
            return 'SyntaxError'
        seen = set()

        def ev(n):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, str):
                    return self.back(v)
                if isinstance(v, float):
                    if v in table:
                        seen.add(v)
                        return table[v]
                    return C(Fraction(repr(v)))
                if v is None:
                    return tm.NONE
                if isinstance(v, (bool, int)):
                    return C(v)
                return None
            if isinstance(n, (ast.Tuple, ast.List)):
                parts = [ev(x) for x in n.elts]
                for p in parts:
                    if p is None or isinstance(p, str):
                        return p
                s = tm.seq(*[tm.it(p) for p in parts])
                return m.alloc(st, s) if isinstance(n, ast.List) else s
            if isinstance(n, ast.UnaryOp) and isinstance(
                    n.op, (ast.USub, ast.UAdd)):
                v = ev(n.operand)
                if isinstance(v, tm.T) and tm.kind(v) == 'num':
                    return tm.neg(v) if isinstance(n.op, ast.USub) else v
                return None if isinstance(v, tm.T) else v
            if isinstance(n, ast.Dict):
                parts = [(ev(k) if k is not None else None, ev(v))
                         for k, v in zip(n.keys, n.values)]
                for p in parts:
                    for q in p:
                        if q is None or isinstance(q, str):
                            return q
                return m.alloc(st, tm.mkdict(*[tm.pair(*p) for p in parts]))
            if names and isinstance(n, ast.BinOp):
                a, b = ev(n.left), ev(n.right)
                for q in (a, b):
                    if q is None or isinstance(q, str):
                        return q
                f = {ast.Add: tm.add, ast.Mult: tm.mul, ast.Sub: tm.sub,
                     ast.Div: tm.div, ast.Pow: tm.power}.get(type(n.op))
                return f(a, b) if f else None
            if isinstance(n, ast.Name) and names:
                return 'NameError' if 'Qx' in n.id else None
            return 'ValueError' if not names else None
        r = ev(tree)
        if isinstance(r, tm.T) and len(seen) != len(table):
            # some number became part of a text: its printed form is there
            return None
        return r
