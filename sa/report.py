"""Obligations, verdicts, findings."""
import traceback
from .terms import T, walk, pp, Blowup, leaves, subterms_of
from . import models
from .interp import Abort
from .rig import Vanished

UNSAFE = {'fold', 'foldat', 'loop', 'raises', 'unbound', 'astunk', 'bottom',
          'undef', 'callable', 'getattr', 'isinst', 'hasattr', 'minlen',
          'sdel', 'sins', 'ddel', 'first', 'lastidx', 'popped', 'store',
          'mstorex', 'mperm', 'truth', 'order', 'gval', 'index', 'count',
          'flat', 'new', 'glob', 'mel1', 'which', 'matrc', 'any', 'tripcount',
          'keys', 'setdifference', 'setintersection', 'rest', 'sorted',
          'objdict', 'partial', 'obj', 'fn', 'bound', 'noattr', 'mdel',
          'mins', 'mswap', 'kw', 'star', 'unInvert'}


def heads(t):
    """operators and call heads occurring in t"""
    out = set()
    for u in walk(t):
        if u.op == 'call':
            h = u.args[0]
            if h.op == 'ext' or h.op == 'builtin':
                out.add('call:' + str(h.args[0]))
            elif h.op in ('meth', 'attr'):
                out.add('call:.' + str(h.args[1]))
            elif h.op == 'sym':
                out.add('call:' + str(h.args[0]))
            elif h.op == 'fn':
                out.add('call:' + str(h.args[0]))
            else:
                out.add('call:?')
        elif u.op in ('ext', 'fn') and False:
            pass
        else:
            out.add(u.op)
    return out


def foreign(got, want, vocab=()):
    """heads of got that the rule cannot interpret"""
    hw = set()
    for w in (want if isinstance(want, (list, tuple)) else [want]):
        hw |= heads(w)
    out = set()
    for h in heads(got) - hw - set(vocab):
        if h in UNSAFE or h.startswith('call:'):
            out.add(h)
    return out


class Report(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []             # (rule, construct, verdict, detail)
        self.visited = set()
        self.counts = {}
        self.vanished = []

    def add(self, rule, construct, verdict, detail=''):
        self.obs.append((rule, construct, verdict, detail))

    def holds(self, rule, construct, detail=''):
        self.add(rule, construct, 'holds', detail)

    def violated(self, rule, construct, detail=''):
        self.add(rule, construct, 'violated', detail)

    def undecided(self, rule, construct, detail=''):
        self.add(rule, construct, 'undecided', detail)

    def check(self, rule, construct, ok, detail=''):
        self.add(rule, construct, 'holds' if ok else 'violated',
                 '' if ok else detail)
        return ok

    def same(self, rule, construct, got, want, vocab=(), domain=()):
        """got and want are terms; several acceptable wants may be given"""
        wants = want if isinstance(want, (list, tuple)) else [want]
        if any(got is w for w in wants):
            self.holds(rule, construct)
            return True
        res = models.refute(got, wants[0], domain)
        f = foreign(got, wants, vocab)
        if res[0] == 'agree':
            self.undecided(rule, construct, 'normal forms differ, but agree '
                           'in %d models: %s ; %s' % (
                               res[1], pp(got, 25)[:1500], pp(wants[0], 25)
                               [:1500]))
            return None
        if res[0] == 'novalid':
            self.undecided(rule, construct, 'no model: %s' % res[1])
            return None
        if res[0] == 'differ':
            f = f - models.INTERP
            for w in wants[1:]:
                if f:
                    break
                r2 = models.refute(got, w, domain)
                if r2[0] != 'differ':
                    self.undecided(rule, construct, 'alternative: %s' %
                                   (r2[0],))
                    return None
            if not f:
                self.violated(rule, construct, 'derived %s ; required %s ; '
                              'model %d: %s instead of %s' % (
                                  pp(got, 9)[:700], pp(wants[0], 9)[:700],
                                  res[1].seed, repr(res[2])[:150],
                                  repr(res[3])[:150]))
                return False
        if f:
            self.undecided(rule, construct, 'not interpreted: %s' %
                           ', '.join(sorted(f)))
            return None
        self.violated(rule, construct, 'derived %s ; required %s' % (
            pp(got, 9)[:700], pp(wants[0], 9)[:700]))
        return False

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def guard(self, rule, construct, f, *a, **k):
        """run an obligation; an analysis failure is 'undecided'"""
        try:
            return f(*a, **k)
        except Vanished as e:
            self.vanished.append('%s: %s' % (rule, e))
        except (Abort, Blowup, RecursionError) as e:
            self.undecided(rule, construct, 'analysis gave up: %s' % (e,))
        except Exception as e:        # a shape the rule does not know
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(rule, construct, 'analysis error: %s %s (%s:%d)' %
                           (type(e).__name__, e, tb.filename, tb.lineno))
        return None
