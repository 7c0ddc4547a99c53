"""Reference definitions: substitution and simplification over a core."""
from pyphs.core.tools._simplify import timeout_simplify
from pyphs.core.tools._subsinverse import subsinverse_scalar

LISTS = ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z', '_dxH', 'bl')
MATS = ('M', 'Q', 'Zl')


def every(core, f):
    """f applied to every expression and symbol the core holds"""
    core.H = f(core.H)
    for a in LISTS:
        v = getattr(core, a)
        if v is not None:
            setattr(core, a, [f(e) for e in v])
    for a in MATS:
        setattr(core, a, getattr(core, a).applyfunc(f))
    core.observers = {k: f(core.observers[k]) for k in core.observers}


def plain(core, subs):
    every(core, lambda e: e.subs(subs))
    core.subs = {k: core.subs[k] if isinstance(core.subs[k], (int, float))
                 else core.subs[k].subs(subs) for k in core.subs
                 if k not in subs}


def substitute(core, subs, selfall, selfexprs, simplify):
    """the given substitutions, with those of the core that are expressions
    (selfexprs) or all of them, expressions first (selfall)"""
    todo = {}
    if subs is not None:
        todo.update(subs)
    if selfall:
        plain(core, exprs(core))
        todo.update(core.subs)
    elif selfexprs:
        todo.update(exprs(core))
    plain(core, todo)
    if simplify:
        simplify_core(core)


def exprs(core):
    return {k: core.subs[k] for k in core.subs
            if not isinstance(core.subs[k], (int, float))}


def simplify_core(core):
    every(core, timeout_simplify)


def subsinverse_core(core):
    every(core, lambda e: subsinverse_scalar(e, core.subs, core.symbols))
