"""Synthesised signals and sound files. signalgenerator returns the silence
before, every cycle and the silence after, each of the asked duration: a cycle
is the asked waveform during the asked part of the cycle, with the asked
amplitude, frequencies, envelope, ramp and offset, then silence; the given
options are not modified and an unknown waveform is refused. wavwrite writes
every sample of the signal once and in order, faded, resampled and normalised
as asked, at the asked sample rate; wavread gives back the samples and the rate
of the file. transferFunction returns the square root of the ratio of the
spectra of the output and of the input at the frequencies of the asked band.

Decided on signals of literal lengths and arbitrary values, amplitudes and
frequencies; numpy, scipy and wave are modelled."""
from fractions import Fraction
from . import common as cm
from .common import litlist
from . import c17
from .. import terms as tm, nd, strs
from ..interp import Raised
from ..rig import Rig
from ..terms import mk, C, sym

FLOOR = 300
F = 'pyphs/misc/signals/'
GEN = 'pyphs.misc.signals.synthesis.synthesis_array.signalgenerator'
WAVES = 'pyphs.misc.signals.waves.'
ANALYSIS = 'pyphs.misc.signals.analysis.'
PI = sym('pi', 'num')
Q = Fraction


def add(a, *b):
    for x in b:
        a = tm.add(a, x)
    return a


def mul(a, *b):
    for x in b:
        a = tm.mul(a, x)
    return a


def fun(name, *a):
    return mk('call', sym(name, 'fn'), *a)


def num(x):
    return x if isinstance(x, tm.T) else C(x)


def sin(x):
    n = tm.neg(x)
    if x is tm.ZERO:
        return x
    return tm.neg(fun('sin', n)) if tm.pp(n) < tm.pp(x) else fun('sin', x)


def cos(x):
    return tm.ONE if x is tm.ZERO else sin(add(x, tm.div(PI, C(2))))


def sinc(x):
    return tm.ONE if x is tm.ZERO else tm.div(sin(mul(PI, x)),
                                              mul(PI, x))


def noise(a, b):
    if a is tm.ZERO and b is tm.ZERO:
        return tm.ZERO
    return fun('noise', a, b)


OFF = C(Q(7, 3))
A, A1, F0, F1, NOISE, PHI, GAIN = FLOATS = [sym(n, 'num') for n in (
    'A', 'A1', 'f0', 'f1', 'bkgrd_noise', 'phi', 'gain')]


def rig():
    r = Rig()
    m = r.m
    nd.use(m)
    m.reclimit = 12
    m.budget = 10 ** 8
    m.strs = strs.Texts()
    for x in FLOATS:
        m.strs.number(x)
    e = m.extmodels

    def each(f):
        def g(mm, st, args, kw):
            if len(args) != 1 or kw:
                return None
            t = mm.snapshot(st, args[0])
            if t.op not in ('nd', 'seq'):
                return f(t)
            a = nd.nested(t)
            return None if a is None else mm.alloc(
                st, nd.nd(nd.shape(a), [f(x) for x in nd.elems(a)]))
        return g
    for n, f in (('sin', sin), ('cos', cos), ('sinc', sinc),
                 ('sqrt', lambda x: tm.power(x, C(Q(1, 2)))),
                 ('float64', lambda x: x), ('int', trunc)):
        e['numpy.' + n] = each(f)
    e['numpy.abs'] = e['numpy.absolute'] = each(absolute)
    e['math.sin'], e['math.cos'] = e['numpy.sin'], e['numpy.cos']
    for n in ('numpy.pi', 'math.pi'):
        m.alias[n] = PI

    def like(v):
        def g(mm, st, args, kw):
            t = mm.snapshot(st, args[0])
            a = nd.nested(t)
            if a is None:
                return v if tm.kind(t) == 'num' else None
            return mm.alloc(st, nd.nd(nd.shape(a), [v] * nd.size(
                nd.shape(a))))
        return g
    e['numpy.ones_like'], e['numpy.zeros_like'] = like(tm.ONE), like(tm.ZERO)

    def full(mm, st, args, kw):
        s = nd._shape(mm, st, args[0])
        return None if s is None else mm.alloc(
            st, nd.nd(s, [mm.snapshot(st, args[1])] * nd.size(s)))
    e['numpy.full'] = full

    def linspace(mm, st, args, kw):
        v = [mm.snapshot(st, x) for x in args]
        if len(v) != 3 or kw or not tm.isnum(v[2]):
            return None
        n = int(v[2].args[0])
        h = C(0) if n < 2 else tm.div(tm.sub(v[1], v[0]), C(n - 1))
        return mm.alloc(st, nd.nd((n,), [add(v[0], mul(C(k), h))
                                         for k in range(n)]))
    e['numpy.linspace'] = linspace

    def vstack(mm, st, args, kw):
        t = mm.snapshot(st, args[0])
        a = [nd.nested(g.args[0]) for g in t.args] if t.op == 'seq' else [None]
        if any(x is None or len(nd.shape(x)) != 1 for x in a) or \
                len({nd.shape(x) for x in a}) != 1:
            return None
        return mm.alloc(st, nd.nd((len(a),) + tuple(nd.shape(a[0])),
                                  [y for x in a for y in nd.elems(x)]))
    e['numpy.vstack'] = vstack

    def extremum(f, name):
        def g(mm, st, args, kw):
            t = mm.snapshot(st, args[0])
            a = nd.nested(t)
            ax = kw.get('axis', args[1] if len(args) > 1 else tm.NONE)
            if a is None:
                return None
            es = nd.elems(a)
            if ax is tm.NONE:
                if not es:
                    return None
                if all(tm.isnum(x) for x in es):
                    return f(es, key=lambda x: x.args[0])
                return fun(name, tm.mkset(*[tm.it(x) for x in es]))
            if not all(tm.isnum(x) for x in es) or len(nd.shape(a)) != 2 or \
                    ax is not C(0):
                return None
            k, n = nd.shape(a)
            return mm.alloc(st, nd.nd((n,), [f(
                [es[i * n + j] for i in range(k)], key=lambda x: x.args[0])
                for j in range(n)]))
        return g
    for n, f in (('min', min), ('max', max)):
        e['numpy.' + n] = e['numpy.a' + n] = extremum(f, n)

    def pairwise(f):
        def g(mm, st, args, kw):
            v = [nd.arr(mm, st, x) for x in args]
            v = [mm.snapshot(st, x) if y is None else y
                 for x, y in zip(args, v)]
            if len(v) != 2 or kw or any(x.op != 'nd' and not tm.isnum(x)
                                        for x in v):
                return None
            def h(x, y):
                return f((x, y), key=lambda z: z.args[0])
            if any(not tm.isnum(y) for x in v if x.op == 'nd'
                   for y in nd.elems(x)):
                return None
            if all(x.op != 'nd' for x in v):
                return h(*v)
            t = nd.elementwise(h, *v)
            return None if t is None else mm.alloc(st, t)
        return g
    e['numpy.minimum'], e['numpy.maximum'] = pairwise(min), pairwise(max)

    def clip(mm, st, args, kw):
        x = e['numpy.maximum'](mm, st, [args[0], args[1]], {})
        return None if x is None else e['numpy.minimum'](mm, st,
                                                         [x, args[2]], {})
    e['numpy.clip'] = clip

    def uniform(mm, st, args, kw):
        p = dict(zip(('low', 'high', 'size'), args))
        p.update(kw)
        a = mm.snapshot(st, p.get('low', C(0)))
        b = mm.snapshot(st, p.get('high', C(1)))
        if p.get('size', tm.NONE) is tm.NONE:
            return noise(a, b)
        s = nd._shape(mm, st, p['size'])
        return None if s is None else mm.alloc(
            st, nd.nd(s, [noise(a, b)] * nd.size(s)))
    e['numpy.random.uniform'] = uniform

    def chirp(mm, st, args, kw):
        p = dict(zip(('t', 'f0', 't1', 'f1', 'method', 'phi'), args))
        p.update(kw)
        s = [mm.snapshot(st, p.get(k, d)) for k, d in (
            ('f0', None), ('t1', None), ('f1', None),
            ('method', C('linear')), ('phi', C(0)))]
        return each(lambda x: sweep(x, *s))(mm, st, [p['t']], {})
    e['scipy.signal.chirp'] = chirp

    def resample(mm, st, args, kw):
        p = dict(zip(('x', 'num'), args))
        p.update(kw)
        a, n = nd.arr(mm, st, p['x']), mm.snapshot(st, p['num'])
        if a is None or not tm.isnum(n) or set(p) != {'x', 'num'}:
            return None
        n = int(n.args[0])
        return mm.alloc(st, nd.nd((n,), resampled(list(nd.elems(a)), n)))
    e['scipy.signal.resample'] = resample

    def welch(mm, st, args, kw):
        p = dict(zip(('x', 'fs', 'window', 'nperseg', 'noverlap'), args))
        p.update(kw)
        a = nd.arr(mm, st, p['x'])
        if a is None:
            return None
        s = [mm.snapshot(st, p.get(k, d)) for k, d in (
            ('fs', C(1)), ('window', C('hann')), ('nperseg', tm.NONE),
            ('noverlap', tm.NONE), ('scaling', C('density')))]
        return tm.seq(tm.it(mm.alloc(st, nd.nd((NF,), BINS))),
                      tm.it(mm.alloc(st, nd.nd((NF,), spectrum(
                          list(nd.elems(a)), *s)))))
    e['scipy.signal.welch'] = welch

    def convolve(mm, st, args, kw):
        p = dict(zip(('a', 'v', 'mode'), args))
        p.update(kw)
        a, b = nd.arr(mm, st, p['a']), nd.arr(mm, st, p['v'])
        mode = mm.snapshot(st, p.get('mode', C('full')))
        if a is None or b is None or not tm.isc(mode):
            return None
        t = convolved(list(nd.elems(a)), list(nd.elems(b)), mode.args[0])
        return mm.alloc(st, nd.nd((len(t),), t))
    e['numpy.convolve'] = convolve

    def ceil(mm, st, args, kw):
        t = mm.snapshot(st, args[0])
        return C(-((-t.args[0]) // 1)) if tm.isnum(t) else None
    e['numpy.ceil'] = e['math.ceil'] = ceil

    def pack(mm, st, args, kw):
        f = mm.snapshot(st, args[0])
        v = [mm.snapshot(st, x) for x in args[1:]]
        if not tm.isc(f) or f.args[0].lstrip('<=@').lstrip(
                '0123456789') != 'h':
            return mm.alloc(st, tm.seq(tm.it(fun('bytes', f, *v))))
        return mm.alloc(st, tm.seq(*[tm.it(fun('int16', x)) for x in v]))
    e['struct.pack'] = pack
    return r


def trunc(x):
    return C(int(x.args[0])) if tm.isnum(x) else mk(
        'call', mk('builtin', 'int'), x)


def absolute(x):
    return C(abs(x.args[0])) if tm.isnum(x) else mk(
        'call', mk('builtin', 'abs'), x)


def sweep(t, f0, t1, f1, method, phi):
    return fun('chirp', t, f0, t1, f1, method, phi)


def resampled(a, n):
    s = tm.seq(*[tm.it(x) for x in a])
    return [fun('resample', s, C(n), C(k)) for k in range(n)]


NF = 6
BINS = [C(Q(5 * k, 10)) for k in range(NF)]


def spectrum(a, fs, window, nperseg, noverlap, scaling):
    s = tm.seq(*[tm.it(x) for x in a])
    return [fun('welch', s, fs, window, nperseg, noverlap, scaling, C(k))
            for k in range(NF)]


def convolved(a, b, mode):
    n = len(a) + len(b) - 1
    full = [tm.ZERO] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            full[i + j] = add(full[i + j], mul(x, y))
    if mode == 'full':
        return full
    k = max(len(a), len(b))
    if mode == 'valid':
        k = k - min(len(a), len(b)) + 1
    d = (n - k) // 2
    return full[d:d + k]


# --------------------------------------------------------------- synthesis

DEFAULT = {'which': 'sin', 'tsig': 1, 'ncycles': 1, 'tdeb': 0, 'tend': 0,
           'fs': 1000, 'A': 1, 'A1': 0, 'f0': 10, 'f1': 100, 'cycle_ratio': 1,
           'attack_ratio': 0, 'decay_ratio': 0, 'ramp_on': False,
           'bkgrd_noise': 0, 'offset': 0, 'phi': -90, 'method': 'linear'}


def expected(opts):
    """the samples of the signal"""
    p = dict(DEFAULT)
    p.update(opts)
    fs = Q(p['fs'])
    nsig = int(Q(p['tsig']) * fs)
    non = int(nsig * Q(p['cycle_ratio']))
    na, nd_ = int(Q(p['attack_ratio']) * non), int(Q(p['decay_ratio']) * non)
    a, a1, f0, f1, off, bk = [num(p[k]) for k in (
        'A', 'A1', 'f0', 'f1', 'offset', 'bkgrd_noise')]
    hiss = noise(tm.neg(bk), bk)

    def clamp(x):
        return min(max(x, Q(0)), Q(1))

    def wave(k):
        t = C(Q(k) / fs)
        w = p['which']
        if w == 'zero':
            return tm.ZERO
        if w in ('const', 'step'):
            return a
        if w == 'sin':
            return add(
                mul(a, sin(mul(C(2), PI, f0, t))),
                tm.ZERO if f1 is tm.NONE else
                mul(a1, sin(mul(C(2), PI, f1, t))))
        if w == 'cos':
            return mul(a, cos(mul(C(2), PI, f0, t)))
        if w == 'noise':
            return noise(tm.neg(a), a)
        return mul(a, sweep(t, f0, C(Q(non - 1) / fs), f1,
                               num(p['method']), num(p['phi'])))
    out = [hiss] * int(Q(p['tdeb']) * fs)
    for c in range(p['ncycles']):
        for k in range(nsig):
            if k >= non:
                out.append(add(hiss, off))
                continue
            g = Q(1)
            if p['ramp_on']:
                g *= Q(k + c * nsig, p['ncycles'] * nsig - 1)
            if nd_:
                g *= clamp(Q(non - k, nd_))
            if na:
                g *= clamp(Q(k, na))
            out.append(add(mul(C(g), wave(k)), hiss, off))
    return out + [hiss] * int(Q(p['tend']) * fs)


def given(r, opts):
    d = {}
    for k, v in opts.items():
        d[k] = num(v)
    return d


def signal(rep, which, opts, what):
    """the samples of one signal"""
    r = rig()
    o = dict(opts)
    if which is not None:
        o['which'] = which
    cons = F + 'synthesis/synthesis_array.py:signalgenerator %s%s' % (
        which or 'default', ', ' + what if what else '')
    try:
        got = c17.plain(r, r.call(r.fn(GEN), **given(r, o)))
    except Raised as e:
        rep.visited |= r.m.visited
        return rep.violated('C21.signal', cons,
                            'raises %s' % tm.pp(e.exc)[:200])
    rep.visited |= r.m.visited
    want = expected(o)
    n = got.args[0].args[0] if got.op == 'seq' and got.args else None
    k = tm.seq(tm.it(C(len(want))))
    if n is None or n.op != 'seq':
        return rep.undecided('C21.signal', cons, tm.pp(got)[:200])
    rep.same('C21.signal', cons + ': number of samples', n, k)
    if n is not k:
        return
    es = got.args[1].args[0].args
    for t, w in enumerate(want):
        rep.same('C21.signal', cons + ': sample %d' % t,
                 es[t].args[0], w)


BASE = {'fs': 8, 'tsig': Q(3, 4), 'A': A, 'f0': F0, 'f1': F1, 'A1': A1}
OPTS = [
    ('', {}),
    ('silences', {'tdeb': Q(1, 4), 'tend': Q(3, 8)}),
    ('cycles', {'ncycles': 3}),
    ('cycle ratio', {'ncycles': 2, 'cycle_ratio': Q(1, 2)}),
    ('attack', {'attack_ratio': Q(1, 2)}),
    ('decay', {'decay_ratio': Q(1, 3)}),
    ('envelope of cycles', {'attack_ratio': Q(1, 2), 'decay_ratio': Q(3, 4),
                            'ncycles': 2, 'cycle_ratio': Q(2, 3)}),
    ('ramp', {'ramp_on': True}),
    ('ramp of cycles', {'ramp_on': True, 'ncycles': 3, 'cycle_ratio': Q(1, 2),
                        'tdeb': Q(1, 8)}),
    ('offset', {'offset': OFF, 'ncycles': 2, 'cycle_ratio': Q(1, 2),
                'tdeb': Q(1, 8), 'tend': Q(1, 4)}),
    ('negative offset', {'offset': tm.neg(OFF), 'ncycles': 2,
                         'cycle_ratio': Q(1, 2)}),
    ('background noise', {'bkgrd_noise': NOISE, 'ncycles': 2,
                          'cycle_ratio': Q(1, 2), 'tdeb': Q(1, 8),
                          'tend': Q(1, 4), 'offset': OFF}),
]
NAMES = ('zero', 'const', 'sin', 'cos', 'noise', 'step', 'sweep')


def synthesis(rep, which):
    for what, o in OPTS:
        d = dict(BASE)
        d.update(o)
        signal(rep, which, d, what)
    if which == 'sin':
        d = dict(BASE)
        d['f1'] = tm.NONE
        signal(rep, which, d, 'no second frequency')
    if which == 'sweep':
        for k, v in (('phi', PHI), ('method', 'logarithmic')):
            d = dict(BASE)
            d[k] = v
            signal(rep, which, d, k)


def defaults(rep):
    """options left out take the documented values"""
    for which, drop in ((None, ()), ('sin', ('f0',)), ('sin', ('A',)),
                        ('sin', ('f1', 'A1')), ('const', ('A',)),
                        ('sweep', ('f0', 'f1')), ('cos', ('f0', 'A'))):
        d = dict(BASE)
        for k in drop:
            d.pop(k)
        signal(rep, which, d, 'default ' + ', '.join(drop) if drop else '')
    d = dict(BASE, tsig=Q(3, 1000))
    d.pop('fs')
    signal(rep, 'sin', d, 'default fs')
    d = dict(BASE, fs=4)
    d.pop('tsig')
    signal(rep, 'sin', d, 'default tsig')
    # the given options
    r = rig()
    cons = F + 'synthesis/synthesis_array.py:signalgenerator '
    d = r.m.alloc(r.st, tm.mkdict(*[
        tm.pair(C(k), num(v)) for k, v in dict(BASE, which='sin').items()]))
    before = r.snap(d)
    f = r.fn('pyphs.misc.signals.synthesis.synthesis_array.build_parameters')

    def go(r):
        items = r.snap(d)
        kw = {p.args[0].args[0]: p.args[1] for p in items.args}
        r.call(r.fn(GEN), **kw)
        r.call(r.fn(GEN), which=C('const'), fs=C(4), ncycles=C(2))
        return r.call(r.fn(GEN), **kw)
    got = c17.plain(r, go(r))
    want = c17.shaped(expected(dict(BASE, which='sin')))
    rep.same('C21.signal', cons + 'after another signal', got, want)
    rep.visited |= r.m.visited
    r = rig()
    try:
        v = r.call(r.fn(GEN), which=C('square'), **given(r, BASE))
        rep.violated('C21.signal', cons + 'unknown waveform',
                     'returns %s' % tm.pp(r.snap(v))[:100])
    except Raised:
        rep.holds('C21.signal', cons + 'unknown waveform')
    rep.visited |= r.m.visited


# --------------------------------------------------------------- wave files

def world():
    r = rig()
    rec = r.m.alloc(r.st, tm.mkdict(
        tm.pair(C('open'), C(0)), tm.pair(C('path'), tm.NONE)))
    r.m.setitem(r.st, rec, C('frames'), r.m.alloc(r.st, tm.seq()))

    def opened(mm, st, args, kw):
        p = dict(zip(('f', 'mode'), args))
        p.update(kw)
        if mm.snapshot(st, p['mode']) not in (C('w'), C('wb')):
            return None
        mm.setitem(st, rec, C('path'), p['f'])
        return mm.call(mk('cls', 'ref.wav.Wave'), [rec], {}, st)
    r.m.extmodels['wave.open'] = opened
    return r, rec


def written(sig, fs, fs_out=None, normalize=None, timefades=0):
    n = len(sig)
    nf = int(Q(timefades) * fs)
    if n >= 2 * nf:
        g = [Q(k, nf) for k in range(nf)]
        g = g + [Q(1)] * (n - 2 * nf) + g[::-1]
        sig = [mul(C(a), s) for a, s in zip(g, sig)]
    if fs_out not in (None, fs):
        sig = resampled(sig, int(Q(n) * fs_out / fs))
    if normalize is True:
        scale = fun('max', tm.mkset(*[tm.it(absolute(x)) for x in sig]))
        scale = tm.ite(tm.eq(scale, tm.ZERO), tm.ONE, scale)
    elif isinstance(normalize, tm.T):
        scale = normalize
    elif normalize in (None, False):
        scale = tm.ONE
    else:
        scale = C(normalize)
    return [fun('int16', trunc(tm.div(mul(C(2 ** 15 - 1), x), scale)))
            for x in sig]


def writing(rep):
    """wavwrite"""
    X = [sym('s%d' % k, 'num') for k in range(7)]
    cases = [('', {}), ('same rate', {'fs_out': 8}),
             ('resampled', {'fs_out': 16}), ('decimated', {'fs_out': 4}),
             ('fades', {'timefades': Q(1, 4)}),
             ('long fades', {'timefades': Q(3, 8)}),
             ('normalised', {'normalize': True}),
             ('not normalised', {'normalize': False}),
             ('given scale', {'normalize': GAIN}),
             ('scale', {'normalize': Q(5, 2)}),
             ('all options', {'fs_out': 16, 'normalize': True,
                              'timefades': Q(1, 4)})]
    for form in ('list', 'array', 'generator'):
        for what, o in cases:
            for path in ('/w/s', '/w/s.wav', '/w/my.wave'):
                if path != '/w/s' and what:
                    continue
                r, rec = world()
                cons = F + 'waves.py:wavwrite %s%s to %s' % (
                    form, ', ' + what if what else '', path)
                if form == 'list':
                    s = litlist(r, X)
                elif form == 'array':
                    s = r.m.alloc(r.st, nd.nd((7,), X))
                else:
                    s = r.new('ref.sig.Values', litlist(r, X))
                kw = {k: num(v) for k, v in o.items()}
                try:
                    r.call(r.fn(WAVES + 'wavwrite'), s, C(8), C(path), **kw)
                except Raised as e:
                    rep.visited |= r.m.visited
                    rep.violated('C21.write', cons,
                                 'raises %s' % tm.pp(e.exc)[:200])
                    continue
                rep.visited |= r.m.visited
                g = {p.args[0].args[0]: p.args[1]
                     for p in r.snap(rec).args}
                want = written(X, 8, **o)
                rep.same('C21.write', cons + ': samples',
                         g['frames'], tm.seq(*[tm.it(x) for x in want]))
                name = path if path.endswith('.wav') else path + '.wav'
                for k, v in (('path', name), ('open', 0), ('nchannels', 1),
                             ('sampwidth', 2),
                             ('framerate', o.get('fs_out', 8))):
                    rep.same('C21.write', cons + ': ' + k,
                             g.get(k, tm.NONE), C(v))
                if form == 'generator':
                    continue
                now = c17.plain(r, s)
                rep.same('C21.write', cons + ': the given signal', now,
                         c17.shaped(X))


def reading(rep):
    """wavread"""
    X = [sym('s%d' % k, 'num') for k in range(5)]
    FSF = sym('rate', 'num')
    r = rig()
    seen = []

    def read(mm, st, args, kw):
        seen.append(mm.snapshot(st, args[0]))
        return tm.seq(tm.it(FSF), tm.it(mm.alloc(st, nd.nd((5,), X))))
    r.m.extmodels['scipy.io.wavfile.read'] = read
    cons = F + 'waves.py:wavread '
    try:
        v = r.call(r.fn(WAVES + 'wavread'), C('/w/s.wav'))
        fs = r.snap(r.m.getitem(r.st, v, C(0)))
        s = c17.plain(r, r.m.getitem(r.st, v, C(1)))
    except Raised as e:
        return rep.violated('C21.read', cons, 'raises %s' % tm.pp(e.exc)[:99])
    rep.visited |= r.m.visited
    rep.same('C21.read', cons + 'rate', fs, FSF)
    rep.same('C21.read', cons + 'samples', s, c17.shaped(
        [tm.div(x, C(2 ** 15 - 1)) for x in X]))
    rep.same('C21.read', cons + 'file', seen[0] if seen else tm.NONE,
             C('/w/s.wav'))


# ----------------------------------------------------------------- analysis

def kernel(fc, tbw):
    """windowed sinc (Blackman)"""
    b = tbw * fc
    fc = fc - b
    n = int(-(-4 // b))
    n += 1 - n % 2
    h = []
    for k in range(n):
        w = add(C(Q(42, 100)), tm.neg(mul(C(Q(1, 2)), cos(
            mul(C(Q(2 * k, n - 1)), PI)))), mul(C(Q(8, 100)), cos(
                mul(C(Q(4 * k, n - 1)), PI))))
        h.append(mul(sinc(C(2 * fc * (k - Q(n - 1, 2)))), w))
    s = tm.ZERO
    for x in h:
        s = add(s, x)
    return [tm.div(x, s) for x in h]


def lowpass(rep):
    X = [sym('s%d' % k, 'num') for k in range(9)]
    for fc, tbw in ((Q(4, 5), Q(5, 8)), (Q(4), Q(1, 4)), (Q(2), Q(1, 2))):
        r = rig()
        cons = F + 'processing.py:lowpass fc=%s, tbw=%s' % (fc, tbw)
        got = c17.plain(r, r.call(
            r.fn('pyphs.misc.signals.processing.lowpass'),
            litlist(r, X), C(fc), C(tbw)))
        rep.visited |= r.m.visited
        rep.same('C21.lowpass', cons, got,
                 c17.shaped(convolved(X, kernel(fc, tbw), 'same')))


def transfer(rep):
    X = [sym('s%d' % k, 'num') for k in range(4)]
    Y = [sym('o%d' % k, 'num') for k in range(4)]
    fs, ov = C(5), sym('noverlap', 'num')
    d = F + 'analysis.py:transferFunction '
    for what, o, lim, filt in (
            ('all frequencies', {}, None, None),
            ('band', {}, (Q(1, 2), Q(3, 2)), None),
            ('band between bins', {}, (Q(3, 4), Q(7, 4)), None),
            ('first bins', {}, (Q(0), Q(1, 4)), None),
            ('last bins', {}, (Q(2), Q(9)), None),
            ('overlap', {'noverlap': ov}, None, None),
            ('filtered', {}, (Q(1), Q(2)), C(7))):
        r = rig()
        low = []

        def lp(m, st, args, kw):
            p = dict(zip(('s', 'fc', 'tbw'), args))
            p.update(kw)
            a = nd.arr(m, st, p['s'])
            low.append(1)
            return m.alloc(st, nd.nd(nd.shape(a), [
                fun('low', x, m.snapshot(st, p['fc']))
                for x in nd.elems(a)]))
        r.m.models['pyphs.misc.signals.processing.lowpass'] = lp
        kw = dict(o, nfft=C(64))
        if lim is not None:
            kw['limits'] = tm.seq(*[tm.it(C(x)) for x in lim])
        if filt is not None:
            kw['filtering'] = filt
        s, t = [r.m.alloc(r.st, nd.nd((4,), z)) for z in (X, Y)]
        try:
            v = r.call(r.fn(ANALYSIS + 'transferFunction'), s, t, fs, **kw)
            f = c17.plain(r, r.m.getitem(r.st, v, C(0)))
            h = c17.plain(r, r.m.getitem(r.st, v, C(1)))
        except Raised as e:
            rep.visited |= r.m.visited
            rep.violated('C21.transfer', d + what,
                         'raises %s' % tm.pp(e.exc)[:200])
            continue
        rep.visited |= r.m.visited

        def g(z):
            return z if filt is None else [fun('low', x, filt) for x in z]
        a, b = [spectrum(g(z), fs, C('hann'), C(64), o.get('noverlap', tm.NONE),
                         C('spectrum')) for z in (X, Y)]
        lo, hi = lim or (Q(0), Q(5, 2))
        ks = [k for k in range(NF) if lo <= Q(k, 2) <= hi]
        rep.same('C21.transfer', d + what + ': frequencies', f,
                 c17.shaped([BINS[k] for k in ks]))
        rep.same('C21.transfer', d + what + ': gains', h, c17.shaped(
            [tm.power(tm.div(b[k], a[k]), C(Q(1, 2))) for k in ks]))


def run(rep, tier):
    cm.parallel(rep, [lambda rep, w=w: synthesis(rep, w) for w in NAMES] +
                [defaults, writing, reading, lowpass, transfer])
