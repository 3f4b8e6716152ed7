"""Drivers for NumPy universal functions (C11)."""
from core import *
from gen import Gen
from d_calc import call, operand, clip_pow, powexp

COPY = ['fabs', 'absolute', 'conjugate', 'negative', 'rint', 'floor', 'ceil']
TRIG = ['sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh']
ARC = ['arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh', 'arctanh']
LOG = ['log', 'log10', 'log2', 'log1p', 'exp', 'exp2', 'expm1']
UNIF = ['add', 'subtract', 'remainder', 'fmod', 'hypot', 'maximum', 'minimum']
CMPF = ['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal']
ONE = COPY + TRIG + ARC + LOG + ['square', 'reciprocal', 'sqrt', 'radians', 'degrees', 'isfinite', 'isnan', 'isinf']
TWO = UNIF + CMPF + ['multiply', 'divide', 'floor_divide', 'power', 'arctan2', 'logaddexp', 'logaddexp2']
NO1 = ['positive', 'sign', 'signbit', 'trunc', 'cbrt', 'spacing', 'deg2rad', 'rad2deg', 'logical_not']
NO2 = ['fmax', 'fmin', 'copysign', 'nextafter', 'heaviside', 'float_power', 'logical_and', 'logical_or', 'logical_xor']


def uf(rec, f, recs, out=None, self_out=None):
    fn = getattr(np, f)
    if out is None and self_out is None:
        call(rec, 'uf', recs, lambda *a: fn(*a), {}, f=f)
        return
    ex = {}

    def g(*a):
        o = a[self_out] if self_out is not None else dec(out)
        ex['out'] = enc(o)
        ex['is'] = False
        try:
            r = fn(*a, out=o)
            ex['is'] = r is o
            return r
        finally:
            ex['opost'] = enc(o)
    call(rec, 'uf', recs, g, ex, f=f, so=0 if self_out is None else self_out + 1)


def ufred(rec, f, recs):
    def g(a):
        n, m = f.split('.')
        u = getattr(np, n)
        return u.at(a, [0], 1) if m == 'at' else getattr(u, m)(a)
    call(rec, 'ufred', recs, g, {}, f=f)


ANGLE = [[['radian', '1']], [['arcdegree', '1']], [['arcminute', '1']], [], [['percent', '1']], [['count', '1']], [['meter', '1'], ['foot', '-1']],
         [['milliradian', '1']], [['turn', '1']], [['gon', '1']], [['steradian', '1']], [['radian', '2']], [['radian', '-1']]]
from gen import U
ANGLE = [d for d in ANGLE if all(k in U for k, _ in d)]


def small(g, r, hi=8):
    """magnitudes for which the functions are well conditioned"""
    if r['dt'][0] in 'fc':
        r['v'] = [v if v in ('nan', 'inf', '-inf') or '|' in v else g.ex(round(g.r.uniform(-hi, hi), g.pick([1, 3, 6]))) if float(v) else v for v in r['v']]
        if r['dt'] == 'f4':
            r['v'] = [repr(float(np.float32(float(v)))) for v in r['v']]
            r['v'] = [v[:-2] if v.endswith('.0') else v for v in r['v']]
            r['v'] = ['0' if v == '-0' else v for v in r['v']]
    else:
        r['v'] = [str(int(float(v)) % 5) for v in r['v']]
    return r


def first(g, f):
    if f in TRIG + ['radians', 'degrees']:
        d = [['radian', '1']] if g.chance(0.5) else g.pick(ANGLE) if g.chance(0.8) else g.dims()
        if f == 'radians' and g.chance(0.5):
            d = [['arcdegree', '1']]
        return small(g, g.q(d))
    if f in ARC + LOG:
        d = [] if g.chance(0.6) else g.pick(ANGLE) if g.chance(0.5) else g.dims()
        return small(g, g.q(d), 1.2 if f in ARC and g.chance(.7) else 8)
    a = g.q() if g.chance(0.85) else g.u() if g.chance(0.6) else g.x()
    return a


def drive_uf(rec, g, n):
    for _ in range(n):
        c = g.r.random()
        out = so = None
        if c < 0.42:
            f = g.pick(ONE)
            a = [first(g, f)]
            if f in ('negative', 'conjugate') and a[0]['dt'] == 'b1':
                continue
        elif c < 0.9:
            f = g.pick(TWO)
            if f == 'power':
                x = g.q() if g.chance(.9) else g.u()
                clip_pow(x)
                y = powexp(g, x)
                clip_pow(y)
                if x['dt'] in ('c16', 'f4'):
                    continue
            elif f in ('multiply', 'divide', 'floor_divide'):
                x = operand(g)
                y = operand(g, x, g.pick([None, None, 'same']))
            elif f in ('logaddexp', 'logaddexp2'):
                x, y = small(g, g.q([] if g.chance(.7) else None)), small(g, g.q([] if g.chance(.7) else None))
                y['sh'] = x['sh']
                y['v'] = (y['v'] * 8 + ['1'] * 8)[:g.size(x['sh'])]
                y.pop('lay', None)
            else:
                x = g.q() if g.chance(0.8) else g.q([])
                y = operand(g, x, g.pick(['same', 'same', 'same', 'compat', None]))
                if g.chance(0.1):
                    y = {'k': 'A', 'dt': 'f8', 'sh': x['sh'], 'v': ['0'] * g.size(x['sh'])}
            if g.chance(0.2):
                x, y = y, x
            a = [x, y]
            if not any(r['k'] == 'Q' for r in a):
                continue
        elif c < 0.95:
            f = g.pick(NO1)
            a = [g.q(dt='f8')]
        else:
            f = g.pick(NO2)
            x = g.q(dt='f8')
            a = [x, g.q(x['d'], x['sh'], dt='f8')]
        if any(r['dt'] == 'c16' for r in a) and any(v in ('inf', 'nan', '-inf') for r in a for v in r['v']):
            continue
        if any(r['dt'] == 'f4' and r['k'] == 'Q' and abs(Gen.lgd(r['d'])) > 8 for r in a):
            continue
        if f in ('floor_divide', 'remainder', 'fmod') and any(v in ('inf', '-inf', 'nan') for r in a for v in r['v']):
            continue
        if any(r.get('t') == 'X' for r in a) and any(r['dt'] == 'c16' for r in a):
            continue
        if g.chance(0.3) and not any(r.get('t') == 'X' for r in a) and all(r['dt'] in ('f8', 'i8') for r in a) and f in COPY + UNIF + TRIG + ARC + LOG + [
                'square', 'reciprocal', 'sqrt', 'multiply', 'divide', 'floor_divide', 'power', 'radians', 'degrees', 'arctan2']:
            try:
                sh = list(np.broadcast_shapes(*[tuple(r['sh']) for r in a]))
            except ValueError:
                sh = a[0]['sh']
            if g.chance(0.07):
                sh = [5]
            i = [j for j, r in enumerate(a) if r['k'] == 'Q' and r['t'] == 'Q' and r['dt'] == 'f8' and r['sh'] == sh]
            if i and g.chance(0.3):
                so = i[0]
            else:
                out = g.q(sh=sh, dt='f8' if g.chance(0.95) else 'i8')
        uf(rec, f, a, out, so)


def drive_red(rec, g, n):
    for _ in range(n):
        f = g.pick(['add', 'multiply', 'maximum', 'logical_or', 'subtract', 'divide']) + '.' + g.pick(['reduce', 'reduce', 'accumulate', 'at'])
        ufred(rec, f, [g.q(dt='f8', sh=g.pick([[3], [2], [4]]), special=0)])
