"""Drivers for the package's own mathematical functions (C18)."""
from core import *
from gen import Gen
from d_calc import call
from d_ufunc import ANGLE, small
from quantities import umath
from quantities.decorators import quantitizer

TRIG = ['sin', 'cos', 'tan']
ARC = ['arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh']
RED = ['sum', 'prod', 'cumsum', 'cumprod', 'nansum']
LENGTHS = [[['meter', '1']], [['foot', '1']], [['kilometer', '1']], [['second', '1']], [['meter', '1'], ['second', '-1']], [['hour', '1']],
           [['kilogram', '1'], ['meter', '0.5']], [['percent', '1']], [], [['joule', '1'], ['liter', '-1']]]


def invoke(f, a, p, o=None):
    fn = getattr(pq if p.get('top') else umath, f)
    kw = {}
    if f in TRIG + ARC or f in ('arctan2', 'hypot'):
        if o is not None:
            if p.get('kw'):
                kw['out'] = o
            else:
                a = list(a) + [o]
        return fn(*a, **kw)
    if f in RED:
        if p['ax'] and p.get('kw'):
            return fn(a[0], axis=p['ax'][0])
        return fn(a[0], *p['ax'])
    if f == 'diff':
        if p.get('kw'):
            return fn(a[0], n=p['n'], axis=p['ax'][0])
        return fn(a[0], p['n'], p['ax'][0])
    if f == 'ediff1d':
        if p.get('kw'):
            for n, x in zip(('to_end', 'to_begin'), a[1:]):
                if x is not None:
                    kw[n] = x
            return fn(a[0], **kw)
        return fn(*a)
    if f == 'gradient':
        return fn(*a)
    if f == 'cross':
        c = p['cax']
        if p.get('kw'):
            if c[0] == c[1] == c[2]:
                return fn(a[0], a[1], axis=c[0])
            return fn(a[0], a[1], axisa=c[0], axisb=c[1], axisc=c[2])
        return fn(a[0], a[1], *c)
    if f == 'trapz':
        kw = {'axis': p['ax'][0]}
        if a[1] is not None:
            kw['x'] = a[1]
        if a[2] is not None:
            kw['dx'] = a[2]
        if p.get('kw'):
            return fn(a[0], **kw)
        return fn(a[0], a[1], 1.0 if a[2] is None else a[2], p['ax'][0])
    if f == 'unwrap':
        kw = {'axis': p['ax'][0]}
        if a[1] is not None:
            kw['discont'] = a[1]
        if p.get('kw'):
            return fn(a[0], **kw)
        return fn(a[0], np.pi if a[1] is None else a[1], p['ax'][0])
    if f == 'quantitizer':
        raise KeyError


def func(rec, f, recs, p=None, out=None):
    ex = {}
    p = p or {}

    def g(*a):
        if out is None:
            return invoke(f, a, p)
        o = dec(out)
        ex['out'] = enc(o)
        try:
            return invoke(f, a, p, o)
        finally:
            ex['opost'] = enc(o)
    call(rec, 'func', recs, g, ex, f=f, **p)


def qz(rec, recs, m, h, nkw):
    """base function: products of powers of its arguments; handler: the units of those products"""
    names = ['p%d' % i for i in range(len(recs))]

    def base(*a, **k):
        "base"
        v = list(a) + [k[n] for n in names[len(a):]]
        return tuple(np.prod([x ** float(e) for x, e in zip(v, row)]) for row in m)

    def handler(*a, **k):
        return tuple(1.0 if d['k'] != 'D' else Quantity(1, decd(d['d'])) for d in h)
    w = quantitizer(base, handler)
    n = len(recs) - nkw
    call(rec, 'func', recs, lambda *a: w(*a[:n], **dict(zip(names[n:], a[n:]))), {}, f='quantitizer', m=m, h=h)


Z = {'k': 'Z'}


def plain(r):
    return {'k': 'A', 'dt': r['dt'], 'sh': r['sh'], 'v': r['v']}


def arg(g, d, sh, pl=0.15, **kw):
    q = g.q(d, sh, dt=kw.pop('dt', None) or g.pick(['f8', 'f8', 'f8', 'i8', 'f4']), special=kw.pop('special', 0))
    return plain(q) if g.chance(pl) else q


def mono(g, n, dt='f8'):
    v, x = [], 0
    for _ in range(n):
        x += g.pick([1, 1, 2, 0.5, 3]) if dt == 'f8' else g.pick([1, 2])
        v.append(x)
    if g.chance(0.4):
        v = [k * (v[1] - v[0] if n > 1 else 1) for k in range(n)]
    if g.chance(0.2):
        v = v[::-1]
    return [g.ex(x) for x in v]


def one(rec, g):
    f = g.pick(TRIG * 3 + ARC * 2 + RED * 3 + ['arctan2', 'hypot'] * 4 + ['diff', 'ediff1d', 'gradient', 'cross', 'trapz', 'unwrap'] * 5 + ['quantitizer'] * 3)
    p = {'kw': g.chance(0.5), 'top': g.chance(0.5)}
    if f in TRIG + ARC:
        d = g.pick(ANGLE) if g.chance(0.85) else g.dims()
        a = small(g, g.q(d, dt=g.pick(['f8', 'f8', 'f8', 'i8', 'f4'])), 1.2 if f[:3] == 'arc' and g.chance(.7) else 8)
        if f in TRIG and d and d[0][0] == 'arcdegree' and g.chance(0.5):
            a['v'] = [g.pick(['0', '30', '-45', '90', '120', '400']) for _ in a['v']]
        if g.chance(0.15):
            a = plain(a)
        elif g.chance(0.06):
            a = small(g, g.x(d))
        elif g.chance(0.06) and len(d) == 1:
            a = g.u(d[0][0])
        out = None
        if g.chance(0.15) and a['dt'] == 'f8' and a['sh']:
            out = {'k': 'A', 'dt': 'f8', 'sh': a['sh'], 'v': ['9'] * len(a['v'])}
        return func(rec, f, [a], p, out)
    if f in RED:
        sh = g.pick([[3], [2, 3], [2, 2, 2], [4], [1], [0], []])
        d = g.dims() if f != 'cumprod' or g.chance(0.2) else []
        if f == 'prod' and abs(g.lgd(d)) > 10:
            d = []
        a = arg(g, d, sh, special=0.03)
        if f in ('sum', 'cumsum') and g.chance(0.1):
            a = g.x(d, sh)
        if a['k'] == 'A' and not sh:
            return
        if f in ('prod', 'cumprod') and (a['dt'] == 'f4' or any(v in ('inf', 'nan', '-inf') for v in a['v'])):
            return
        p['ax'] = [] if g.chance(0.4) or not sh else [g.r.randrange(-len(sh), len(sh))] if g.chance(0.95) else [len(sh)]
        if f == 'nansum':
            p['ddof'] = 0
        return func(rec, f, [a], p)
    if f in ('arctan2', 'hypot'):
        a = g.q(dt=g.pick(['f8', 'f8', 'i8', 'f4']), special=0)
        c = g.r.random()
        sh = g.partner_shape(a['sh'])
        d = a['d'] if c < (0.7 if f == 'hypot' else 0.3) else g.compatible(a['d']) if c < 0.85 else g.dims()
        b = g.q(d, sh, dt=g.pick(['f8', 'f8', 'i8']), special=0)
        if g.chance(0.1):
            b = plain(b)
        if g.chance(0.1):
            a, b = b, a
        if a['k'] == b['k'] == 'A':
            return
        if g.chance(0.1) and a['k'] == b['k'] == 'Q':
            a, b = plain(a), plain(b)
        return func(rec, f, [a, b], p)
    if f == 'diff':
        sh = g.pick([[3], [5], [2, 3], [3, 2], [2, 2, 3], [1], [0]]) if g.chance(.95) else []
        a = arg(g, None, sh)
        if a['k'] == 'Q' and g.chance(0.1):
            a = g.x(a['d'], sh)
        p.update(n=g.pick([1, 1, 2, 3]), ax=[-1 if g.chance(0.4) or not sh else g.r.randrange(-len(sh), len(sh) + (1 if g.chance(.1) else 0))])
        return func(rec, f, [a], p)
    if f == 'ediff1d':
        a = arg(g, None, g.pick([[3], [4], [2, 2], [1], [0]]))
        ends = []
        for _ in range(2):
            if g.chance(0.4):
                ends.append(Z)
            else:
                d = a.get('d', [])
                c = g.r.random()
                d = d if c < 0.4 else g.compatible(d) if c < 0.85 else g.dims()
                e = g.q(d, g.pick([[], [], [2]]), dt=a['dt'] if g.chance(.7) else 'f8', special=0)
                ends.append(plain(e) if g.chance(0.2) and e['sh'] else e)
        return func(rec, f, [a] + ends, p)
    if f == 'gradient':
        sh = g.pick([[2], [3], [5], [3, 2], [2, 3], [4, 3], [2, 2, 3], [1], [1, 3]])
        a = arg(g, g.pick(LENGTHS) if g.chance(.7) else None, sh, pl=0.2, dt=g.pick(['f8', 'f8', 'i8', 'f4']))
        sp = []
        k = g.pick([0, 1, 1, len(sh), len(sh), len(sh)]) if g.chance(.96) else len(sh) + 1
        for i in range(k):
            d = g.pick(LENGTHS) if g.chance(.7) else g.dims()
            if g.chance(0.5) and not (k == 1 and len(sh) > 1) and i < len(sh):
                n = sh[i] if g.chance(.96) else sh[i] + 1
                s = g.q(d, [n], dt='f8', special=0)
                s['v'] = mono(g, n)
                s.pop('lay', None)
                sp.append(plain(s) if g.chance(.2) else s)
            else:
                s = g.q(d, [], dt=g.pick(['f8', 'i8']), special=0)
                s['v'] = [g.pick(['2', '3', '-2', '10'])] if s['dt'] == 'i8' else [g.pick(['0.5', '2', '1.25', '-4', '1'])]
                sp.append({'k': 'N', 'dt': s['dt'], 'sh': [], 'v': s['v']} if g.chance(.25) else g.u(d[0][0]) if g.chance(.1) and len(d) == 1 else s)
        if any(x['k'] == 'Q' and abs(g.lgd(x['d'])) > 20 for x in [a] + sp):
            return
        return func(rec, f, [a] + sp, p)
    if f == 'cross':
        rest = g.pick([[], [], [2], [2, 3], [4]])
        n = len(rest) + 1

        def vec():
            ax = g.r.randrange(n) if g.chance(.5) else n - 1
            l = g.pick([3, 3, 3, 2]) if g.chance(.97) else 4
            sh = list(rest)
            sh.insert(ax, l)
            return sh, ax - (n if g.chance(.5) else 0)
        (sa, xa), (sb, xb) = vec(), vec()
        if g.chance(0.35):
            sb, xb = list(sa), xa
        elif g.chance(0.2):
            sb, xb = [3], -1
        a, b = arg(g, None, sa, pl=0.2), arg(g, None, sb, pl=0.2)
        c = xa if g.chance(.3) and sa == sb else g.r.randrange(-n, n) if g.chance(.97) else n + 1
        p['cax'] = [xa, xb, c]
        if p['kw'] and xa == xb == c and len(sa) != len(sb):
            p['kw'] = False
        return func(rec, f, [a, b], p)
    if f == 'trapz':
        sh = g.pick([[3], [5], [2], [2, 3], [3, 2], [3, 2, 2], [1], [1, 3]])
        ax = g.r.randrange(-len(sh), len(sh)) if g.chance(.97) else len(sh)
        y = arg(g, g.dims(), sh, pl=.2)
        if y['k'] == 'Q' and g.chance(.05):
            y = g.x(y['d'], sh)
        x = dx = Z
        if g.chance(0.55):
            m = sh[ax] if ax < len(sh) else 1
            x = g.q(g.dims(), [m] if g.chance(.6) else sh, dt='f8', special=0)
            if len(x['sh']) == 1:
                x['v'] = mono(g, x['sh'][0])
            x = plain(x) if g.chance(.2) else x
        if g.chance(0.5 if x is Z else 0.15):
            dx = g.q(g.dims(), [], dt='f8', special=0)
            if g.chance(.2):
                dx = {'k': 'N', 'dt': 'f8', 'sh': [], 'v': dx['v']}
        p['ax'] = [ax]
        if any(r['k'] == 'Q' and abs(g.lgd(r['d'])) > 20 for r in (x, y, dx)):
            return
        return func(rec, f, [y, x, dx], p)
    if f == 'unwrap':
        sh = g.pick([[4], [3], [5], [2, 3], [3, 2], [1]])
        d = g.pick(ANGLE[:4] + ANGLE[7:10]) if g.chance(.93) else g.dims()
        a = g.q(d, sh, dt=g.pick(['f8', 'f8', 'i8', 'f4']), special=0)
        per = {'arcdegree': 360, 'arcminute': 21600, 'turn': 1, 'gon': 400, 'milliradian': 6283.185307}.get(d[0][0] if d else '', 6.283185307)
        if a['dt'] == 'i8':
            a['v'] = [str(int(g.r.uniform(-3, 3) * per)) for _ in a['v']]
        else:
            a['v'] = [g.ex(round(g.r.uniform(-2.5, 2.5) * per, g.pick([1, 3]))) for _ in a['v']]
            if a['dt'] == 'f4':
                a['v'] = [num(float(np.float32(float(v)))) for v in a['v']]
        disc = Z
        if g.chance(.4):
            dd = g.pick(ANGLE[:4] + ANGLE[7:10]) if g.chance(.93) else g.dims()
            disc = g.q(dd, [], dt='f8', special=0)
            pd = {'arcdegree': 360, 'arcminute': 21600, 'turn': 1, 'gon': 400, 'milliradian': 6283.185307}.get(dd[0][0] if dd else '', 6.283185307)
            disc['v'] = [g.ex(round(g.pick([0.3, 0.5, 0.7, 0.9, 1.3]) * pd + 0.1, 2))]
            if g.chance(.2):
                disc = {'k': 'N', 'dt': 'f8', 'sh': [], 'v': [g.pick(['3.5', '5', '1.5'])]}
        if g.chance(.12):
            a = plain(a)
        p['ax'] = [-1 if g.chance(.5) else g.r.randrange(-len(sh), len(sh))]
        return func(rec, f, [a, disc], p)
    if f == 'quantitizer':
        n = g.pick([1, 2, 2, 3])
        a = []
        for _ in range(n):
            d = g.dims(g.pick([1, 1, 2]), exps=['1', '1', '-1', '2'], lim=6)
            q = g.q(d, [], dt='f8', special=0, nonneg=True)
            q['v'] = [g.pick(['1', '2', '0.5', '3.25', '10'])]
            a.append({'k': 'N', 'dt': 'f8', 'sh': [], 'v': q['v']} if g.chance(.2) else q)
        m, h = [], []
        for _ in range(g.pick([1, 2, 2])):
            row = [g.pick(['1', '1', '-1', '2', '0']) for _ in a]
            m.append(row)
            d = []
            for r, e in zip(a, row):
                if r['k'] == 'Q' and e != '0':
                    d = d + [[k, g.ex(float(x) * float(e))] for k, x in g.compatible(r['d'], 6)]
            s = {}
            for k, x in d:
                s[k] = s.get(k, 0) + float(x)
            h.append({'k': 'N', 'v': ['1']} if g.chance(.12) else {'k': 'D', 'd': [[k, g.ex(x)] for k, x in s.items() if x]})
        return qz(rec, a, m, h, g.r.randrange(0, n + 1) if g.chance(.4) else 0)


def drive_func(rec, g, n):
    for _ in range(n):
        one(rec, g)


def replay_func(rec, c):
    func(rec, c['f'], c['a'], {k: v for k, v in c.items() if k not in ('o', 'f', 'a')})
