"""Drivers for uncertain quantities (C16)."""
import copy
import operator
import pickle
from core import *
from gen import Gen, U
from d_calc import call
from d_method import invoke
BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'pow': operator.pow}
UFN = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.true_divide, 'pow': np.power}
UF1 = {'neg': np.negative, 'abs': np.absolute, 'sqrt': np.sqrt, 'square': np.square, 'reciprocal': np.reciprocal}
OUTRED = ['sum', 'nansum', 'mean', 'nanmean', 'max', 'min', 'nanmax', 'nanmin']
NEG = {k for k, u in U.items() if u['f'].startswith('-')}


def kinds():
    return {'neg': operator.neg, 'abs': abs, 'sqrt': lambda x: x.sqrt(), 'square': np.square, 'reciprocal': np.reciprocal,
            'simplified': lambda x: x.simplified, 'copy': lambda x: x.copy(), 'ccopy': copy.copy, 'deepcopy': copy.deepcopy,
            'pickle': lambda x: pickle.loads(pickle.dumps(x)), 'astype': lambda x: x.astype(x.dtype),
            'relative': lambda x: x.relative_uncertainty}


def keyof(k):
    """an index from its record, or from its text"""
    if isinstance(k, str):
        return np.array([c == '1' for c in k[4:]]).reshape(2, -1) if k[:4] == 'mask' else eval('np.s_[%s]' % k)
    if k['i'] == 'int':
        return k['n']
    if k['i'] == 'slice':
        return slice(*k['n'])
    if k['i'] == 'tuple':
        return tuple(keyof(x) for x in k['n'])
    if k['i'] == 'list':
        return list(k['n'])
    if k['i'] == 'mask':
        return np.array(k['n'], dtype=bool).reshape(k['sh'])
    if k['i'] == 'ell':
        return Ellipsis
    if k['i'] == 'new':
        return None
    raise KeyError(k)


def imap(sh, key):
    n = 1
    for s in sh:
        n *= s
    r = np.arange(n).reshape(sh)[key]
    return {'sh': list(np.shape(r)), 'ix': [int(x) for x in np.ravel(r)]}


def randkey(g, sh, fancy=True):
    if not sh:
        return {'i': g.pick(['ell', 'tuple', 'new']), 'n': []}
    n = sh[0]
    c = g.r.random()
    if c < .3 and n:
        return {'i': 'int', 'n': g.r.randrange(-n, n)}
    if c < .6:
        return {'i': 'slice', 'n': g.pick([[None, None, None], [1, None, None], [None, -1, None], [None, None, 2], [None, None, -1], [0, 2, None], [0, 0, None]])}
    if c < .75 and len(sh) > 1:
        return {'i': 'tuple', 'n': [randkey(g, [sh[0]], False), randkey(g, [sh[1]], False)]}
    if c < .85 and fancy and n:
        return {'i': 'list', 'n': [g.r.randrange(-n, n) for _ in range(g.pick([1, 2, 3]))]}
    if c < .93 and fancy:
        return {'i': 'mask', 'sh': sh, 'n': [g.chance(.5) for _ in range(Gen.size(sh))]}
    if not fancy:
        return {'i': 'slice', 'n': [None, None, None]}
    return {'i': g.pick(['ell', 'new']), 'n': []}


def unc(rec, f, recs, p=None, via='op', out=None):
    p = dict(p or {})
    ex = {}

    def go(*a):
        o = dec(out)
        ex['out'] = enc(o)
        ex['is'] = False
        try:
            if via == 'ufunc':
                r = (UFN[f] if f in UFN else UF1[f])(*a, out=o)
            elif f == 'sqrt':
                r = a[0].sqrt(out=o)
            else:
                r = invoke(f, a[0], [], p, 'method', o)
            ex['is'] = r is o
            return r
        finally:
            ex['opost'] = enc(o)

    def g(*a):
        q = a[0]
        if f in BIN:
            r = (BIN if via == 'op' else UFN)[f](*a)
        elif f == 'rescale':
            r = q.rescale(a[1])
        elif f == 'make':
            un = a[1]
            r = UncertainQuantity(q, un, a[2])
        elif f == 'get':
            key = keyof(p['key'])
            try:
                ex['im'] = imap(list(q.shape), key)
            except Exception:
                ex['im'] = {'sh': [-1], 'ix': []}
            r = q[key]
        elif f == 'setunc':
            r = q.copy()
            try:
                r.uncertainty = a[1]
            except Exception:
                ex['kept'] = enc(r)
                raise
        elif f in kinds():
            r = kinds()[f](q)
        else:
            r = invoke(f, q, [], p, 'method')
        if isinstance(r, np.ndarray):
            pool = [x for x in a if isinstance(x, np.ndarray)]
            pool += [x.uncertainty for x in pool if isinstance(x, UncertainQuantity)]
            mine = [r] + ([r.uncertainty] if isinstance(r, UncertainQuantity) else [])
            ex['al'] = bool(any(np.shares_memory(x, y) for x in pool for y in mine)) if f not in ('make', 'setunc') else False
        return r
    kw = dict(ax=[], ddof=0)
    kw.update({k: v for k, v in p.items() if k != 'pos'})
    if 'key' in kw:
        kw['key'] = json.dumps(kw['key'])
    return call(rec, 'unc', recs, g if out is None else go, ex, f=f, via=via, **kw)


def output(rec, g, a):
    """an operation which stores its result in an output argument"""
    nd = len(a['sh'])
    f = g.pick(OUTRED * 2 + ['take', 'take', 'sqrt', 'add', 'sub', 'mul', 'div', 'pow', 'neg', 'abs', 'square', 'reciprocal', 'ufsqrt'])
    via = 'op' if f in OUTRED + ['take', 'sqrt'] else 'ufunc'
    f = 'sqrt' if f == 'ufsqrt' else f
    if f in ('sqrt', 'pow', 'square', 'reciprocal', 'mul', 'div') and (abs(Gen.lgd(a['d'])) > 30 or any(abs(float(v)) > 1e40 for v in a['v'])):
        return
    p, recs, sh = {}, [a], a['sh']
    if not Gen.size(sh):
        return
    z = np.zeros(sh)
    a.pop('lay', None)
    if f in OUTRED:
        p['ax'] = [] if not nd or g.chance(.3) else [g.pick(list(range(-nd, nd)))]
        p['pos'] = g.chance(.3)
        sh = list(np.sum(z, p['ax'][0] if p['ax'] else None).shape)
    elif f == 'take':
        p['ax'] = [] if not nd or g.chance(.4) else [g.pick(list(range(-nd, nd)))]
        m = a['sh'][p['ax'][0]] if p['ax'] else g.size(a['sh'])
        p['ish'] = g.pick([[2], [3], [], [2, 2], [1]])
        p['ind'] = [g.r.randrange(-m, m) for _ in range(g.size(p['ish']))]
        sh = list(np.take(z, np.zeros(p['ish'], dtype=int), axis=p['ax'][0] if p['ax'] else None).shape)
    elif f in BIN:
        if f == 'pow':
            e = g.pick(['2', '3', '-1', '0.5', '-2', '0', '1', '1.5'])
            if '.' in e:
                a['v'] = [v.lstrip('-') for v in a['v']]
            recs = [a, {'k': 'N', 'dt': 'f8' if '.' in e else 'i8', 'sh': [], 'v': [e]}]
        else:
            d = a['d'] if f in ('add', 'sub') else xdims(g)
            b = g.x(d) if g.chance(.6) else g.q(d, special=0, dt='f8')
            b.pop('lay', None)
            recs = [a, b] if g.chance(.6) else [b, a]
        try:
            sh = list(np.broadcast_shapes(recs[0]['sh'], recs[1]['sh']))
        except ValueError:
            return
    elif f == 'sqrt':
        a['v'] = [v.lstrip('-') for v in a['v']]
    if via != 'ufunc' and g.chance(.08):
        sh = [7]
    d = a['d'] if g.chance(.4) else xdims(g)
    c = g.r.random()
    out = g.x(d, sh) if c < .65 else g.q(d, sh, 'f8', 0) if c < .9 or via == 'ufunc' else g.a(sh, 'f8', 0)
    out.pop('lay', None)
    unc(rec, f, recs, p, via, out)


def xdims(g, *a):
    while True:
        d = g.dims(*a)
        if not any(k in NEG or k.startswith('cmp') or k.startswith('const') for k, _ in d):
            return d


def xcompat(g, d):
    for _ in range(20):
        e = g.compatible(d, 15)
        if not any(k in NEG for k, _ in e):
            return e
    return d


def other(g, d):
    c = g.r.random()
    if c < .4:
        return g.x(d)
    if c < .65:
        return g.q(d, special=0, dt=g.pick(['f8', 'f8', 'i8']))
    if c < .75 and len(d) == 1 and d[0][1] == '1':
        return g.u(d[0][0])
    if c < .88:
        return g.n(g.pick(['f8', 'i8']), special=0)
    return g.a(dt=g.pick(['f8', 'i8']), special=0)


def step(rec, g, a):
    """one random operation on the uncertain quantity of record a; the live result"""
    nd = len(a['sh'])
    f = g.pick(list(BIN) * 4 + ['setunc'] * 3 + ['sum', 'nansum', 'mean', 'nanmean', 'max', 'min', 'nanmax', 'nanmin'] * 2 + list(kinds()) +
               ['rescale', 'rescale', 'rescale', 'get', 'get', 'get', 'reshape', 'ravel', 'flatten', 'T', 'transpose', 'swapaxes', 'squeeze', 'take',
                'repeat', 'diagonal'])
    p = {}
    recs = [a]
    if f in ('add', 'sub'):
        d = a['d'] if g.chance(.3) else xcompat(g, a['d']) if g.chance(.85) else xdims(g)
        b = other(g, d)
        recs = [a, b] if g.chance(.6) else [b, a]
    elif f in ('mul', 'div'):
        if abs(Gen.lgd(a['d'])) > 40 or any(abs(float(v)) > 1e80 for v in a['v']):
            return None
        b = other(g, xdims(g))
        recs = [a, b] if g.chance(.5) else [b, a]
    elif f == 'pow':
        e = g.pick(['2', '3', '-1', '0.5', '-2', '0', '1', '1.5', '-0.5'])
        if abs(Gen.lgd(a['d']) * float(e)) > 60 or any(abs(float(v)) > 1e40 for v in a['v']):
            return None
        if '.' in e:
            a['v'] = [v.lstrip('-') for v in a['v']]
        b = {'k': 'N', 'dt': 'f8' if '.' in e else 'i8', 'sh': [], 'v': [e]}
        recs = [a, b]
    elif f in ('sqrt', 'square', 'reciprocal'):
        if abs(Gen.lgd(a['d'])) > 30 or any(abs(float(v)) > 1e40 for v in a['v']):
            return None
        if f == 'sqrt':
            a['v'] = [v.lstrip('-') for v in a['v']]
    elif f == 'rescale':
        d = xcompat(g, a['d']) if g.chance(.92) else xdims(g)
        recs = [a, {'k': 'D', 'd': d} if len(d) != 1 or d[0][1] != '1' or g.chance(.5) else g.u(d[0][0])]
    elif f == 'setunc':
        d = a['d'] if g.chance(.3) else xcompat(g, a['d']) if g.chance(.9) else xdims(g)
        b = g.q(d, a['sh'] if g.chance(.93) else g.shape(), g.pick(['f8', 'f8', 'i8']), 0, True)
        if g.chance(.2):
            b = g.a(b['sh'], b['dt'], 0) if b['sh'] else g.n('f8', 0, False)
            b['v'] = [w.lstrip('-') for w in b['v']]
        recs = [a, b]
    elif f == 'get':
        p['key'] = randkey(g, a['sh'])
    elif f in ('sum', 'nansum', 'mean', 'nanmean', 'max', 'min', 'nanmax', 'nanmin'):
        if not Gen.size(a['sh']):
            return None
        p['ax'] = [] if not nd or g.chance(.4) else [g.pick(list(range(-nd, nd)))]
        if f in ('sum', 'nansum') and nd > 1 and g.chance(.1):
            p['ax'] = [0, 1]
        if f in ('sum', 'nansum', 'mean', 'nanmean') and g.chance(.25):
            p['dtp'] = g.pick(['i8', 'f4', 'f8', 'i8'] if f[:3] != 'nan' else ['f4', 'f8'])
            if p['dtp'] == 'i8' and any(v in ('nan', 'inf', '-inf') or abs(float(v)) > 1e9 for v in a['v']) or p['dtp'] == 'f4' and any(abs(float(v)) > 1e9 or v != '0' and abs(float(v)) < 1e-9 for v in a['v']):
                del p['dtp']
    elif f == 'reshape':
        s = g.size(a['sh'])
        p['sh2'] = g.pick([[s], [1, s], [s, 1]] + [[i, s // i] for i in range(1, s + 1) if s % i == 0])
    elif f == 'transpose':
        if not nd:
            return None
        p['perm'] = list(range(nd))
        g.r.shuffle(p['perm'])
    elif f == 'swapaxes':
        if not nd:
            return None
        p['ax'] = [g.pick(list(range(-nd, nd))), g.pick(list(range(-nd, nd)))]
    elif f == 'take':
        if not Gen.size(a['sh']):
            return None
        p['ax'] = [] if not nd or g.chance(.4) else [g.pick(list(range(-nd, nd)))]
        m = a['sh'][p['ax'][0]] if p['ax'] else g.size(a['sh'])
        p['ish'] = g.pick([[2], [3], [], [2, 2], [1]])
        p['ind'] = [g.r.randrange(-m, m) for _ in range(g.size(p['ish']))]
    elif f == 'repeat':
        p['ax'] = [] if not nd or g.chance(.4) else [g.pick(list(range(-nd, nd)))]
        p['n'] = g.pick([1, 2, 3])
    elif f == 'diagonal':
        if nd < 2:
            return None
        p['off'] = g.pick([0, 0, 1, -1])
    for r in recs:
        if r.get('dt') == 'i8' and f in ('div',) and r['k'] != 'Q':
            pass
    return unc(rec, f, recs, p, 'ufunc' if f in UFN and g.chance(.2) and recs[0].get('t') == 'X' and (f in ('mul', 'div')) else 'op')


def ok(r):
    """fit to go on with"""
    if not isinstance(r, UncertainQuantity):
        return None
    e = enc(r)
    e.pop('ush', None)
    e.pop('ud', None)
    if e['dt'] != 'f8' or len(e['v']) > 12 or len(e['d']) > 4 or len(e['sh']) > 3 or abs(Gen.lgd(e['d'])) > 40:
        return None
    for v in e['v'] + e['u']:
        if not np.isfinite(float(v)) or (v != '0' and not 1e-25 < abs(float(v)) < 1e25):
            return None
    if len(e['u']) != len(e['v']) or any(len(x[1]) > 5 for x in e['d']):
        return None
    return e


def drive_out(rec, g, n):
    for _ in range(n):
        b = g.x(xdims(g))
        if g.chance(.1) and Gen.size(b['sh']) > 1:
            b['v'][g.r.randrange(len(b['v']))] = 'nan'
        output(rec, g, b)


def drive_unc(rec, g, n):
    drive_out(rec, g, n // 8)
    a = None
    for _ in range(n):
        if a is None or g.chance(.3):
            a = g.x(xdims(g))
            if g.chance(.12) and Gen.size(a['sh']) > 1:
                a['v'][g.r.randrange(len(a['v']))] = 'nan'
            if g.chance(.2) and a['d']:
                d = a['d']
                base = g.q(d if g.chance(.5) else xcompat(g, d) if g.chance(.9) else xdims(g), a['sh'], 'f8', 0)
                un = g.q(d if g.chance(.5) else xcompat(g, d) if g.chance(.9) else xdims(g), a['sh'] if g.chance(.95) else [7], 'f8', 0, True)
                if g.chance(.3):
                    base = g.a(a['sh'], 'f8', 0)
                if g.chance(.3):
                    un['k'] = 'A' if un['sh'] else 'N'
                unc(rec, 'make', [base, {'k': 'D', 'd': d}, un])
                continue
        r = step(rec, g, a)
        a = ok(r) if r is not None else None
