"""Drivers for arithmetic, comparison, conversion and the signature algebra (C01 C02 C03 C19)."""
import operator

import numpy as np

from core import *
import gen
from gen import Gen

BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv,
       'fdiv': operator.floordiv, 'mod': operator.mod, 'pow': operator.pow}
CMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}
UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}


def shares(r, args):
    return any(isinstance(r, np.ndarray) and isinstance(a, np.ndarray) and r.size and a.size and np.shares_memory(r, a)
               for a in args)


def binop(rec, o, recs):
    ex = {}
    args = None
    if o in BIN:
        f = BIN[o]

        def g(a, b):
            r = f(a, b)
            ex['al'] = bool(shares(r, (a, b)))
            return r
        call(rec, o, recs, g, ex)
    elif o in CMP:
        call(rec, o, recs, CMP[o], ex)
    elif o in UN:
        call(rec, o, recs[:1], UN[o], ex)


def call(rec, o, recs, fn, ex, **kw):
    """like Rec.call, with extra fields filled in by f while it runs"""
    try:
        args = [dec(r) for r in recs]
        e = {'o': o, 'a': [enc(a) for a in args]}
    except Exception as x:
        rec.event({'o': 'make', 'a': [], 'rec': json.dumps(recs), 'r': encerr(x)})
        return None
    r = None
    try:
        r = fn(*args)
        e['r'] = enc(r)
    except Exception as x:
        e['r'] = encerr(x)
    try:
        e['post'] = [enc(a) for a in args]
    except Exception as x:
        e['post'] = [encerr(x)]
    e.update(ex)
    e.update(kw)
    rec.event(e)
    return r


# ---- operands ------------------------------------------------------------------------------------------------------

SHIFT = [1, -1, 2, -2, 4, -4, 6, 8, -8, 10, 16, -16, 32, 0.5, -0.5, 0.25, 3, -3]
CMPU = ['cmp:m/s', 'cmp:kg*m**2', 'cmp:parsec/cc', 'cmp:m/s**2', 'cmp:mm*V', 'cmp:ft**0.5', 'cmp:1/cm', 'cmp:km/hour']


def operand(g, like=None, rel=None):
    """a random operand record; rel relates its units to those of `like`"""
    c = g.r.random()
    if rel in ('same', 'compat') and like is not None and like['k'] == 'Q':
        d = like['d'] if rel == 'same' else g.compatible(like['d'])
        sh = g.partner_shape(like['sh'])
        if len(d) == 1 and d[0][1] == '1' and g.chance(0.25) and not d[0][0].startswith('cmp:'):
            return g.u(d[0][0])
        if g.chance(0.08) and d and not any(k.startswith('cmp:') for k, _ in d):      # nearly the same signature
            d = [list(x) for x in d]
            x = g.pick(d)
            x[1] = g.ex(float(x[1]) + g.pick(SHIFT))
            d = [x for x in d if x[1] != '0']
            if abs(g.lgd(d)) > 60:
                d = like['d']
        if g.chance(0.1) and like.get('dt') not in ('c16', 'c8'):
            return g.x(d, sh)
        return g.q(d, sh)
    sh = g.partner_shape(like['sh']) if like is not None else None
    if c < 0.5:
        return g.q(None, sh)
    if c < 0.65:
        return g.u()
    if c < 0.72:
        return g.x(None, sh)
    if c < 0.76:
        return {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [[g.pick(sorted(CSTK)), '1']]}
    if c < 0.80:
        return {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [[g.pick(CMPU), '1']]}
    if c < 0.92:
        return g.n()
    return g.a(sh)


from gen import CST as CSTK


def plain(r):
    return r['k'] in ('A', 'N')


def dtset(*rs):
    return {r.get('dt', 'f8') for r in rs}


def okmix(o, a, b):
    """combinations outside the specified numeric domain (booleans, complex order, ...)"""
    ds = dtset(a, b)
    if plain(a) and plain(b):
        return False
    if 'b1' in ds and o not in ('mul', 'div'):
        return False
    if ds == {'b1'}:
        return False
    if 'c16' in ds and (o in ('mod', 'fdiv') or o in ('lt', 'le', 'gt', 'ge', 'pow')):
        return False
    if 'c16' in ds and any(v in ('inf', '-inf', 'nan') for r in (a, b) for v in r['v']):
        return False
    if any(r.get('t') == 'X' for r in (a, b)) and 'c16' in ds:
        return False
    if 'f4' in ds and any(r['k'] == 'Q' and abs(Gen.lgd(r['d'])) > 8 for r in (a, b)):
        return False
    if o in ('div', 'fdiv', 'mod') and 'f8' not in ds and any('0' in r['v'] for r in (b,)):
        return False
    if o in ('fdiv', 'mod') and any(v in ('inf', '-inf', 'nan') for r in (a, b) for v in r['v']):
        return False
    return True


def powexp(g, a):
    c = g.r.random()
    if c < 0.45:
        return {'k': 'N', 'dt': 'i8', 'sh': [], 'v': [g.pick(['0', '1', '2', '3', '-1', '-2', '4'])], 'np': g.chance(0.3)}
    if c < 0.65:
        return {'k': 'N', 'dt': 'f8', 'sh': [], 'v': [g.pick(['0.5', '2', '-0.5', '1.5', '0', '-1', '0.25', '0.125', '-0.25', '3.5'])], 'np': g.chance(0.3)}
    sh = g.partner_shape(a['sh'])
    dt = g.pick(['i8', 'f8'])
    if c < 0.78:
        v = g.pick(['2', '1', '3', '0', '-1'] if dt == 'i8' else ['0.5', '2', '-1', '0'])
        return {'k': 'A', 'dt': dt, 'sh': sh, 'v': [v] * g.size(sh)}
    if c < 0.86:
        return {'k': 'A', 'dt': dt, 'sh': sh, 'v': g.vals(sh, dt, special=0)}
    if c < 0.92:
        return {'k': 'Q', 't': 'Q', 'dt': dt, 'sh': sh, 'd': [], 'v': [g.pick(['2', '1', '3'])] * g.size(sh)}
    if c < 0.97:
        d = [[g.pick(['meter', 'radian', 'percent', 'second']), '1']]
        return {'k': 'Q', 't': 'Q', 'dt': dt, 'sh': sh, 'd': d, 'v': ['2'] * g.size(sh)}
    return g.u()


def clip_pow(a):
    for i, v in enumerate(a['v']):
        if '|' in v:
            continue
        if v not in ('inf', '-inf', 'nan') and abs(float(v)) > 1000:
            a['v'][i] = '3'
    return a


def drive_bin(rec, g, ops, n):
    for _ in range(n):
        o = g.pick(ops)
        a = operand(g)
        if o == 'pow':
            if plain(a) and g.chance(0.8):
                a = g.q()
            if a.get('t') == 'X' and g.chance(.5):
                a = g.q()
            b = powexp(g, a)
            clip_pow(a)
            clip_pow(b)
            if a['dt'] in ('c16',) and (b['dt'] != 'i8'):
                continue
            if a['dt'] in ('f4',):
                a['v'] = ['1.5' if abs(float(v)) > 50 or (v != '0' and abs(float(v)) < .01) else v for v in a['v']]
        elif o in ('mul', 'div', 'fdiv'):
            b = operand(g, a, g.pick([None, None, 'same', 'compat']))
        else:
            b = operand(g, a, g.pick([None, 'same', 'compat', 'compat']))
        if g.chance(0.35) and o != 'pow':
            a, b = b, a
        if o == 'pow' and a['k'] != 'Q' and b['k'] != 'Q':
            continue
        if o == 'pow' and (a.get('dt') == 'b1' or b.get('dt') == 'b1'):
            continue
        if not (o == 'pow' or okmix(o, a, b)):
            continue
        if o not in ('pow', 'fdiv') and not any(x['k'] == 'N' and x['v'][0].startswith('-') for x in (a, b)):   # NumPy refuses -2 + unsigned
            oddint(g, a, .12), oddint(g, b, .12)
        if o in CMP and g.chance(0.5) and a['k'] == 'Q' and b['k'] == 'Q' and b['t'] == 'Q' and a['t'] == 'Q':
            near(g, a, b)
        binop(rec, o, [a, b])


def oddint(g, a, p):
    """now and then an operand of unsigned or short integers"""
    if a.get('t') == 'Q' and a['dt'] in ('f8', 'i4', 'i8') and g.chance(p):
        a['dt'] = g.pick(['u4', 'u8', 'i2', 'u2'])
        a['v'] = g.vals(a['sh'], a['dt'])


def near(g, a, b):
    """make some elements physically equal"""
    from gen import U
    fa, fb = Gen.lgd(a['d']), Gen.lgd(b['d'])
    if a['dt'] != 'f8' or b['dt'] != 'f8':
        return
    for i in range(min(len(a['v']), len(b['v']))):
        if g.chance(0.6):
            v = a['v'][i]
            if v in ('inf', '-inf', 'nan'):
                continue
            x = float(v) * 10 ** (fa - fb)
            if abs(x - round(x)) < 1e-9 * max(1, abs(x)):
                x = round(x)
            b['v'][i] = repr(float(x)).replace('.0', '') if x == int(x) and abs(x) < 1e15 else repr(x)


def drive_un(rec, g, n):
    for _ in range(n):
        a = g.pick([g.q, g.q, g.q, g.u, g.x])()
        binop(rec, g.pick(['neg', 'pos', 'abs']), [a])


# ---- signatures ----------------------------------------------------------------------------------------------------

DIM = {'mul': operator.mul, 'div': operator.truediv, 'pow': operator.pow, 'add': operator.add, 'sub': operator.sub,
       'imul': operator.imul, 'idiv': operator.itruediv, 'ipow': operator.ipow, 'iadd': operator.iadd, 'isub': operator.isub,
       'eq': operator.eq, 'ne': operator.ne, 'hasheq': lambda a, b: hash(a) == hash(b), 'copy': lambda a: a.copy(),
       'simplified': lambda a: a.simplified, 'ndims': lambda a: a.ndims}


def encb(r):
    if isinstance(r, (bool, np.bool_)) and not isinstance(r, np.ndarray):
        return {'k': 'B', 'b': bool(r)}
    return enc(r)


def dimop(rec, f, recs, selfarg=False):
    try:
        args = [dec(r) for r in recs]
        if selfarg:
            args[1] = args[0]
    except Exception as x:
        rec.event({'o': 'make', 'a': [], 'rec': json.dumps(recs), 'r': encerr(x)})
        return
    e = {'o': 'dim', 'f': f, 'a': [enc(a) for a in args], 'self': selfarg}
    try:
        e['r'] = encb(DIM[f](*args))
    except Exception as x:
        e['r'] = encerr(x)
    e['post'] = [enc(a) for a in args]
    rec.event(e)


def drive_dim(rec, g, n):
    def D(d):
        return {'k': 'D', 'd': d}
    for _ in range(n):
        f = g.pick(sorted(DIM))
        a = g.dims(lim=200)
        if f in ('copy', 'simplified', 'ndims'):
            if abs(g.lgd(a)) > 60:
                continue
            dimop(rec, f, [D(a)])
            continue
        if f in ('pow', 'ipow'):
            b = g.pick([{'k': 'N', 'dt': 'i8', 'sh': [], 'v': [g.pick(['0', '1', '2', '-1', '3', '-2'])], 'np': g.chance(.4)},
                        {'k': 'N', 'dt': 'f8', 'sh': [], 'v': [g.pick(['0.5', '-0.5', '2', '0', '0.25', '1.5'])], 'np': g.chance(.4)},
                        {'k': 'A', 'dt': 'f8', 'sh': [2], 'v': ['1', '2']} if g.chance(0.2) else
                        {'k': 'N', 'dt': 'i8', 'sh': [], 'v': ['2']}])
            dimop(rec, f, [D(a), b])
            continue
        c = g.r.random()
        if c < 0.35:
            b = [[k, e] for k, e in a]
            g.r.shuffle(b)
            if b and g.chance(0.3):
                b[0][1] = g.pick(['1', '2', '-1', '0.5', '3']) if g.chance(.4) else g.ex(float(b[0][1]) + g.pick(SHIFT))
                b = [x for x in b if x[1] != '0']
        elif c < 0.45:
            b = [[k, g.ex(-float(e))] for k, e in a]
            for x in b:
                if g.chance(.3):
                    x[1] = g.ex(float(x[1]) + g.pick([0.25, -0.25, 0.125, 0.5, 1]))
            b = [x for x in b if x[1] != '0']
        elif c < 0.6:
            b = [[k, g.pick(['1', '-1', '2'])] for k, e in a[:1]] + g.dims(1, lim=200)
            b = [list(x) for x in dict((k, e) for k, e in b).items()]
        elif c < 0.65 and f not in ('eq', 'ne', 'hasheq'):
            dimop(rec, f, [D(a), g.pick([g.n('i8'), {'k': 'Z'}, g.u(), g.q(), {'k': 'S', 's': 'm'}])])
            continue
        elif c < 0.7:
            dimop(rec, f, [D(a), D(a)], selfarg=True)
            continue
        else:
            b = g.dims(lim=200)
        dimop(rec, f, [D(a), D(b)])


# ---- conversion ----------------------------------------------------------------------------------------------------

def spell(g, d):
    """one of the texts that denote signature d (labels from the reference catalogue)"""
    from gen import U
    parts = []
    num, den = [], []
    for k, e in d:
        if k not in U or not U[k]['labels']:
            return None
        l = g.pick(U[k]['labels'])
        f = float(e)
        p = g.pick(['**', '^'])
        if f < 0 and g.chance(0.6):
            den.append(l if f == -1 else l + p + g.ex(-f))
        else:
            num.append(l if f == 1 else l + p + (g.ex(f) if f > 0 or p == '**' else g.ex(f)))
    m = g.pick(['*', '*', ' * ', '·'])
    s = m.join(num) or ('1' if den else '')
    if den:
        s += '/' + (den[0] if len(den) == 1 else '(' + m.join(den) + ')' if g.chance(0.7) else '/'.join(den))
    return s


def target(g, d, wrong=0.12):
    """a unit argument that fits signature d"""
    t = g.compatible(d) if not g.chance(wrong) else g.dims()
    if g.chance(0.1):
        t = d
    c = g.r.random()
    if c < 0.35:
        s = spell(g, t)
        if s is not None:
            return {'k': 'S', 's': s}
    if c < 0.5 and len(t) == 1 and t[0][1] == '1':
        return g.u(t[0][0])
    if c < 0.75:
        return {'k': 'D', 'd': t}
    if c < 0.95:
        return {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': g.pick([[], [], [1]]), 'd': t, 'v': ['1']}
    return {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': t, 'v': [g.pick(['2', '0', '1.5', '-1'])]}


def rescale(rec, recs, dt=None):
    ex = {}

    def f(q, to):
        r = q.rescale(to) if dt is None else q.rescale(to, dtype=dt)
        ex['al'] = bool(shares(r, (q, to)))
        return r
    call(rec, 'rescale', recs, f, ex, **({'dt': np.dtype(dt).str[1:]} if dt else {}))


def simplified(rec, recs):
    ex = {}

    def f(q):
        r = q.simplified
        ex['al'] = bool(shares(r, (q,)))
        return r
    call(rec, 'simplified', recs, f, ex)


def twins():
    """different units and constants which are printed alike"""
    by, m = {}, dict(gen.U, **gen.CST)
    for k, u in m.items():
        for s in {u.get('sym') or u['name'], u.get('usym') or u['name'], u['name']}:
            by.setdefault(s, set()).add(k)
    return sorted({(a, b) for l in by.values() for a in l for b in l if (m[a]['f'], m[a]['b']) != (m[b]['f'], m[b]['b'])})


def drive_twins(rec, g, ops, shard, nsh):
    for a, b in twins()[shard::nsh]:
        for e in ('1', '-2', '0.5'):
            x, y = g.q([[a, e]], [], 'f8', 0), g.q([[b, e]], [], 'f8', 0)
            if g.chance(.3):
                y['v'] = x['v']
            if e == '1' and g.chance(.5):
                x = g.u(a) if g.chance(.5) else x
                y = g.u(b)
            if 'conv' in ops:
                rescale(rec, [x, {'k': 'D', 'd': y['d']}] if g.chance(.5) or y['t'] != 'U' else [x, y])
            for o in ops:
                if o != 'conv':
                    binop(rec, o, [x, y])


def drive_conv(rec, g, n):
    for _ in range(n):
        c = g.r.random()
        a = g.x() if c < 0.1 else g.u() if c < 0.2 else g.q()
        if g.chance(0.05):
            a = {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [[g.pick(CMPU), '1']]}
        if a['dt'] == 'f4' and abs(g.lgd(a['d'])) > 6:
            continue
        oddint(g, a, .12)
        c = g.r.random()
        if c < 0.6:
            to = target(g, a['d'])
            if a['dt'] == 'f4' and to.get('d') is not None and abs(g.lgd(to['d']) - g.lgd(a['d'])) > 8:
                continue
            if a['dt'] == 'f4' and to['k'] == 'S':
                continue
            dt = None
            if g.chance(0.1):
                dt = g.pick(['f8', 'f4', 'i8']) if a['dt'] != 'c16' and abs(g.lgd(a['d'])) < 3 else 'c16'
                if dt == 'f4' and (to.get('d') is None or abs(g.lgd(to['d'])) > 3):
                    dt = 'f8'
                if dt in ('i8', 'c16') and any(v in ('nan', 'inf', '-inf') for v in a['v']):
                    dt = None
            rescale(rec, [a, to], dt)
        elif c < 0.8:
            simplified(rec, [a])
        elif c < 0.92:
            if g.chance(0.6):
                k = g.unit()
                a = g.q([[k, '1']] + [[x, '-1'] for x, _ in g.compatible([[k, '1']])]) if g.chance(.7) else \
                    g.q([[g.pick(['percent', 'radian', 'arcdegree', 'count']), g.pick(['1', '2', '-1'])]])
                a['d'] = [list(x) for x in {k: e for k, e in a['d']}.items()]
            call(rec, 'dimless', [a], lambda q: q.dimensionless_magnitude, {})
        else:
            call(rec, 'mag', [a], lambda q: q.magnitude, {})


# ---- replay of model cases -----------------------------------------------------------------------------------------

def replay(rec, c):
    o = c['o']
    if o in BIN or o in CMP or o in UN:
        binop(rec, o, c['a'])
    elif o == 'dim':
        dimop(rec, c['f'], c['a'])
    elif o == 'rescale':
        rescale(rec, c['a'])
    elif o == 'simplified':
        simplified(rec, c['a'])
    elif o == 'dimless':
        call(rec, 'dimless', c['a'], lambda q: q.dimensionless_magnitude, {})
    else:
        raise KeyError(o)
