"""Drivers for constructors and accessors (C21)."""
from core import *
from gen import Gen, EXPS

DTP = ['', '', '', '', 'f8', 'i8', 'f4', 'c16', 'i4', 'b1', 'f2', 'u1', 'i2']


def mess(q, uargs):
    """change everything the quantity hands out, and the objects given as units"""
    d = q.dimensionality
    d *= pq.kg.dimensionality
    q.dimensionality.clear()
    q.dimensionality.update({pq.V: 2})
    d2 = q.dimensionality
    d2 /= pq.s.dimensionality
    d2 **= 3
    u = q.units
    for f in (lambda: u.__imul__(3), lambda: u.__imul__(pq.A), lambda: u.fill(7 * pq.mol), lambda: u.dimensionality.clear()):
        if isinstance(u, UnitQuantity):
            break
        try:
            f()
        except Exception:
            pass
    for a in uargs:
        if isinstance(a, Dimensionality):
            a *= pq.K.dimensionality
            a.clear()
        elif isinstance(a, Quantity) and not isinstance(a, UnitQuantity):
            try:
                a *= pq.K
                a *= 5
            except Exception:
                pass


def acc(q):
    return {'mag': enc(q.magnitude), 'dim': enc(q.dimensionality), 'units': enc(q.units), 'real': enc(q.real), 'imag': enc(q.imag),
            'shape': list(q.shape), 'size': q.size, 'ndim': q.ndim}


def fresh(rec):
    """an argument which is not kept anywhere else"""
    return dec(rec)


def ctor(rec, f, recs, dtp='', how=0):
    try:
        args = [fresh(r) for r in recs]
        e = {'o': 'ctor', 'f': f, 'dtp': dtp, 'a': [enc(a) for a in args]}
    except Exception as x:
        rec.event({'o': 'make', 'a': [], 'rec': json.dumps(recs), 'r': encerr(x)})
        return
    kw = {'dtype': dtp} if dtp else {}
    try:
        if f == 'quantity':
            if how == 1:
                q = Quantity(args[0], units=args[1], **kw)
            elif how == 2 and recs[1] == {'k': 'S', 's': ''}:
                q = Quantity(args[0], **kw)
            else:
                q = Quantity(args[0], args[1], **kw)
        elif f == 'uncertain':
            if how == 1:
                q = UncertainQuantity(args[0], uncertainty=args[2], units=args[1], **kw)
            elif how == 2 and args[2] is None:
                q = UncertainQuantity(args[0], args[1], **kw)
            else:
                q = UncertainQuantity(args[0], args[1], args[2], **kw)
        elif f == 'div':
            q = args[0] / args[1]
        else:
            q = args[0] * args[1]
        e['r'] = enc(q)
        e['post'] = [enc(a) for a in args]
        if isinstance(q, Quantity):
            e['acc'] = acc(q)
            mess(q, args[1:2] if f in ('quantity', 'uncertain') else [])
            e['aft'] = enc(q)
            e['acc2'] = acc(q)
    except Exception as x:
        e['r'] = encerr(x)
        e['post'] = [enc(a) for a in args]
    rec.event(e)


# ---- operands ------------------------------------------------------------------------------------------------------

def nest(g, sh, kind):
    if not sh:
        return {'k': 'N', 'dt': kind if kind != 'mix' else g.pick(['i8', 'f8', 'b1', 'f8', 'c16'] if g.chance(.2) else ['i8', 'f8']), 'sh': [], 'v': None}
    n = sh[0]
    if g.chance(0.04):
        n += 1
    return {'k': 'L', 'c': g.pick(['list', 'list', 'tuple']), 'l': [nest(g, sh[1:], kind) for _ in range(n)]}


def fill(g, x):
    if x['k'] == 'L':
        for y in x['l']:
            fill(g, y)
    else:
        x['v'] = [g.value(x['dt'], special=0.03)]
    return x


def data(g):
    c = g.r.random()
    if c < 0.3:
        sh = g.pick([[2], [3], [2, 2], [2, 3], [1], [0], [1, 2], [2, 1, 2], [2, 0]])
        kind = g.pick(['i8', 'f8', 'f8', 'mix', 'c16', 'b1'])
        x = fill(g, nest(g, sh, kind))
        if g.chance(0.06) and x['l']:            # ragged
            x['l'].append(g.pick([g.n('f8', npy=False), {'k': 'L', 'l': [g.n('f8', npy=False)] * 2}]))
        return x
    if c < 0.36:
        sh = g.shape()
        dt = g.pick(['f8', 'i8'])
        return {'k': 'L', 'l': [g.a(sh, dt) for _ in range(g.pick([1, 2]))]}
    if c < 0.62:
        dt = g.pick(['f8', 'f8', 'i8', 'f4', 'c16', 'b1', 'i2', 'u1', 'f2', 'u8', 'c8'])
        a = g.a(None, dt) if dt not in ('f2', 'u8', 'c8', 'i2', 'u1') else {'k': 'A', 'dt': dt, 'sh': g.shape()}
        if 'v' not in a:
            a['v'] = [g.pick(['0', '1', '2', '7', '12', '100']) for _ in range(g.size(a['sh']))]
        if a['sh'] and g.chance(0.2):
            a['lay'] = g.pick(['F', 'step', 'rev'])
        return a
    if c < 0.72:
        return g.n(g.pick(['f8', 'i8', 'b1', 'c16', 'f4']), npy=g.chance(0.4)) if True else None
    if c < 0.76:
        return g.u()
    if c < 0.82:
        return g.x()
    if c < 0.87:
        dt = g.pick(['b1', 'i2', 'u1', 'f4', 'u4', 'u8', 'c8'])
        q = dict(g.q(None if g.chance(.6) else [], dt='f8'), dt=dt)
        q['v'] = [g.pick(['0', '1']) if dt == 'b1' else g.pick(['0', '1', '2', '7', '12', '100']) for _ in q['v']]
        return q
    return g.q()


def uarg(g, like=None):
    c = g.r.random()
    if like is not None and like['k'] == 'Q' and c < 0.75:
        d = g.compatible(like['d']) if g.chance(0.7) else like['d']
    else:
        d = g.dims()
    c = g.r.random()
    if c < 0.3:
        return {'k': 'D', 'd': d}
    if c < 0.5:
        return {'k': 'Q', 't': 'Q', 'dt': g.pick(['f8', 'f8', 'i8', 'f4']), 'sh': g.pick([[], [], [1]]), 'v': ['1'], 'd': d}
    if c < 0.7:
        try:
            return {'k': 'S', 's': str(decd(d).string) if d else g.pick(['', 'dimensionless', ''])}
        except Exception:
            return {'k': 'S', 's': 'm'}
    if c < 0.84:
        if len(d) == 1 and d[0][1] == '1':
            return g.u(d[0][0])
        return {'k': 'S', 's': ' * '.join('%s**%s' % (k, '(%s)' % e) for k, e in d)} if d else {'k': 'Z'}
    return g.pick([{'k': 'Z'}, {'k': 'S', 's': ''}, {'k': 'D', 'd': []}, {'k': 'S', 's': 'nounit'}, {'k': 'S', 's': '3*m'}, g.n('f8', special=0),
                   {'k': 'N', 'dt': 'i8', 'sh': [], 'v': ['0']}, {'k': 'N', 'dt': 'i8', 'sh': [], 'v': ['1']}, {'k': 'L', 'l': []}, {'k': 'L', 'l': [{'k': 'S', 's': 'm'}]},
                   {'k': 'A', 'dt': 'f8', 'sh': [], 'v': ['1']}, {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'v': [g.pick(['2', '0', '-1', 'nan', '0.5'])], 'd': d},
                   {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [2], 'v': ['1', '1'], 'd': d}, {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [1, 1], 'v': ['1'], 'd': d},
                   {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [0], 'v': [], 'd': d}, {'k': 'P', 'p': g.pick(['obj', 'dict', 'set'])}, {'k': 'S', 's': 'm +'}, {'k': 'S', 's': 'm/s/nounit'},
                   g.u('const:planck_constant') if False else g.u()])


def drive_ctor(rec, g, n):
    for _ in range(n):
        c = g.r.random()
        x = data(g)
        if c < 0.55:
            cplx = 'c' in json.dumps(x.get('dt', '')) or x['k'] == 'L'
            dtp = g.pick(DTP)
            if cplx and g.chance(0.7):
                dtp = g.pick(['', 'c16'])
            ctor(rec, 'quantity', [x, uarg(g, x)], dtp, g.pick([0, 0, 1, 2]))
        elif c < 0.75:
            while x['k'] == 'Q' or x.get('np') and x['k'] == 'N' and False:
                x = data(g)
            u = g.u() if g.chance(0.75) else {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [[g.pick(['cmp:m/s', 'cmp:kg*m**2', 'cmp:1/cm']), '1']]}
            f = g.pick(['mul', 'mul', 'rmul', 'div'])
            ctor(rec, f, [u, x] if f == 'rmul' else [x, u])
        else:
            while json.dumps(x).find('"c') > 0 and ('"c16"' in json.dumps(x) or '"c8"' in json.dumps(x)):
                x = data(g)
            try:
                sh = list(np.shape(dec(x)))
            except Exception:
                sh = [2]
            if g.chance(0.1):
                sh = g.shape()
            c2 = g.r.random()
            u = uarg(g, x)
            if c2 < 0.25:
                w = {'k': 'Z'}
            elif c2 < 0.5:
                w = g.q(g.compatible(u['d']) if u.get('d') else (g.compatible(x['d']) if x.get('d') else None), sh, g.pick(['f8', 'i8']), nonneg=True, special=0)
            elif c2 < 0.75:
                w = {'k': 'A', 'dt': 'f8', 'sh': sh, 'v': g.vals(sh, 'f8', nonneg=True, special=0)}
            elif c2 < 0.9 or not sh:
                w = g.n(g.pick(['f8', 'i8']), special=0, npy=False)
                w['v'] = [g.value(w['dt'], special=0, nonneg=True)]
            else:
                w = {'k': 'L', 'l': [g.n('f8', special=0, npy=False) for _ in range(sh[0])]}
                for y in w['l']:
                    y['v'] = [g.value('f8', special=0, nonneg=True)]
            ctor(rec, 'uncertain', [x, u, w], g.pick(['', '', '', 'f8', 'f4']), g.pick([0, 0, 1, 2]))
