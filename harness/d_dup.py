"""Copies and pickles of every kind of object (C10), nested lists and iteration (C13)."""
import copy
import pickle
import subprocess
import tempfile

from core import *
from gen import Gen, CST, U
from d_calc import CMPU
from quantities import markup

HOWS = ['copy', 'ccopy', 'deepcopy', 'p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'npcopy', 'reduce', 'pu', 'cu']


def fp(x):
    """everything observable of an object's state"""
    if isinstance(x, dict):
        return {'cls': 'dict', 'l': [[str(k), fp(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return {'cls': type(x).__name__, 'l': [fp(v) for v in x]}
    r = {'cls': type(x).__name__, 'x': enc(x)}
    if isinstance(x, UnitQuantity):
        d = x.definition
        r.update(name=x.name, sym=x.symbol, usym=x.u_symbol, ord=[str(o) for o in x.format_order],
                 df={'k': 'Z'} if d is x else enc(d), dfc='self' if d is x else type(d).__name__)
    if isinstance(x, UncertainQuantity):
        r['udt'] = x.uncertainty.dtype.str
        r['ucls'] = type(x.uncertainty).__name__
    if isinstance(x, np.ndarray):
        r['f'] = bool(x.flags.writeable)
    return r


def text_of(x):
    out = []
    for uni in (False, True):
        old = markup.config.use_unicode
        markup.config.use_unicode = uni
        try:
            out += [str(x), repr(x)] + ([x.unicode, x.latex, x.html] if isinstance(x, Dimensionality) else [])
        finally:
            markup.config.use_unicode = old
    return out


def inter(x, y):
    """how the copy y gets on with the original x"""
    if isinstance(x, dict):
        return {'l': [inter(x[k], y[k]) for k in x]}
    if isinstance(x, (list, tuple)):
        return {'l': [inter(a, b) for a, b in zip(x, y)]}
    r = {'text': text_of(x) == text_of(y)}
    dx, dy = (x, y) if isinstance(x, Dimensionality) else (x.dimensionality, y.dimensionality) if isinstance(x, Quantity) else (None, None)
    if dx is not None:
        r['eq'] = bool(dx == dy) and bool(dy == dx) and not dx != dy
        r['hash'] = hash(dx) == hash(dy)
        r['quot'] = encd(dx / dy)
    if isinstance(x, UnitQuantity):
        r['ueq'] = bool(x == y)
        r['prod'] = [enc(2.0 * x), enc(2.0 * y)]
        r['sum'] = enc(1.0 * x + 1.0 * y)
        r['cmp'] = bool(x <= y and x >= y)
    return r


def mutate(x, k):
    """change an object in place, as a program may"""
    if isinstance(x, dict):
        for v in x.values():
            mutate(v, k)
        return
    if isinstance(x, (list, tuple)):
        for v in x:
            mutate(v, k)
        return
    if isinstance(x, UnitQuantity):
        return
    if isinstance(x, Dimensionality):
        if k % 2:
            x[pq.s] = 5
        else:
            x *= pq.m.dimensionality
        return
    if isinstance(x, Quantity):
        try:
            if k % 5 == 0:
                x *= 3
            elif k % 5 == 1:
                x[...] = 7 * x.units
            elif k % 5 == 2:
                x.units = x.simplified.units
            elif k % 5 == 3:
                x.magnitude[...] = 5
            else:
                x /= pq.s
            if isinstance(x, UncertainQuantity):
                if k % 2:
                    x.uncertainty[...] = 9 * x.units
                else:
                    x.uncertainty = np.ones(x.shape) * x.units
        except Exception:
            pass
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'iuf':
        x[...] = 3


def duplicate(x, how):
    if how == 'copy':
        return x.copy() if hasattr(x, 'copy') else copy.copy(x)
    if how == 'ccopy':
        return copy.copy(x)
    if how == 'deepcopy':
        return copy.deepcopy(x)
    if how == 'npcopy':
        return np.array(x, copy=True, subok=True) if isinstance(x, Quantity) and not isinstance(x, UnitQuantity) else copy.deepcopy(x)
    if how == 'reduce':
        return copy.deepcopy([x, (x,)])[1][0]
    if how in ('pu', 'cu'):
        # while units are printed in unicode
        markup.config.use_unicode = True
        try:
            return pickle.loads(pickle.dumps(x)) if how == 'pu' else copy.deepcopy(copy.copy(x))
        finally:
            markup.config.use_unicode = False
    return pickle.loads(pickle.dumps(x, int(how[1:])))


def build(r):
    if r['k'] == 'C':
        xs = [build(y) for y in r['l']]
        for i, j in r.get('same', []):
            xs[j] = xs[i]
        return {'list': list, 'tuple': tuple}[r['c']](xs) if r['c'] != 'dict' else {'k%d' % i: v for i, v in enumerate(xs)}
    if r['k'] == 'NU':                   # a unit of the user's own
        if r['name'] not in units():
            units()[r['name']] = getattr(pq.unitquantity, r['cls'])(r['name'], None if r['def'] is None else dec(r['def']), r['sym'] or None, r['usym'] or None, list(r['al']))
        u = units()[r['name']]
        return u if r['as'] == 'u' else 2.5 * u if r['as'] == 'q' else CompoundUnit(r['name'] + '/s') if r['as'] == 'c' else u.dimensionality
    x = dec(r)
    if isinstance(x, UncertainQuantity) and r.get('udt'):
        x.uncertainty = Quantity(np.asarray(x.uncertainty.magnitude, dtype=r['udt']), x.dimensionality)
    if r.get('ro') and isinstance(x, Quantity) and not isinstance(x, UnitQuantity):
        pass
    return x


def ids(x):
    """which leaves are the same object"""
    out = []

    def walk(v):
        if isinstance(v, dict):
            v = list(v.values())
        if isinstance(v, (list, tuple)):
            for w in v:
                walk(w)
        else:
            out.append(id(v))
    walk(x)
    return [out.index(i) for i in out]


def leaves(x):
    if isinstance(x, dict):
        return [l for v in x.values() for l in leaves(v)]
    if isinstance(x, (list, tuple)):
        return [l for v in x for l in leaves(v)]
    return [x]


def shared(x, y):
    for a in leaves(x):
        for b in leaves(y):
            if isinstance(a, UnitQuantity) or isinstance(b, UnitQuantity):
                continue
            for p in [a] + ([a.uncertainty] if isinstance(a, UncertainQuantity) else []):
                for q in [b] + ([b.uncertainty] if isinstance(b, UncertainQuantity) else []):
                    if isinstance(p, np.ndarray) and isinstance(q, np.ndarray) and np.shares_memory(p, q) or isinstance(p, (np.ndarray, Dimensionality)) and p is q:
                        return True
    return False


def dup(rec, r, how, k=0):
    e = {'o': 'dup', 'how': how, 'rec': json.dumps(r)}
    try:
        x = build(r)
        e['a'] = [fp(x)]
    except Exception as err:
        rec.event({'o': 'make', 'a': [], 'rec': json.dumps(r), 'r': encerr(err)})
        return
    shallow = isinstance(x, (list, tuple, dict)) and how in ('copy', 'ccopy')
    try:
        y = duplicate(x, how)
        e['r'] = {'k': 'O', 't': type(y).__name__}
        e['b'] = fp(y)
        e['it'] = inter(x, y)
        e['ids'] = [ids(x), ids(y)]
        if not shallow:
            e['al'] = bool(shared(x, y))
            mutate(y, k)
            e['a2'] = fp(x)
            b2 = fp(y)
            mutate(x, k + 1)
            e['bb'] = [b2, fp(y)]
    except Exception as err:
        e['r'] = encerr(err)
    rec.event(e)


class Remote:
    """pickles read by another process"""

    def __init__(self, rec):
        self.rec = rec
        self.l = []

    def add(self, r, proto):
        try:
            x = build(r)
            self.l.append({'rec': json.dumps(r), 'how': 'remote%d' % proto, 'a': [fp(x)], 'p': pickle.dumps(x, proto).hex()})
        except Exception as err:
            self.rec.event({'o': 'dup', 'how': 'remote', 'rec': json.dumps(r), 'a': [], 'r': encerr(err)})

    def flush(self):
        with tempfile.TemporaryDirectory() as d:
            p, o = os.path.join(d, 'in'), os.path.join(d, 'out')
            with open(p, 'w') as f:
                json.dump(self.l, f)
            subprocess.run([sys.executable, os.path.abspath(__file__), p, o], check=True, timeout=600)
            for l in open(o):
                self.rec.event(json.loads(l))


def remote(p, o):
    units()
    with open(o, 'w') as f:
        for c in json.load(open(p)):
            e = {'o': 'dup', 'how': c['how'], 'rec': c['rec'], 'a': c['a']}
            try:
                y = pickle.loads(bytes.fromhex(c['p']))
                e['r'] = {'k': 'O', 't': type(y).__name__}
                e['b'] = fp(y)
                r = json.loads(c['rec'])
                if r['k'] != 'NU':
                    x = build(r)
                    e['it'] = inter(x, y)
                    e['ids'] = [ids(x), ids(y)]
            except Exception as err:
                e['r'] = encerr(err)
            f.write(json.dumps(e) + '\n')


NU = [0]


def source(g, depth=0):
    c = g.r.random()
    if c < .2:
        r = g.q(special=.02, dt=g.pick(['f8', 'f8', 'i8', 'f4', 'i4', 'c16', 'f2', 'c8', 'u1', 'i2', 'b1']))
        return r
    if c < .32:
        r = g.x()
        if g.chance(.3):
            r['dt'] = 'f4'
            r['v'] = [str(float(np.float32(float(v)))) for v in r['v']]
        if g.chance(.4):
            r['udt'] = g.pick(['f4', 'f8', 'f2'])
            if r['udt'] == 'f2':
                r['u'] = ['0.5' for _ in r['u']]
        return r
    if c < .47:
        return g.u()
    if c < .62:
        return {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [[g.pick(sorted(CST)), '1']]}
    if c < .7:
        return {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [[g.pick(CMPU), '1']]}
    if c < .78:
        d = g.dims()
        if g.chance(.2):
            d = d + [[g.pick(CMPU + sorted(CST)), '2']]
        return {'k': 'D', 'd': d}
    if c < .82:
        d = g.dims() + [[g.pick(CMPU + sorted(CST)), g.pick(['1', '-1', '2'])]]
        return g.q(d, special=0)
    if depth > 1:
        return g.q()
    n = g.pick([1, 2, 3])
    r = {'k': 'C', 'c': g.pick(['list', 'tuple', 'dict']), 'l': [source(g, depth + 1) for _ in range(n)]}
    if n > 1 and g.chance(.5):
        r['same'] = [[0, n - 1]]
    return r


def ownunit(g):
    NU[0] += 1
    cls = g.pick(['UnitQuantity', 'UnitQuantity', 'UnitLength', 'UnitMass', 'UnitTime', 'UnitTemperature', 'UnitInformation'])
    d = {'UnitLength': 'meter', 'UnitMass': 'gram', 'UnitTime': 'second', 'UnitTemperature': 'Kelvin', 'UnitInformation': 'bit'}.get(cls)
    d = [[d, '1']] if d else g.dims(lim=10)
    return {'k': 'NU', 'name': 'vpdup%d' % NU[0], 'cls': cls, 'def': {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': d, 'v': [g.pick(['2', '0.5', '12.5'])]},
            'sym': g.pick(['', 'vps%d' % NU[0]]), 'usym': g.pick(['', 'µ%d' % NU[0]]), 'al': g.pick([[], ['vpal%d' % NU[0]]]), 'as': g.pick(['u', 'u', 'q', 'd', 'c'])}


def drive_dup(rec, g, n):
    R = Remote(rec)
    for i in range(n):
        r = ownunit(g) if g.chance(.05) else source(g)
        how = g.pick(HOWS)
        dup(rec, r, how, g.r.randrange(10))
        if g.chance(.25):
            r = r if g.chance(.8) else ownunit(g)
            if r['k'] != 'NU' or r['as'] != 'c':      # a compound unit is its expression: the other process would have to know the unit
                R.add(r, g.r.randrange(6))
    R.flush()


# ---- nested lists, iteration, emptiness ----------------------------------------------------------------------------

def tolist(rec, r, f='tolist'):
    def nest(x, n):
        if n and isinstance(x, (list, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0):
            return {'k': 'L', 'l': [nest(y, n - 1) for y in x]}
        return enc(x)

    def run(q):
        if f == 'tolist':
            return q.tolist()
        if f == 'iter':
            return [x for x in q]
        if f == 'len':
            return len(q)
        if f == 'reversed':
            return list(reversed(q))
        if f == 'unpack':
            return [*q]
        raise KeyError(f)
    e = {'o': 'tolist', 'f': f}
    try:
        q = dec(r)
        e['a'] = [enc(q)]
    except Exception as err:
        rec.event({'o': 'make', 'a': [], 'rec': json.dumps(r), 'r': encerr(err)})
        return
    try:
        x = run(q)
        e['r'] = nest(x, q.ndim if f == 'tolist' else 1)
    except Exception as err:
        e['r'] = encerr(err)
    e['post'] = [enc(q)]
    rec.event(e)


def drive_list(rec, g, n):
    for _ in range(n):
        sh = g.pick([[], [1], [2], [3], [0], [2, 2], [1, 3], [2, 0], [2, 2, 2], [1, 2, 3], [2, 1, 2], [2, 1, 1, 2], [2, 2, 1, 2], [3, 1, 1], [0, 2]])
        c = g.r.random()
        r = g.q(None, sh) if c < .7 else g.x(None, sh) if c < .85 else g.u()
        tolist(rec, r, g.pick(['tolist', 'tolist', 'tolist', 'iter', 'len', 'reversed', 'unpack']))


if __name__ == '__main__':
    remote(*sys.argv[1:3])
