"""Histories of operations on quantities which share data (C04 C05 C10 C13)."""
import copy
import pickle
from core import *
from gen import Gen
from d_calc import BIN
from d_unc import keyof, imap, randkey, xdims, xcompat
from d_method import invoke
import d_ufunc

IOP = {'iadd': operator.iadd, 'isub': operator.isub, 'imul': operator.imul, 'idiv': operator.itruediv,
       'ifdiv': operator.ifloordiv, 'imod': operator.imod, 'ipow': operator.ipow}
MOVES = ['reshape', 'ravel', 'flatten', 'T', 'transpose', 'swapaxes', 'squeeze', 'take', 'repeat']
FRESH = {'copy': lambda x: x.copy(), 'ccopy': copy.copy, 'deepcopy': copy.deepcopy}


def arr(x):
    return np.ndarray.view(x, np.ndarray)


def sharesmem(x, y):
    return bool(x.size and y.size and np.shares_memory(arr(x), arr(y)))


class Heap:
    """runs the operations of one history on the library and logs the state of every live object after each of them"""

    def __init__(self, rec, focus='C04'):
        self.rec = rec
        self.o = {}
        self.n = 0
        self.focus = focus
        rec.left = 10**9
        rec.begin(hist=True)

    def opnd(self, r):
        return self.o[r['id']] if 'id' in r else dec(r)

    def run(self, f, t, a, p):
        """(result, extra)"""
        q = self.o[t] if t else None
        ex = {}
        if f == 'new':
            return a[0], ex
        if f == 'wrap':
            return Quantity(q, decd(p['d'])), ex
        if f == 'again':
            return Quantity(q), ex
        if f == 'mag':
            return q.magnitude, ex
        if f == 'real':
            return q.real, ex
        if f in ('get', 'set'):
            key = keyof(p['key'])
            try:
                ex['im'] = imap(list(q.shape), key)
                z = np.zeros(q.shape)
                ex['nsh'] = bool(isinstance(z[key], np.ndarray) and np.shares_memory(z, z[key]))
            except Exception:
                ex['im'] = {'sh': [-1], 'ix': []}
                ex['nsh'] = False
            self.ex = ex
            if f == 'get':
                return q[key], ex
            q[key] = a[0]
            return None, ex
        if f == 'iter':
            ex['im'] = imap(list(q.shape), p['at'])
            ex['nsh'] = False
            for i, x in enumerate(q):
                if i == p['at']:
                    return x, ex
        if f in MOVES:
            return invoke(f, q, [], p, 'method'), ex
        if f in FRESH:
            return FRESH[f](q), ex
        if f == 'pickle':
            return pickle.loads(pickle.dumps(q, p.get('proto', 2))), ex
        if f == 'astype':
            return q.astype(p['dt']), ex
        if f == 'rescale':
            return q.rescale(a[0]), ex
        if f == 'simplified':
            return q.simplified, ex
        if f == 'unitsof':
            return q.units, ex
        if f == 'bin':
            return BIN[p['op']](q, a[0]), ex
        if f == 'un':
            return {'neg': operator.neg, 'abs': abs}[p['op']](q), ex
        if f == 'red':
            return invoke(p['op'], q, [], p, 'method'), ex
        if f in IOP:
            return IOP[f](q, a[0]), ex
        if f == 'put':
            q.put(p['ind'], a[0], p.get('mode', 'raise')) if p.get('mode', 'raise') != 'raise' else q.put(p['ind'], a[0])
            return None, ex
        if f == 'fill':
            q.fill(a[0])
            return None, ex
        if f == 'sort':
            q.sort(axis=p['ax'][0])
            return None, ex
        if f == 'units':
            q.units = a[0]
            return None, ex
        if f == 'setreal':
            q.real = a[0]
            return None, ex
        if f == 'setimag':
            q.imag = a[0]
            return None, ex
        if f == 'setunc':
            q.uncertainty = a[0]
            return None, ex
        if f == 'ufout':
            return getattr(np, p['op'])(*a, out=q), ex
        if f == 'mout':
            return invoke(p['op'], a[0], a[1:], p, 'method', q), ex
        if f == 'look':
            str(q), repr(q), q.dimensionality, q.units, q.magnitude.tolist(), q == q, hash(q.dimensionality)
            return None, ex
        if f == 'del':
            del self.o[t]
            return None, ex
        raise KeyError(f)

    def do(self, f, t=0, a=(), keep=True, **p):
        self.n += 1
        n = self.n
        e = {'o': 'heap', 'f': f, 't': t, 'a': list(a), 'id': n, 'keep': keep, 'im': {'sh': [-1], 'ix': []}, 'nsh': False,
             'al': [], 'alu': [], 'same': False, 'ax': [], 'ddof': 0}
        e.update(p)
        if 'key' in e:
            e['key'] = json.dumps(e['key'])
        r = None
        self.ex = {}
        try:
            ops = [self.opnd(x) for x in a]
            r, ex = self.run(f, t, ops, p)
            e['r'] = enc(r)
        except Exception as x:
            ex = self.ex
            e['r'] = encerr(x)
        e.update(ex)
        if isinstance(r, np.ndarray) and f != 'new':
            e['same'] = t != 0 and r is self.o.get(t)
            for i, x in self.o.items():
                if sharesmem(r, x):
                    e['al'].append(i)
                if isinstance(r, UncertainQuantity):
                    if sharesmem(r.uncertainty, x) or isinstance(x, UncertainQuantity) and sharesmem(r.uncertainty, x.uncertainty):
                        e['alu'].append(i)
                elif isinstance(x, UncertainQuantity) and sharesmem(r, x.uncertainty):
                    e['alu'].append(i)
        e['all'] = [{'id': i, 'x': enc(x)} for i, x in self.o.items()]
        keep = bool(keep and e['r']['k'] in ('Q', 'A') and isinstance(r, np.ndarray) and not e['same'] and f not in IOP
                    and f not in ('ufout', 'mout'))
        e['keep'] = keep
        self.rec.line(e)
        self.rec.counts['heap'] = self.rec.counts.get('heap', 0) + 1
        if keep:
            self.o[n] = r
        return e

    def fine(self):
        """can the history go on"""
        for x in self.o.values():
            v = arr(x)
            if v.size > 12 or v.ndim > 3:
                return False
            if v.dtype.kind in 'iu' and v.size and np.abs(v.astype(float)).max() > 1e4:
                return False
            v = np.abs(v[np.isfinite(v)])
            if v.size and (v.max() > 1e20 or (v[v > 0].size and v[v > 0].min() < 1e-20)):
                return False
            if isinstance(x, Quantity):
                d = encd(x.dimensionality)
                if len(d) > 4 or abs(Gen.lgd(d)) > 40 or any(len(y) > 4 for _, y in d):
                    return False
            if isinstance(x, UncertainQuantity):
                u = arr(x.uncertainty)
                if u.shape != v.shape and u.size != x.size or not np.isfinite(u).all() or (u.size and u.max() > 1e20):
                    return False
        return True


FOCUS = {'C04': ['get', 'iadd', 'isub', 'imul', 'idiv', 'ifdiv', 'imod', 'units', 'put', 'put', 'fill', 'sort', 'ufout', 'mout', 'imod', 'imod'],
         'C05': ['set', 'iadd', 'isub', 'imod', 'units', 'rescale', 'put', 'setreal', 'setunc', 'bin', 'imul', 'idiv', 'ipow', 'fill', 'fill', 'put', 'mout', 'mout'] * 2,
         'C10': ['copy', 'ccopy', 'deepcopy', 'pickle'] * 5 + ['set', 'iadd', 'imul', 'units', 'setunc'] * 2,
         'C13': ['get', 'get', 'set', 'set', 'iter', 'flatten', 'ravel'] * 4}
COMP = {'C04': .85, 'C05': .5, 'C10': .9, 'C13': .8}


def dof(x):
    return encd(x.dimensionality) if isinstance(x, Quantity) else []


def smalldims(g):
    while True:
        d = xdims(g)
        if abs(Gen.lgd(d)) < 12 and len(d) < 3:
            return d


def newrec(g):
    c = g.r.random()
    sh = g.pick([[], [1], [2], [3], [4], [2, 2], [2, 3], [1, 3], [0], [2, 1, 2]])
    if c < .2:
        return g.x(smalldims(g), sh)
    if c < .3:
        return g.a(sh or [3], g.pick(['f8', 'f8', 'i8']), 0)
    r = g.q(smalldims(g), sh, g.pick(['f8'] * 7 + ['i8', 'i8', 'f4', 'i4']), 0)
    if r['dt'] == 'f4' and abs(Gen.lgd(r['d'])) > 5:
        r['dt'] = 'f8'
    return r


def value(g, H, x, d, sh, live=True, plainok=False):
    """something to combine with or store into x: usually compatible with the signature d, usually fitting the shape"""
    c = g.r.random()
    if live and c < .3:
        ids = [i for i, y in H.o.items() if isinstance(y, Quantity)]
        if ids:
            i = g.pick(ids)
            y = H.o[i]
            if not isinstance(y, UncertainQuantity) or isinstance(x, UncertainQuantity):
                return {'id': i}
    if c < .36:
        return g.n(g.pick(['f8', 'i8']), special=0, npy=False)
    if c < .39 or plainok and c < .5:
        return g.a(sh, 'f8', 0)
    dd = d if g.chance(.3) else xcompat(g, d) if g.chance(COMP[H.focus]) else smalldims(g)
    s = sh if g.chance(.6) else [] if g.chance(.6) else sh[-1:] if g.chance(.5) else g.shape()
    if len(dd) == 1 and dd[0][1] == '1' and g.chance(.2) and not dd[0][0].startswith('cmp'):
        return g.u(dd[0][0])
    if isinstance(x, UncertainQuantity) and g.chance(.5):
        return g.x(dd, list(s))
    return g.q(dd, list(s), g.pick(['f8', 'f8', 'f8', 'i8', 'f8', 'u4']), 0)


def unitarg(g, H, d):
    dd = xcompat(g, d) if g.chance(COMP[H.focus]) else smalldims(g)
    if len(dd) == 1 and dd[0][1] == '1' and g.chance(.6):
        return g.u(dd[0][0]) if g.chance(.6) else {'k': 'S', 's': dd[0][0]} if g.chance(.3) else {'k': 'D', 'd': dd}
    if g.chance(.06):
        return g.pick([{'k': 'S', 's': 'nonsense'}, {'k': 'S', 's': 'm**'}, {'k': 'P', 'p': 'object'}, {'k': 'S', 's': 'meter second'}])
    return {'k': 'D', 'd': dd}


def shared(H, i):
    return any(j != i and isinstance(x, Quantity) and sharesmem(H.o[i], x) for j, x in H.o.items())


def protected(x):
    return isinstance(x.base, Quantity)


def step(g, H):
    if len(H.o) < 2 or len(H.o) < 6 and g.chance(.1):
        return H.do('new', 0, [newrec(g)])
    ids = list(H.o)
    if len(H.o) > 6 or g.chance(.03):
        return H.do('del', g.pick(ids))
    t = g.pick(ids)
    x = H.o[t]
    sh = list(x.shape)
    nd = len(sh)
    if not isinstance(x, Quantity):
        if g.chance(.7):
            d = smalldims(g)
            return H.do('wrap', t, d=d)
        ops = ['set']
        f = 'set'
    X = isinstance(x, UncertainQuantity)
    d = dof(x)
    intdt = x.dtype.kind in 'iu'
    if isinstance(x, Quantity):
        f = g.pick(['get'] * 5 + ['set'] * 5 + ['iadd', 'isub', 'imul', 'idiv', 'ipow'] * 2 + ['ifdiv', 'imod', 'units', 'units', 'put', 'fill', 'sort',
                   'setreal', 'setunc', 'ufout', 'ufout', 'mout', 'mout', 'mag', 'real', 'again', 'iter', 'iter', 'copy', 'ccopy', 'deepcopy', 'pickle', 'astype',
                   'rescale', 'rescale', 'simplified', 'unitsof', 'bin', 'bin', 'un', 'red', 'look', 'setimag'] + MOVES + FOCUS[H.focus])
    if X and f in ('ifdiv', 'imod', 'put', 'fill', 'sort', 'ufout', 'mout', 'setreal', 'setimag', 'real', 'again'):
        return None
    keep = g.chance(.8)
    if f == 'setimag':
        if x.dtype.kind == 'c':
            return None
        return H.do(f, t, [g.n('f8', 0, False)], keep=False)
    if f in ('get', 'set'):
        key = randkey(g, sh)
        if g.chance(.04):
            key = {'i': 'int', 'n': (sh[0] if sh else 0)}
        if f == 'get':
            return H.do(f, t, [], keep, key=key)
        try:
            ksh = imap(sh, keyof(key))['sh']
        except Exception:
            ksh = []
        v = value(g, H, x, d, ksh, plainok=not d)
        if 'id' in v and not isinstance(x, Quantity) or not isinstance(x, Quantity) and v['k'] == 'Q':
            v = g.n('f8', 0, False)
        if 'id' not in v and g.chance(.03) and v.get('t') != 'U' and Gen.size(v['sh']):
            v['v'][0] = g.pick(['inf', 'nan', '-inf'])
        return H.do(f, t, [v], key=key)
    if f == 'iter':
        if not sh or not sh[0]:
            return None
        return H.do(f, t, [], keep, at=g.r.randrange(sh[0]))
    if f in ('look', 'mag', 'real', 'again', 'copy', 'ccopy', 'deepcopy', 'unitsof'):
        if f == 'unitsof':
            keep = False
        return H.do(f, t, [], keep)
    if f == 'pickle':
        return H.do(f, t, [], keep, proto=g.r.randrange(0, 6))
    if f == 'astype':
        if X:
            return H.do(f, t, [], keep, dt='f8')
        return H.do(f, t, [], keep, dt=x.dtype.str.lstrip('<|') if g.chance(.7) else 'f8' if x.dtype.kind != 'f' or x.dtype.itemsize < 8 else 'f8')
    if f in MOVES:
        p = {}
        if f == 'reshape':
            s = x.size
            p['sh2'] = g.pick([[s], [1, s], [s, 1], [s + 1]] + [[i, s // i] for i in range(1, s + 1) if s % i == 0])
        elif f == 'transpose':
            if not nd:
                return None
            p['perm'] = list(range(nd))
            g.r.shuffle(p['perm'])
        elif f == 'swapaxes':
            if not nd:
                return None
            p['ax'] = [g.pick(list(range(-nd, nd))), g.pick(list(range(-nd, nd)))]
        elif f == 'take':
            if not x.size:
                return None
            p['ax'] = [] if not nd or g.chance(.4) else [g.pick(list(range(-nd, nd)))]
            m = sh[p['ax'][0]] if p['ax'] else x.size
            p['ish'] = g.pick([[2], [3], [], [2, 2], [1]])
            p['ind'] = [g.r.randrange(-m, m) for _ in range(g.size(p['ish']))]
        elif f == 'repeat':
            p['ax'] = [] if not nd or g.chance(.4) else [g.pick(list(range(-nd, nd)))]
            p['n'] = g.pick([1, 2])
        return H.do(f, t, [], keep, **p)
    if f == 'rescale':
        return H.do(f, t, [unitarg(g, H, d)], keep and not intdt)
    if f == 'simplified':
        return H.do(f, t, [], keep and not intdt)
    if f == 'bin':
        op = g.pick(['add', 'sub', 'mul', 'div'])
        v = value(g, H, x, d, sh)
        return H.do(f, t, [v], keep, op=op)
    if f == 'un':
        return H.do(f, t, [], keep, op=g.pick(['neg', 'abs']))
    if f == 'red':
        if not x.size:
            return None
        return H.do(f, t, [], keep, op=g.pick(['sum', 'mean', 'max', 'min']), ax=[] if not nd or g.chance(.5) else [g.r.randrange(nd)])
    sharing = shared(H, t) and not protected(x)
    if f in ('iadd', 'isub', 'imod'):
        v = value(g, H, x, d, sh)
        if f == 'imod' and 'id' not in v and v.get('dt') == 'f8' and v.get('t') != 'U' and g.chance(.4):
            v['v'] = [w[1:] if w[0] == '-' else '-' + w if w not in ('0', 'nan') else w for w in v['v']]
        return H.do(f, t, [v])
    if f in ('imul', 'idiv', 'ifdiv'):
        c = g.r.random()
        if sharing or c < .3:
            v = g.n(g.pick(['f8', 'i8']), special=0, npy=False)
            if f != 'imul' and v['v'] == ['0'] and intdt:
                return None
        else:
            v = value(g, H, x, smalldims(g), sh)
        if f == 'ifdiv' and intdt:
            return None
        return H.do(f, t, [v])
    if f == 'ipow':
        if sharing or intdt:
            return None
        ee = g.pick(['2', '2', '1', '3', '-1', '0.5', '0'])
        if ee == '0.5' and not (arr(x) >= 0).all() or abs(Gen.lgd(d)) * abs(float(ee)) > 30 or X and ee in ('-1', '0.5') and (arr(x) == 0).any():
            ee = '2'
        return H.do(f, t, [{'k': 'N', 'dt': 'f8' if '.' in ee else 'i8', 'sh': [], 'v': [ee]}])
    if f == 'put':
        if not x.size:
            return None
        mode = g.pick(['raise', 'raise', 'clip', 'wrap'])
        lim = x.size if mode == 'raise' and not g.chance(.03) else 2 * x.size + 1
        ind = [g.r.randrange(-lim, lim) for _ in range(g.pick([1, 2, 3]))]
        v = value(g, H, x, d, g.pick([[], [len(ind)]]), live=False)
        if not v['v']:
            return None
        return H.do(f, t, [v], ind=ind, mode=mode)
    if f == 'fill':
        fsh = [] if g.chance(.75) else g.pick([[1], [2], sh, [1, 1], [3]])
        v = g.pick([g.q(d, fsh, 'f8', 0), g.q(d if sharing else smalldims(g), fsh, 'f8', 0), g.n('f8', 0, False) if not fsh else g.a(fsh, 'f8', 0)])
        if not v['v']:
            return None
        return H.do(f, t, [v])
    if f == 'sort':
        if np.isnan(arr(x)).any():
            return None
        return H.do(f, t, [], ax=[g.pick(list(range(-nd, nd))) if nd else -1])
    if f == 'units':
        if sharing:
            return None
        return H.do(f, t, [unitarg(g, H, d)])
    if f == 'setreal':
        return H.do(f, t, [value(g, H, x, d, sh)])
    if f == 'setunc':
        if not X:
            return None
        dd = d if g.chance(.3) else xcompat(g, d) if g.chance(COMP[H.focus]) else smalldims(g)
        v = g.q(dd, sh if g.chance(.93) else [7], 'f8', 0, True)
        if g.chance(.2):
            v = g.a(v['sh'], 'f8', 0)
            v['v'] = [w.lstrip('-') for w in v['v']]
            if not v['sh']:
                v['k'] = 'N'
        return H.do(f, t, [v])
    same = sharing or protected(x)
    if f == 'ufout':
        if intdt:
            return None
        op = g.pick(['add', 'subtract', 'multiply', 'negative', 'absolute', 'maximum'])
        if op in ('negative', 'absolute'):
            a = [g.q(d if same else smalldims(g), sh, 'f8', 0)]
        elif op == 'multiply':
            a = [g.q(d if same else smalldims(g), sh, 'f8', 0), g.n('f8', 0, False) if same or g.chance(.4) else g.q(smalldims(g), sh, 'f8', 0)]
        else:
            dd = d if same else smalldims(g)
            a = [g.q(dd, sh, 'f8', 0), g.q(dd, g.pick([sh, []]), 'f8', 0)]
        return H.do(f, t, a, op=op)
    if f == 'mout':
        if intdt:
            return None
        op = g.pick(['sum', 'max', 'cumsum', 'clip', 'round', 'mean', 'prod', 'min', 'std', 'var', 'ptp', 'nansum', 'nanmax', 'nanmin', 'cumprod'])
        go = lambda a, **p: H.do(f, t, [{k: v for k, v in r.items() if k != 'lay'} for r in a], **p)   # NumPy 2.0 reduces reversed arrays into outputs wrongly
        dd = d if same else smalldims(g)
        if op not in ('cumsum', 'cumprod', 'clip', 'round'):
            if same and op in ('prod', 'var') and d:
                return None
            wrong = g.chance(.6 if H.focus == 'C05' else .1)      # an output of another shape is refused
            if wrong:
                dd = smalldims(g)
            a = [g.q(dd, [2] + (g.pick([[5], [3, 5], [5, 2]]) if wrong else sh), 'f8', 0)]
            return go(a, op=op, ax=[0])
        if op == 'cumprod':
            if not sh:
                return None
            return go([g.q([] if same and not d or not same and g.chance(.6) else smalldims(g), sh, 'f8', 0)], op=op, ax=[0])
        if op == 'cumsum':
            if not sh:
                return None
            return go([g.q(dd, sh, 'f8', 0)], op=op, ax=[0])
        if op == 'round':
            return go([g.q(dd, sh, 'f8', 0)], op=op, dec=1)
        return go([g.q(dd, sh, 'f8', 0), g.q(dd, [], 'f8', 0), g.q(xcompat(g, dd), [], 'f8', 0)], op=op)
    raise KeyError(f)


def drive_heap(rec, g, n, focus, length=16):
    for _ in range(n):
        H = Heap(rec, focus)
        m = 0
        while m < length and H.fine():
            if step(g, H) is not None:
                m += 1


def probes(rec):
    """the histories recorded as known findings: units of an owner changed while views of it are in use, and of a view by out="""
    def q(v, d, sh=None):
        return {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [len(v)] if sh is None else sh, 'v': v, 'd': d}
    m, s = [['meter', '1']], [['second', '1']]
    for f, a in [('units', {'k': 'S', 's': 'cm'}), ('imul', q(['2.0'], s, [])), ('idiv', q(['2.0'], s, [])), ('ipow', {'k': 'N', 'dt': 'i8', 'sh': [], 'v': ['2']})]:
        H = Heap(rec, 'C04')
        H.do('new', 0, [q(['1.0', '2.0', '3.0'], m)])
        H.do('get', 1, [], key={'i': 'slice', 'n': [0, 2, 1]})
        H.do(f, 1, [a], probe='owner')
    H = Heap(rec, 'C04')
    H.do('new', 0, [q(['1.0', '2.0', '3.0'], m)])
    H.do('get', 1, [], key={'i': 'slice', 'n': [0, 2, 1]})
    H.do('ufout', 2, [q(['1.0', '2.0'], s), q(['1.0', '2.0'], s)], op='add', probe='out')


def replay_heap(rec, c):
    """a path of the model MC_Heap"""
    H = Heap(rec, 'C04')
    for e in c['ops']:
        p = {k: v for k, v in e.items() if k not in ('f', 't', 'a', 'keep', 'id')}
        if p.get('ax') == [] or e['f'] not in ('sort', 'mout', 'red'):
            p.pop('ax', None)
        H.do(e['f'], e['t'], e['a'], e['keep'], **p)
