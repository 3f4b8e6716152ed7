"""Histories of operations on signature objects and of what is made from them (C23)."""
import copy
import pickle

from core import *
from d_calc import encb
from gen import U

COPY = {'copy': lambda d: d.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy, 'cons': Dimensionality,
        'list': lambda d: copy.deepcopy([d, {'a': d}])[1]['a'],
        'mul1': lambda d: d * Dimensionality(), 'div1': lambda d: d / Dimensionality(), 'pow1': lambda d: d ** 1,
        '0': lambda d: pickle.loads(pickle.dumps(d, 0)), '2': lambda d: pickle.loads(pickle.dumps(d, 2)),
        '5': lambda d: pickle.loads(pickle.dumps(d, 5))}
BIN = {'mul': operator.mul, 'div': operator.truediv, 'add': operator.add, 'sub': operator.sub,
       'imul': operator.imul, 'idiv': operator.itruediv, 'iadd': operator.iadd, 'isub': operator.isub,
       'qmul': operator.mul, 'qdiv': operator.truediv, 'qimul': operator.imul, 'qidiv': operator.itruediv}
REL = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}
ALIEN = dict(BIN, pow=operator.pow, ipow=operator.ipow, **REL)
ALIEN = {k: f for k, f in ALIEN.items() if k[0] != 'q'}
EX = ['1', '1', '-1', '2', '-2', '0.5', '3', '-0.5']


def pairs(r):
    """the entries of Dimensionality({name: exponent, ...})"""
    assert r.startswith('Dimensionality({') and r.endswith('})'), r
    r = r[len('Dimensionality({'):-2]
    return [[x.rsplit(': ', 1)[0], exps(float(x.rsplit(': ', 1)[1]))] for x in r.split(', ')] if r else []


def relate(a, b):
    r = {k: f(a, b) for k, f in REL.items()}
    if not all(isinstance(x, (bool, np.bool_)) for x in r.values()):
        raise TypeError('comparison is not true or false')
    r = {k: bool(x) for k, x in r.items()}
    r.update(k='R', eq2=bool(b == a), ne2=bool(b != a), hash=hash(a) == hash(b), isin=a in {b: 1}, set=len({a, b}))
    return r


class Sigs:
    def __init__(self, rec):
        self.rec = rec
        self.o = {}
        self.n = 0
        rec.left = 10**9
        rec.begin(hist=True)

    def dim(self, i):
        x = self.o[i]
        return x if isinstance(x, Dimensionality) else x.dimensionality

    def stir(self, g, t, s=0):
        """change in place what an object was just made from, or the object"""
        l = [i for i in (t, s, self.n) if isinstance(self.o.get(i), Dimensionality) and small(encd(self.o[i]), 4)]
        if l and g.chance(.5):
            i = g.pick(l)
            f = g.pick(['imul', 'ipow', 'idiv', 'sete', 'clear'])
            self.do(f, i, g.pick(l) if f in ('imul', 'idiv') else 0, u='second' if f == 'sete' else '', p='2' if f in ('ipow', 'sete') else '0')

    def kind(self, x):
        return 'D' if isinstance(x, Dimensionality) else 'U' if isinstance(x, UnitQuantity) else 'Q' if isinstance(x, Quantity) else '?'

    def work(self, f, t, s, p):
        x = self.o.get(t)
        y = self.o.get(s)
        if f == 'new':
            return decd(p['ds'])
        if f == 'unit':
            return unit(p['u'])
        if f == 'copy':
            return COPY[p['how']](x)
        if f == 'simplified':
            return x.simplified
        if f == 'dimq':
            return x.units.dimensionality if p.get('how') and isinstance(x, Quantity) else x.dimensionality
        if f == 'mkq':
            h = p['how']
            return (UncertainQuantity([1., 2.], x, [.5, .25]) if h == 'unc' else Quantity(np.array(2.), x) if h == 'scalar'
                    else Quantity([1., 2.], x))
        if f == 'resc':
            return x.rescale(y)
        if f == 'setu':
            x.units = y
            return x
        if f in BIN:
            return BIN[f](x, y)
        if f in ('pow', 'qpow'):
            return x ** pnum(p['p'])
        if f == 'ipow':
            x **= pnum(p['p'])
            return x
        if f == 'sete':
            x[unit(p['u'])] = pnum(p['p'])
            return x
        if f == 'pop':
            x.pop(unit(p['u']))
            return x
        if f == 'clear':
            x.clear()
            return x
        if f == 'update':
            x.update(y)
            return x
        if f == 'del':
            return self.o.pop(t)
        raise ValueError(f)

    def do(self, f, t=0, s=0, **p):
        self.n += 1
        e = {'o': 'sig', 'f': f, 't': t, 's': s, 'p': p.get('p', '0'), 'ds': p.get('ds', []), 'u': p.get('u', ''), 'id': self.n, 'how': p.get('how', '')}
        x = self.o.get(t)
        try:
            with np.errstate(all='ignore'):
                if f == 'rel':
                    e['r'] = relate(self.dim(t), self.dim(s))
                elif f == 'txt':
                    d = self.dim(t)
                    e['r'] = {'k': 'R', 'repr': pairs(repr(d)), 'len': len(d), 'true': bool(d),
                              'again': repr(d) == repr(d) and str(d) == str(d) and list(d) == list(d.keys()) and all(u in d for u in d)}
                elif f == 'alien':
                    y = dec(p['a'])
                    e['hashable'] = not fails(hash, y)
                    e['r'] = encb(ALIEN[p['p']](x, y))
                else:
                    r = self.work(f, t, s, p)
                    e['r'] = {'k': self.kind(r), 'same': r is x}
                    if f in ('new', 'unit', 'copy', 'mul', 'div', 'add', 'sub', 'pow', 'simplified', 'dimq', 'mkq', 'resc', 'qmul', 'qdiv', 'qpow'):
                        self.o[self.n] = r
        except Exception as ex:
            e['r'] = encerr(ex)
        e['all'] = [[i, self.kind(y), encd(self.dim(i))] for i, y in self.o.items()]
        self.rec.event(e)
        return e['r']['k'] != 'E'


def small(d, b=6):
    return all(abs(float(pnum(e) if isinstance(e, str) else e)) <= b for _, e in d) and len(d) < 7


def drive_sig(rec, g, n):
    for _ in range(n):
        H = Sigs(rec)
        keys = [g.unit() for _ in range(g.pick([1, 2, 3]))] + g.pick([[], ['meter', 'inch'], ['joule', 'newton', 'meter'], ['hour', 'second'], ['radian', 'percent'], ['cmp:m/s'], ['cmp:1/cm', 'meter']])

        def sig():
            d = {}
            for _ in range(g.pick([0, 1, 1, 2, 2, 3])):
                d[g.pick(keys)] = g.pick(EX)
            d = list(map(list, d.items()))
            g.r.shuffle(d)
            return d if abs(g.lgd(d)) < 60 else []
        H.do('new', ds=sig())
        for _ in range(g.pick([8, 16, 30])):
            ds = [i for i, x in H.o.items() if isinstance(x, Dimensionality)]
            qs = [i for i, x in H.o.items() if isinstance(x, Quantity) and not isinstance(x, UnitQuantity)]
            us = [i for i, x in H.o.items() if isinstance(x, UnitQuantity)]
            c = g.r.random()
            if c < 0.1 or not ds:
                if g.chance(.25):
                    k = g.pick(keys)
                    H.do('unit', u=k)
                else:
                    H.do('new', ds=sig())
                continue
            t, s = g.pick(ds), g.pick(ds)
            dt = encd(H.o[t])
            ds2 = encd(H.o[s])
            if c < 0.2:
                H.do('copy', t, how=g.pick(sorted(COPY)))
                H.stir(g, t)
            elif c < 0.28:
                if small(dt) and small(ds2):
                    H.do(g.pick(['mul', 'div', 'mul', 'div', 'add', 'sub']), t, s)
                    H.stir(g, t, s)
            elif c < 0.44:
                f = g.pick(['imul', 'idiv', 'idiv', 'imul', 'iadd', 'isub'])
                if small(dt) and small(ds2):
                    H.do(f, t, s)
            elif c < 0.52:
                if small(dt, 4):
                    H.do(g.pick(['pow', 'ipow', 'ipow']), t, p=g.pick(['2', '-1', '0', '1', '0.5', '-0.5', '2', '1.5', '-2']))
            elif c < 0.6:
                if small(dt) and abs(g.lgd(dt)) < 60 and all('.125' not in e and '.0625' not in e for _, e in dt):
                    H.do('simplified', t)
                    H.stir(g, t)
            elif c < 0.68:
                k = g.pick(keys)
                f = g.pick(['sete', 'sete', 'pop', 'clear', 'update'])
                H.do(f, t, s if f == 'update' else 0, u=k if f in ('sete', 'pop') else '', p=g.pick(EX) if f == 'sete' else '0')
            elif c < 0.73:
                if abs(g.lgd(dt)) < 60:
                    H.do('mkq', t, how=g.pick(['', 'scalar', 'unc']))
                    H.stir(g, t)
            elif c < 0.84 and (qs or us):
                q = g.pick(qs or us)
                d1 = encd(H.dim(q))
                f = g.pick(['dimq', 'dimq', 'resc', 'setu', 'qmul', 'qdiv', 'qimul', 'qidiv', 'qpow'])
                o = g.pick([i for i in H.o if not isinstance(H.o[i], Dimensionality)])
                if f == 'dimq':
                    H.do('dimq', g.pick(qs + us), how=g.pick(['', 'u']))
                    H.stir(g, 0)
                elif not qs or not small(d1, 3) or not small(encd(H.dim(o)), 3) or abs(g.lgd(d1)) > 40 or abs(g.lgd(encd(H.dim(o)))) > 40:
                    continue
                elif f in ('resc', 'setu'):
                    if g.chance(.6):                # a signature the quantity can be converted to
                        H.do('new', ds=g.compatible(d1))
                        t, dt = H.n, encd(H.o[H.n])
                    if abs(g.lgd(dt)) < 60 and small(dt, 4):
                        H.do(f, q, t)
                        H.stir(g, t)
                elif f == 'qpow':
                    H.do(f, q, p=g.pick(['2', '-1', '0.5', '1', '0']))
                else:
                    if f in ('qimul', 'qidiv') and H.o[q].shape == () != H.o[o].shape:
                        continue
                    H.do(f, q, o)
            elif c < 0.94:
                t = g.pick(list(H.o))
                s = g.pick(list(H.o))
                if all(small(x) and abs(g.lgd(x)) < 90 for x in (encd(H.dim(t)), encd(H.dim(s)))):
                    H.do('rel', t, s)
            elif c < 0.965:
                H.do('txt', g.pick(list(H.o)))
            elif c < 0.985:
                f = g.pick(sorted(ALIEN))
                a = g.pick([{'k': 'Z'}, g.u(), g.q(), {'k': 'S', 's': 'm'}, {'k': 'P', 'p': g.pick(['obj', 'dict', 'set'])}, g.n('i8'), g.n('f8', special=0)])
                if f in ('pow', 'ipow'):
                    a = g.pick([{'k': 'Z'}, g.q(), {'k': 'A', 'dt': 'f8', 'sh': [2], 'v': ['2', '2']}, {'k': 'L', 'l': []}, {'k': 'P', 'p': 'obj'}])
                H.do('alien', t, p=f, a=a)
            elif len(H.o) > 1:
                H.do('del', g.pick(list(H.o)))


def replay_sig(rec, c):
    H = Sigs(rec)
    for e in c['ops']:
        H.do(e['f'], e['t'], e['s'], **{k: e[k] for k in ('p', 'ds', 'u', 'how') if k in e})
