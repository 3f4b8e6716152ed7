"""Drivers for compound units (C22)."""
import copy
import pickle
import random

from core import *
import gen
from gen import Gen, U, LG
import d_calc
from quantities import markup
import d_text
from d_calc import spell

FIXED = ['m/s', 'm / s', 'm*s**-1', 'm/s**2', 'm/s**3', '(m/s)', '1/cm', 'ft**0.5', 'parsec/cc', 'mm*V', 'kg*m**2', 'kg*m^2', 'N*m', 'm*N', 'J',
         'm*m', 'm**2', 'm/m', '%', 'in', 'in*lb', 'count/hour', '(kg*m)/(s**2)', 'mile/gallon', 'km/h', 'km/hour', 'rad/s', 'degree/s', 'um**2',
         'kg*m**2/s**3/A', 'mol/(L*s)', 'V**2/Hz', 'm**(1/2)', 's**-0.5', 'kg·m', 'm^2/s', 'GB/s', 'ms', 'M', 'Hz**0.25', 'a*b'.replace('a*b', 'A*B'),
         'm/s/kg', 'm/(s*kg)', 'lbf/inch**2', 'm**10', 'm**1', 's', 'degK/m', 'uF*ohm']
SCALED = ['1000*m', '2.54*cm', '60*s', '1e-3*m**3', '0.5*mile/h', '1/(2*s)', '12*inch', '3.6*km/h', 'm/100']
BADTXT = ['foo', 'm/foo', 'm +', 'm/s)', '(m', 'm s', '__import__("os")', 'm.real', 'm[0]', 'm;s', 'm if m else s', '"m"', 'm#', 'm == s', 'm=s', 'lambda: 1', 'm and s',
          'm**s', 'm+s', 'm*1j', 'nounit**2', '/s', '*', 'm//', '2m', 'm**', '3.5.2*m', 'm,s', '[m]', '{m}', 'm@s', '~m', 'not m', 'm or s', '(m,)']
_pool = None


def pool():
    """texts which the library accepts, with the signature of their expression"""
    global _pool
    if _pool is None:
        _pool = {}
        g = Gen('compound')
        texts = list(FIXED)
        while len(texts) < 140:
            s = spell(g, g.dims(g.pick([1, 2, 2, 3])))
            if s and s not in texts and '+' not in s:
                texts.append(s)
        for s in texts + SCALED:
            try:
                q = pq.unit_registry[s]
                d = encd(q.dimensionality)
                if not all(k in U for k, _ in d):
                    continue
                l = g.lgd(d)
                if abs(l) > 60:
                    continue
                CompoundUnit(s)
                _pool[s] = d
                LG['cmp:' + s] = l
            except Exception:
                pass
    return _pool


class CGen(Gen):
    """operands in which compound units are common"""

    def __init__(self, g):
        self.r = g.r
        self.texts = [t for t in pool() if t not in SCALED]

    def ckey(self):
        return 'cmp:' + (self.pick(FIXED[:8]) if self.chance(.3) else self.pick(self.texts) if self.chance(.93) else self.pick([s for s in SCALED if s in pool()]))

    def unit(self):
        return self.ckey() if self.chance(0.5) else Gen.unit(self)

    def compatible(self, d, lim=25):
        out = {}
        for k, e in d:
            c = self.r.random()
            if k.startswith('cmp:'):
                if c < 0.3:
                    out[k] = out.get(k, 0) + float(e)
                else:
                    for b, x in pool()[k[4:]]:
                        out[b] = out.get(b, 0) + float(e) * float(x)
            else:
                out[k] = out.get(k, 0) + float(e)
        keep = [[k, self.ex(e)] for k, e in out.items() if e and k.startswith('cmp:')]
        rest = [[k, self.ex(e)] for k, e in out.items() if e and not k.startswith('cmp:')]
        rest = Gen.compatible(self, rest, lim) if rest and all(len(self.ex(float(e))) < 8 for _, e in rest) else rest
        # sometimes fold one unit into a compound of the same dimensions
        if self.chance(0.3):
            for i, (k, e) in enumerate(rest):
                m = [t for t in self.texts if len(pool()[t]) == 1 and pool()[t][0] == [k, '1'] and 'cmp:' + t not in out]
                if m and e == '1':
                    rest[i] = ['cmp:' + self.pick(m), '1']
                    break
        o = {}
        for k, e in keep + rest:
            o[k] = o.get(k, 0) + float(e)
        o = [[k, self.ex(e)] for k, e in o.items() if e]
        self.r.shuffle(o)
        return o

    def u(self, k=None):
        return Gen.u(self, k or self.unit())


def snapshot():
    """all labels of the registry, if its dictionary can be found"""
    todo, seen = [pq.unit_registry], set()
    while todo:
        o = todo.pop()
        for v in list(getattr(o, '__dict__', {}).values()) + list(getattr(type(o), '__dict__', {}).values()):
            if isinstance(v, dict) and 'UnitQuantity' in v and 'meter' in v:
                return {k: id(x) for k, x in v.items()}
            if type(v).__module__ == type(pq.unit_registry).__module__ and id(v) not in seen and not isinstance(v, type):
                seen.add(id(v))
                todo.append(v)
    return {}


def unicoded(x):
    """pickled and restored while units are printed in unicode"""
    markup.config.use_unicode = True
    try:
        return pickle.loads(pickle.dumps(x))
    finally:
        markup.config.use_unicode = False


def labels_alive():
    """the registry seen from outside: what the labels denote"""
    out = {}
    for k in list(U)[::17]:
        for l in U[k]['labels'][:2]:
            try:
                out[l] = id(pq.unit_registry[l])
            except Exception as x:
                out[l] = type(x).__name__
    return out


def new(rec, s):
    e = {'o': 'cmp', 'f': 'new', 'a': [{'k': 'S', 's': s}], 'cp': [], 'info': {}}
    b1, b2 = snapshot(), labels_alive()
    try:
        u = CompoundUnit(s)
        e['r'] = enc(u)
        e['info'] = {'name': u.name, 'symbol': u.symbol, 'usymbol': u.u_symbol, 'repr': repr(u), 'str': str(u), 'dstr': str((2 * u).dimensionality),
                     'def': enc(u.definition), 'simp': enc(u.simplified)}
        for f in (copy.copy, copy.deepcopy, lambda x: x.copy(), lambda x: pickle.loads(pickle.dumps(x)), lambda x: pickle.loads(pickle.dumps(x, 2)),
                  lambda x: CompoundUnit(s), unicoded, lambda x: pickle.loads(pickle.dumps(2.0 * x)).dimensionality and list(pickle.loads(pickle.dumps(2.0 * x)).dimensionality)[0]):
            try:
                v = f(u)
                e['cp'].append({'b': enc(v), 'eq': bool(v == u), 'hash': hash(v) == hash(u), 'deq': bool(v.dimensionality == u.dimensionality),
                                'quot': encd((u / v).dimensionality), 'prod': encd((v * u).dimensionality),
                                'order': len({str((u * v * pq.m / pq.s).dimensionality), str((v * pq.m / pq.s * u).dimensionality)}) == 1})
            except Exception as x:
                e['cp'].append({'b': encerr(x)})
    except Exception as x:
        e['r'] = encerr(x)
    a1, a2 = snapshot(), labels_alive()
    e['regdiff'] = sorted({k for k in set(a1) | set(b1) if a1.get(k) != b1.get(k)} | {k for k in a2 if a2[k] != b2[k]})[:5]
    rec.event(e)


def pair(rec, s, t):
    e = {'o': 'cmp', 'f': 'pair', 'a': [{'k': 'S', 's': s}, {'k': 'S', 's': t}]}
    try:
        u, v = CompoundUnit(s), CompoundUnit(t)
        d = {u: 1}
        d[v] = d.get(v, 0) + 1
        e['r'] = {'k': 'P', 'quot': encd((1.0 * u / v).dimensionality), 'prod': encd((2 * (u * v)).dimensionality),
                  'deq': bool((2 * u).dimensionality == (3 * v).dimensionality), 'hash': hash(u) == hash(v), 'one': len((u * v).dimensionality) == 1}
    except Exception as x:
        e['r'] = encerr(x)
    rec.event(e)


def chain(rec, first, steps):
    """steps: [f, record or exponent]"""
    e = {'o': 'cmp', 'f': 'chain', 'a': [first], 'steps': [], 'rs': [], 'ds': []}
    try:
        q = dec(first)
        d = q.dimensionality
        e['a'] = [enc(q)]
        e['r'] = {'k': 'Z'}
        for f, x in steps:
            if f == 'pow':
                e['steps'].append({'f': f, 'p': x})
                q, d = q ** pnum(x), d ** pnum(x)
            else:
                y = dec(x)
                e['steps'].append({'f': f, 'x': enc(y)})
                q = q * y if f == 'mul' else q / y
                d = d * y.dimensionality if f == 'mul' else d / y.dimensionality
            e['rs'].append(enc(q))
            e['ds'].append(encd(d))
        e['simp'] = enc(q.simplified)
        r = q
        for k, x in list(q.dimensionality.items()):
            if isinstance(k, CompoundUnit):
                r = r / k ** x * k.definition ** x
        e['exp'] = enc(r)
    except Exception as x:
        e['r'] = encerr(x)
    rec.event(e)


def drive_cmp(rec, g, n):
    c = CGen(g)
    ok = sorted(pool())
    for i in range(n):
        x = g.r.random()
        if x < 0.25:
            new(rec, g.pick(ok) if g.chance(0.7) else g.pick(BADTXT) if g.chance(.6) else (spell(g, g.dims()) or 'm'))
        elif x < 0.45:
            s = g.pick(ok)
            y = g.r.random()
            t = s if y < 0.25 else g.pick(ok) if y < 0.5 else g.pick([s.replace('/', ' / '), s.replace('*', ' * '), '(' + s + ')', s + '**1', s.replace('**', '^'), '1*' + s, s.replace('*', '·')])
            try:
                pq.unit_registry[t] * 1.0
            except Exception:
                continue
            pair(rec, s, t)
        else:
            d0 = c.dims(g.pick([0, 1, 2]))
            first = c.q(d0, [], 'f8', special=0)
            if first['v'] == ['0'] or abs(float(first['v'][0])) < 1e-3:
                first['v'] = ['2.5']
            seen = [k for k, _ in d0]
            steps, l, v = [], c.lgd(d0), abs(float(first['v'][0]))
            for _ in range(g.pick([1, 2, 3, 4, 6])):
                y = g.r.random()
                if y < 0.15:
                    p = g.pick(['2', '-1', '-2', '0.5', '3', '1'])
                    if p == '0.5' and (first['v'][0].startswith('-')):
                        continue
                    if abs(l * float(p)) > 30:
                        continue
                    l *= float(p)
                    steps.append(['pow', p])
                    continue
                k = g.pick(seen) if seen and g.chance(0.4) else c.ckey() if g.chance(.6) else Gen.unit(g)
                f = g.pick(['mul', 'div'])
                s = 1 if f == 'mul' else -1
                if abs(l + s * LG.get(k, 0)) > 30:
                    continue
                l += s * LG.get(k, 0)
                seen.append(k)
                steps.append([f, g.u(k) if g.chance(0.6) else {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': [[k, '1']], 'v': [g.pick(['2', '0.5', '1', '4'])]}])
            if steps:
                chain(rec, first, steps)
    d_calc.drive_bin(rec, c, ['mul', 'div', 'pow', 'add', 'sub', 'eq', 'ne', 'lt', 'mod'], n // 2)
    d_calc.drive_conv(rec, c, n // 2)
    d_calc.drive_dim(rec, c, n // 4)
    d_text.drive_text(rec, c, n // 4)


def replay_cmp(rec, c):
    if c['f'] == 'new':
        new(rec, c['a'][0]['s'])
    elif c['f'] == 'pair':
        pair(rec, c['a'][0]['s'], c['a'][1]['s'])
    else:
        chain(rec, c['a'][0], c['steps'])
