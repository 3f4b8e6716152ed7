"""Seeded random operands, as records.  Units come from the committed reference catalogue."""
import json
import math
import os
import random
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
U = json.load(open(os.path.join(HERE, '..', 'spec', 'data', 'units.json')))
CST = json.load(open(os.path.join(HERE, '..', 'spec', 'data', 'constants.json')))


def lg(k):
    f = Fraction((U.get(k) or CST[k])['f'])
    return (math.log10(f.numerator) - math.log10(f.denominator)) if f > 0 else 0.0


LG = {k: lg(k) for k in list(U) + list(CST)}
GROUP = {}
for k, u in U.items():
    if k != 'dimensionless':
        GROUP.setdefault(json.dumps(u['b']), []).append(k)
BASE = {k: json.dumps(u['b']) for k, u in list(U.items()) + list(CST.items())}
COMMON = ['meter', 'kilometer', 'millimeter', 'foot', 'inch', 'second', 'millisecond', 'hour', 'minute', 'kilogram', 'gram',
          'pound', 'joule', 'newton', 'volt', 'ampere', 'radian', 'arcdegree', 'percent', 'count', 'hertz', 'liter', 'electron_volt',
          'mole', 'Kelvin', 'candela', 'bit', 'byte', 'pascal', 'dyne', 'centimeter', 'day']
COMMON = [c for c in COMMON if c in U]
DIMLESS = [k for k in U if not U[k]['b'] and k != 'dimensionless']
EXPS = ['1', '1', '1', '1', '1', '-1', '-1', '2', '-2', '3', '0.5', '-0.5', '1.5', '0.25', '-0.25', '-0.75']
SHAPES = [[], [], [], [3], [3], [1], [2, 3], [1, 3], [2, 1], [0], [2, 2, 2], [4]]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick(self, s):
        return self.r.choice(s)

    def chance(self, p):
        return self.r.random() < p

    def unit(self):
        return self.pick(COMMON) if self.chance(0.6) else self.pick([k for k in U if k != 'dimensionless'])

    def dims(self, n=None, exps=EXPS, lim=30):
        while True:
            m = self.pick([0, 1, 1, 1, 2, 2, 3]) if n is None else n
            d = {}
            for _ in range(m):
                d[self.unit()] = self.pick(exps)
            if abs(self.lgd(d.items())) < lim:
                d = [[k, e] for k, e in d.items()]
                self.r.shuffle(d)
                return d

    @staticmethod
    def lgd(d):
        return sum(LG[k] * float(e) for k, e in d if k in LG)

    def compatible(self, d, lim=25):
        """a signature of the same physical dimensions, usually a different one"""
        for _ in range(20):
            out = {}
            ok = True
            for k, e in d:
                if k.startswith('cmp:'):
                    ok = False
                    break
                g = GROUP[BASE[k]] if BASE[k] in GROUP else [k]
                c = self.pick(g) if self.chance(0.85) else k
                if self.chance(0.15):
                    for b, be in (U.get(k) or CST[k])['b']:
                        out[b] = out.get(b, 0) + float(be) * float(e)
                    continue
                out[c] = out.get(c, 0) + float(e)
            if not ok:
                continue
            if self.chance(0.1):
                c = self.pick(DIMLESS)
                out[c] = out.get(c, 0) + 1
            o = [[k, self.ex(e)] for k, e in out.items() if e]
            if abs(self.lgd(o) - self.lgd(d)) < lim:
                self.r.shuffle(o)
                return o
        return d

    @staticmethod
    def ex(e):
        return str(int(e)) if e == int(e) else repr(e)

    def value(self, dt='f8', special=0.04, nonneg=False):
        r = self.r
        if dt[0] in 'iu':
            v = r.choice([0, 1, 2, 3, 5, 7, 10, 60, 100, -1, -2, -7, r.randint(-50, 50)])
            return str(abs(v) if nonneg or dt[0] == 'u' else v)
        if dt == 'b1':
            return r.choice(['0', '1'])
        if dt[0] == 'c':
            return self.value('f8', 0, nonneg) + '|' + self.value('f8', 0, nonneg)
        if self.chance(special) and dt != 'f4':
            return r.choice(['inf', '-inf', 'nan'] if not nonneg else ['inf', 'nan'])
        c = r.random()
        if c < 0.35:
            v = r.choice([0, 1, 2, 3, 4, 5, 10, 12, 60, 100, 1000, -1, -2, -3, 0.5, 0.25, -1.5])
        elif c < 0.9:
            v = round(r.uniform(-20, 20), r.choice([1, 2, 3, 6]))
        else:
            v = r.uniform(1, 10) * 10 ** r.choice([-6, -3, 3, 6]) * r.choice([1, -1])
        if nonneg:
            v = abs(v)
        if dt == 'f4':
            import struct
            v = struct.unpack('f', struct.pack('f', v))[0]
        s = repr(v)
        s = s[:-2] if s.endswith('.0') else s
        return '0' if s == '-0' else s

    def shape(self):
        return list(self.pick(SHAPES))

    @staticmethod
    def size(sh):
        n = 1
        for s in sh:
            n *= s
        return n

    def dt(self):
        return self.pick(['f8'] * 8 + ['i8', 'i8', 'f4', 'i4', 'c16'])

    def vals(self, sh, dt='f8', **kw):
        return [self.value(dt, **kw) for _ in range(self.size(sh))]

    def q(self, d=None, sh=None, dt=None, special=0.04, nonneg=False):
        d = self.dims() if d is None else d
        sh = self.shape() if sh is None else sh
        dt = self.dt() if dt is None else dt
        if dt in ('f4', 'c8') and abs(self.lgd(d)) > 8:
            dt = 'f8'
        r = {'k': 'Q', 't': 'Q', 'dt': dt, 'sh': sh, 'd': d, 'v': self.vals(sh, dt, special=special, nonneg=nonneg)}
        if sh and self.chance(0.15):
            r['lay'] = self.pick(['F', 'step', 'rev'])
        return r

    def u(self, k=None):
        k = k or self.unit()
        return {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [] if k == 'dimensionless' else [[k, '1']]}

    def x(self, d=None, sh=None, relu=None):
        d = self.dims() if d is None else d
        sh = self.shape() if sh is None else sh
        r = {'k': 'Q', 't': 'X', 'dt': 'f8', 'sh': sh, 'd': d, 'v': self.vals(sh, 'f8', special=0)}
        r['u'] = [self.pick(['0', '0.1', '0.5', '1', '2', self.value('f8', 0, True)]) for _ in r['v']]
        return r

    def n(self, dt=None, special=0.02, npy=None):
        dt = dt or self.pick(['f8', 'i8', 'f8', 'i8', 'b1'])
        r = {'k': 'N', 'dt': dt, 'sh': [], 'v': [self.value(dt, special=special)]}
        if (self.chance(0.3) if npy is None else npy):
            r['np'] = True
        return r

    def a(self, sh=None, dt=None, special=0.03):
        sh = self.shape() if sh is None else sh
        dt = self.dt() if dt is None else dt
        return {'k': 'A', 'dt': dt, 'sh': sh, 'v': self.vals(sh, dt, special=special)}

    def partner_shape(self, sh):
        """a shape that usually broadcasts with sh"""
        c = self.r.random()
        if c < 0.45:
            return list(sh)
        if c < 0.65:
            return []
        if c < 0.75 and sh:
            return list(sh[1:])
        if c < 0.85:
            return [1 if self.chance(0.5) else s for s in sh]
        if c < 0.9:
            return [2] + list(sh)
        return self.shape()
