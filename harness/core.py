"""Projection of python-quantities objects to logged records, and back.

This side contains no expected values: it builds arguments, calls the library and writes down what happened.  The only
oracle is the TLA+ specification (spec/Trace.tla)."""
import copy
import json
import operator
import os
import sys
import warnings

import numpy as np

warnings.simplefilter('ignore')
np.seterr(all='ignore')

import quantities as pq
from quantities.dimensionality import Dimensionality
from quantities.unitquantity import UnitQuantity, UnitConstant, CompoundUnit

Quantity, UncertainQuantity = pq.Quantity, pq.UncertainQuantity


# ---- library -> record ---------------------------------------------------------------------------------------------

def num(x):
    """exact text of one number"""
    if isinstance(x, (bool, np.bool_)):
        return '1' if x else '0'
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        re, im = num(float(x.real)), num(float(x.imag))
        return re if im == '0' else re + '|' + im
    if isinstance(x, np.longdouble) and not isinstance(x, float):
        x = float(x)
    x = float(x)
    s = repr(x)
    if s.endswith('.0'):
        s = s[:-2]
    return '0' if s == '-0' else s


def exps(e):
    e = e.item() if hasattr(e, 'item') else e
    if isinstance(e, int):
        return str(e)
    if isinstance(e, float):
        s = repr(e)
        return s[:-2] if s.endswith('.0') else s
    return repr(e)


def ukey(u):
    n = u.name
    if isinstance(u, UnitConstant):
        return 'const:' + n
    if isinstance(u, CompoundUnit):
        return 'cmp:' + (n[1:-1] if n.startswith('(') and n.endswith(')') else n)
    if _units is not None:               # units defined during a history under the name of another class of unit
        o = _units.get(n)
        if o is not None and type(o) is not type(u):
            return type(u).__name__ + '/' + n
    return n


def encd(d):
    return [[ukey(u), exps(e)] for u, e in d.items()]


def encarr(a):
    a = np.asarray(a)
    return {'dt': a.dtype.str.lstrip('<>|='), 'sh': list(a.shape), 'v': [num(x) for x in a.ravel(order='C')]}


def enc(x):
    if isinstance(x, Quantity):
        r = encarr(np.ndarray.view(x, np.ndarray))
        r['k'] = 'Q'
        r['t'] = 'X' if isinstance(x, UncertainQuantity) else 'U' if isinstance(x, UnitQuantity) else 'Q'
        r['d'] = encd(x.dimensionality)
        if r['t'] == 'X':
            u = x.uncertainty
            ur = encarr(np.ndarray.view(u, np.ndarray)) if isinstance(u, Quantity) else {'sh': [-1], 'v': []}
            r['u'], r['ush'] = ur['v'], ur['sh']
            r['ud'] = encd(u.dimensionality) if isinstance(u, Quantity) else []
        return r
    if isinstance(x, Dimensionality):
        return {'k': 'D', 'd': encd(x)}
    if isinstance(x, (bool, np.bool_)) and not isinstance(x, np.ndarray):
        return {'k': 'N', 'dt': 'b1', 'sh': [], 'v': [num(x)]}
    if isinstance(x, (int, float, complex, np.number)):
        if isinstance(x, int) and not isinstance(x, bool) and abs(x) >= 2**63:
            return {'k': 'N', 'dt': 'O', 'sh': [], 'v': [num(x)]}
        r = encarr(x)
        r['k'] = 'N'
        if isinstance(x, np.generic):
            r['np'] = True
        return r
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in 'biufc':
            return {'k': 'O', 't': 'ndarray:' + x.dtype.kind}
        r = encarr(x)
        r['k'] = 'A'
        return r
    if isinstance(x, str):
        return {'k': 'S', 's': x}
    if isinstance(x, (list, tuple)):
        return {'k': 'L', 'l': [enc(i) for i in x]}
    if x is None:
        return {'k': 'Z'}
    return {'k': 'O', 't': type(x).__name__}


def encerr(e):
    return {'k': 'E', 'mro': [c.__name__ for c in type(e).__mro__ if c is not object], 'msg': str(e)[:120]}


# ---- record -> library ---------------------------------------------------------------------------------------------

_units = None


def units():
    global _units
    if _units is None:
        _units = {}
        for ns in (pq.units, pq):
            for n in dir(ns):
                o = getattr(ns, n)
                if isinstance(o, UnitQuantity) and not isinstance(o, UnitConstant):
                    _units.setdefault(ukey(o), o)
        for n in dir(pq.constants):
            o = getattr(pq.constants, n)
            if isinstance(o, UnitConstant):
                _units.setdefault(ukey(o), o)
    return _units


_compound = {}


def unit(k):
    if k.startswith('cmp:'):
        if k not in _compound:
            _compound[k] = CompoundUnit(k[4:])
        return _compound[k]
    return units()[k]


def pnum(s):
    if '|' in s:
        re, im = s.split('|')
        return complex(float(pnum(re)), float(pnum(im)))
    if '/' in s:
        p, q = s.split('/')
        return int(p) / int(q)
    try:
        return int(s)
    except ValueError:
        return float(s)


def decd(d):
    return Dimensionality({unit(k): pnum(e) for k, e in d})


def decarr(r):
    dt = np.dtype(r.get('dt', 'f8'))
    a = np.array([pnum(v) for v in r['v']], dtype=dt).reshape(r['sh'])
    lay = r.get('lay')
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'step' and a.ndim:
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=dt)
        b[::2] = a
        a = b[::2]
    elif lay == 'rev' and a.ndim:
        a = np.ascontiguousarray(a[::-1])[::-1]
    return a


def dec(r):
    k = r['k']
    if k == 'Q':
        if r['t'] == 'U':
            if not r['d']:
                return unit('dimensionless')
            return unit(r['d'][0][0])
        a = decarr(r)
        if r['t'] == 'X':
            q = UncertainQuantity(a, decd(r['d']), np.array([pnum(v) for v in r['u']], dtype='d').reshape(r['sh']),
                                  dtype=a.dtype)
            return q
        return Quantity(a, decd(r['d']))
    if k == 'A':
        return decarr(r)
    if k == 'N':
        dt = r.get('dt', 'f8')
        v = pnum(r['v'][0])
        if r.get('np'):
            return np.dtype(dt).type(v)
        if dt == 'b1':
            return bool(v)
        return complex(v) if dt.startswith('c') else int(v) if dt[0] in 'iu' else float(v)
    if k == 'S':
        return r['s']
    if k == 'D':
        return decd(r['d'])
    if k == 'L':
        return [dec(x) for x in r['l']] if r.get('c', 'list') == 'list' else tuple(dec(x) for x in r['l'])
    if k == 'Z':
        return None
    if k == 'P':                         # a python object of a kind the library does not know
        return {'obj': object(), 'dict': {}, 'set': set(), 'str': 'abc'}[r['p']]
    raise ValueError('dec: ' + repr(r))


# ---- recording -----------------------------------------------------------------------------------------------------

class Rec:
    def __init__(self, path, per=150):
        self.f = open(path, 'w', encoding='utf-8')
        self.n = 0
        self.per = per
        self.left = 0
        self.counts = {}

    def line(self, d):
        self.f.write(json.dumps(d, ensure_ascii=False, separators=(',', ':')) + '\n')
        self.n += 1

    def begin(self, **kw):
        self.left = self.per
        self.line(dict(o='begin', **kw))

    def event(self, d):
        """one independent event (histories of such events are cut every `per` lines)"""
        if self.left <= 0:
            self.begin()
        self.left -= 1
        self.line(d)
        self.counts[d['o']] = self.counts.get(d['o'], 0) + 1

    def call(self, o, recs, f, args=None, post=True, extra=None, res=enc):
        """decode recs (unless args are given), call f(*args), log"""
        e = {'o': o}
        if extra:
            e.update(extra)
        try:
            if args is None:
                args = [dec(r) for r in recs]
            e['a'] = [enc(a) for a in args]
        except Exception as x:
            self.event({'o': 'make', 'a': [], 'rec': json.dumps(recs), 'r': encerr(x)})
            return None
        r = None
        try:
            r = f(*args)
            e['r'] = res(r)
        except Exception as x:
            e['r'] = encerr(x)
        if post:
            try:
                e['post'] = [enc(a) for a in args]
            except Exception as x:
                e['post'] = [encerr(x)]
        self.event(e)
        return r

    def close(self):
        self.f.close()


def fails(f, *a):
    try:
        f(*a)
        return False
    except Exception:
        return True
