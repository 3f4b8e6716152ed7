#!/usr/bin/env python3
"""One-time generator of spec/data/units.json and constants.json (run with /opt/venv/bin/python).

The output is *reviewed and committed*: it is the reference catalogue of the specification, never regenerated by a
check.  Flattened factors (f, b) are exact rationals computed from the definitions with Fraction arithmetic.
"""
import json, os, sys
from fractions import Fraction as F
from decimal import Decimal, getcontext
getcontext().prec = 45
import quantities as pq
from quantities.registry import unit_registry

here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, '..', 'spec', 'data')
ctx = unit_registry._UnitRegistry__registry._Registry__context


def exp(e):
    e = float(e)
    return str(int(e)) if e == int(e) else repr(e)


def powf(f, e):
    e = F(e)
    if e.denominator == 1:
        return f ** int(e)
    if e.denominator == 2:
        d = (Decimal(f.numerator) / Decimal(f.denominator)).sqrt()
        r = F(d)
        r2 = F(str(d)).limit_denominator(10**60)
        return r2 ** int(e.numerator)
    raise ValueError(e)


units, order = {}, []
for label, u in ctx.items():
    if not isinstance(u, pq.UnitQuantity):
        continue
    units.setdefault(u.name, (u, []))[1].append(label)
consts = {}
attrs_u, attrs_c = {}, {}
for n in dir(pq):
    o = getattr(pq, n)
    if isinstance(o, pq.UnitQuantity):
        attrs_u.setdefault(o.name, []).append(n)
for n in dir(pq.constants):
    o = getattr(pq.constants, n)
    if isinstance(o, pq.UnitConstant):
        consts.setdefault(o.name, (o, []))[1].append(n)


def key(u):
    return ('const:' if isinstance(u, pq.UnitConstant) else '') + u.name


flat = {}


def flatten(u):
    k = key(u)
    if k in flat:
        return flat[k]
    if u._definition is None:
        r = (F(1), {k: F(1)}) if k != 'dimensionless' else (F(1), {})
    elif k == 'dimensionless':
        r = (F(1), {})
    else:
        r = flatdims(F(repr(float(u._definition.magnitude))), u._definition.dimensionality)
    flat[k] = r
    return r


def flatdims(f, dims):
    b = {}
    for v, e in dims.items():
        fv, bv = flatten(v)
        f = f * powf(fv, F(float(e)))
        for kk, ee in bv.items():
            b[kk] = b.get(kk, 0) + ee * F(float(e))
            if b[kk] == 0:
                del b[kk]
    return f, b


def rec(u, labels, attrs):
    f, b = flatten(u)
    d = u._definition
    r = {
        'name': u.name, 'cls': type(u).__name__, 'sym': u.symbol, 'usym': u.u_symbol,
        'def': [] if d is None or d is u else
        [repr(float(d.magnitude)), [[key(v), exp(e)] for v, e in d.dimensionality.items()]],
        'f': str(f), 'b': [[kk, exp(e)] for kk, e in sorted(b.items())],
        'labels': sorted(labels), 'attrs': sorted(attrs),
    }
    if isinstance(u, pq.UnitConstant):
        s = getattr(d, 'uncertainty', None)
        r['sigma'] = '0' if s is None else repr(float(s.magnitude))
    return r


U = {k: rec(u, l, attrs_u.get(k, [])) for k, (u, l) in units.items()}
C = {'const:' + k: rec(u, [], a) for k, (u, a) in consts.items()}
for name, d in (('units', U), ('constants', C)):
    with open(os.path.join(out, name + '.json'), 'w') as f:
        json.dump(d, f, ensure_ascii=False, indent=0, sort_keys=True)
    print(name, len(d))
L = {l: k for k, u in U.items() for l in u['labels']}
json.dump(L, open(os.path.join(out, 'labels.json'), 'w'), ensure_ascii=False, indent=0, sort_keys=True)
