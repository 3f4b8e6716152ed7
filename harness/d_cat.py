"""Drivers for the shipped catalogue of units and constants (C14, C15): exhaustive over labels, attributes and pairs."""
import importlib
import pkgutil

import quantities.constants
import quantities.units
from core import *
from gen import Gen, U, CST, GROUP
from d_calc import call
from quantities.registry import unit_registry

LAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data', 'labels.json')))


# names a submodule gives to something else than the package does (the package-level name counts), and the one label that is
# itself an expression (it denotes the same physical unit, spelled out)
LOCAL = {('quantities.units.length', 'pt'), ('quantities.constants.atomicunits', 'hbar'), ('quantities.constants.atomicunits', 'm_e')}
EXPRS = {'(esu/s)'}


def modules(pkg):
    out = [pkg]
    for m in pkgutil.iter_modules(pkg.__path__):
        if not m.name.startswith('_'):
            out.append(importlib.import_module(pkg.__name__ + '.' + m.name))
    return out


def cat(rec, via, s, get, where=''):
    e = {'o': 'cat', 'via': via, 's': s, 'where': where, 'a': []}
    try:
        u = get()
        e['r'] = enc(u)
        if isinstance(u, UnitQuantity):
            e.update(sym=u.symbol, usym=u.u_symbol, name=u.name)
        else:
            e.update(sym='', usym='', name='')
        e['si'] = enc(u.simplified)
    except Exception as x:
        e['r'] = encerr(x)
        e.setdefault('si', encerr(x))
    rec.event(e)


def names(rec, via, l):
    rec.event({'o': 'names', 'via': via, 'l': sorted(l), 'a': [], 'r': {'k': 'Z'}})


def drive_units(rec, shard, nsh):
    """every label through the registry and as text, every attribute of every module"""
    jobs = []
    for l in sorted(set(LAB) - EXPRS):
        jobs.append(('label', l, lambda l=l: unit_registry[l], 'registry'))
        jobs.append(('text', l, lambda l=l: Quantity(1.0, l), 'Quantity'))
        jobs.append(('text', l, lambda l=l: Quantity(1.0, Quantity(2.0, l).units), 'units'))
    ua = sorted({a for u in U.values() for a in u['attrs']})
    for m in [pq] + modules(quantities.units):
        for a in ua:
            if m in (pq, quantities.units) or hasattr(m, a) and isinstance(getattr(m, a), UnitQuantity) and (m.__name__, a) not in LOCAL:
                jobs.append(('units', a, lambda m=m, a=a: getattr(m, a), m.__name__))
    for j in jobs[shard::nsh]:
        cat(rec, *j)
    if shard == 0:
        names(rec, 'units', [a for a in dir(pq) if isinstance(getattr(pq, a), UnitQuantity)])
        names(rec, 'units', [a for a in dir(pq.units) if isinstance(getattr(pq.units, a), UnitQuantity)])
        ok = []
        for l in LAB:
            try:
                unit_registry[l]
                ok.append(l)
            except Exception:
                pass
        names(rec, 'label', ok)


def drive_pairs(rec, shard, nsh):
    """conversion of one unit into every unit of the same dimensions"""
    jobs = [(a, b) for g in GROUP.values() for a in g for b in g if a in U and b in U]
    for a, b in jobs[shard::nsh]:
        one = {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': [[a, '1']], 'v': ['1']}
        call(rec, 'rescale', [one, {'k': 'D', 'd': [[b, '1']]}], lambda q, d: q.rescale(d), {})


def drive_pow(rec, g, n):
    """powers and products of catalogue units in base units"""
    from d_calc import drive_conv
    for _ in range(n):
        k = g.pick(list(U))
        e = g.pick(['2', '3', '-1', '-2', '0.5'])
        if k == 'dimensionless' or abs(Gen.lgd([[k, e]])) > 40:
            continue
        q = g.q([[k, e]], dt='f8', special=0)
        call(rec, 'simplified', [q], lambda q: q.simplified, {})


def drive_consts(rec, g, shard, nsh, n):
    ca = sorted({a for u in CST.values() for a in u['attrs']})
    jobs = []
    for m in modules(pq.constants):
        for a in ca:
            if m is pq.constants or hasattr(m, a) and isinstance(getattr(m, a), UnitConstant) and (m.__name__, a) not in LOCAL:
                jobs.append(('constants', a, lambda m=m, a=a: getattr(m, a), m.__name__))
    for j in jobs[shard::nsh]:
        cat(rec, *j)
    if shard == 0:
        names(rec, 'constants', [a for a in dir(pq.constants) if isinstance(getattr(pq.constants, a), UnitConstant)])
    # each constant converted to SI, to another unit of its dimensions, in products, sums and powers
    ks = sorted(CST)
    for i, k in enumerate(ks[shard::nsh]):
        for t in range(1 + n):
            e = g.pick(['1', '1', '-1', '2', '0.5'])
            d = [[k, e]]
            if g.chance(0.4):
                d.append([g.pick(ks), g.pick(['1', '-1'])])
                if d[1][0] == k:
                    d.pop()
            if abs(Gen.lgd(d)) > 120:
                continue
            x = g.q(d, g.pick([[], [2], [3]]), dt='f8', special=0)
            y = g.u(k)
            c = g.r.random()
            tgt = base_of(g, d)
            if tgt is None or abs(Gen.lgd(tgt)) > 120:
                tgt = d
            if c < .25:
                call(rec, 'rescale', [x, {'k': 'D', 'd': tgt}], lambda q, d: q.rescale(d), {})
            elif c < .4:
                call(rec, 'simplified', [x], lambda q: q.simplified, {})
            elif c < .55:
                z = g.q(tgt, x['sh'], dt='f8', special=0)
                s = scale(d, tgt)
                z['v'] = [num(float(v) * 10.0 ** s) for v in z['v']]
                call(rec, 'add', [x, z], lambda a, b: a + b, {})
            elif c < .7:
                call(rec, 'mul', [x, y], lambda a, b: a * b, {})
            elif c < .8:
                call(rec, 'div', [g.q(dt='f8', special=0), y], lambda a, b: a / b, {})
            elif c < .9:
                call(rec, 'simplified', [y], lambda q: q.simplified, {})
            else:
                call(rec, 'rescale', [y, {'k': 'D', 'd': base_of(g, [[k, '1']]) or [[k, '1']]}], lambda q, d: q.rescale(d), {})


def scale(d, t):
    return max(-200, min(200, round(Gen.lgd(d) - Gen.lgd(t))))


def base_of(g, d):
    out = {}
    for k, e in d:
        for b, be in (U.get(k) or CST[k])['b']:
            out[b] = out.get(b, 0) + float(be) * float(e)
    r = []
    for b, e in out.items():
        if e:
            u = g.pick(GROUP[json.dumps([[b, '1']])]) if json.dumps([[b, '1']]) in GROUP and g.chance(.5) else b
            r.append([u, g.ex(e)])
    return r


def replay_cat(rec, c):
    pass
