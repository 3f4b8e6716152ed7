"""Drivers for unit strings and printed forms (C07 C09)."""
import itertools
import builtins

import numpy as np

from core import *
from gen import Gen, U
from d_calc import call, spell, CMPU
from quantities import markup

HITS = []
builtins.vp_canary = lambda *a: HITS.append(1)

LABELS = [l for k, u in U.items() for l in u['labels']]
WHERE = ['registry', 'quantity', 'quantity', 'rescale', 'setunits', 'compound']
_n = [0]


def parse(rec, s, where=None, q=None):
    if where is None:
        _n[0] += 1
        where = WHERE[_n[0] % len(WHERE)]
    if q is None:
        q = {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': [['centimeter', '1']], 'v': ['2.5']}
    del HITS[:]
    ex = {}

    def f(q):
        try:
            if where == 'registry':
                return pq.unit_registry[s]
            if where == 'quantity':
                return pq.Quantity(np.array(q.magnitude), s)
            if where == 'rescale':
                return q.rescale(s)
            if where == 'setunits':
                q.units = s
                return q
            if where == 'compound':
                return pq.CompoundUnit(s)
        finally:
            ex['exec'] = bool(HITS)
    call(rec, 'parse', [q], f, ex, f=where, s=s)


HOSTILE = ["vp_canary()", "m*vp_canary()", "m.vp_canary", "(lambda: vp_canary())()", "[vp_canary() for m in (1,)]", "vp_canary", "m if 1 else s",
           "m and s", "not m", "m < s", "m == m", "[m]", "{m}", "{'m': 1}", "(m,)", "m[0]", "m.__class__", "m.units", "m.real", "f'{m}'", "print(m)",
           "__import__('os')", "m; s", "m\ns", "x := m", "m = s", "import os", "lambda: m", "yield", "await m", "...", "'m'", "m*'s'", "b'm'", "None", "True",
           "m @ s", "m | s", "~m", "m & s", "m << 2", "foo", "m*foo", "m/unknown_unit", "Meter", "KG", "metres2", "m s", "m 2", "2m", "m2", "m**s",
           "m**(2*s)", "2**m", "m**", "**2", "*m", "m*", "/m", "m/", "()", "(m", "m)", "((m)", "m//", "1/", "m^", "^2", "m..s", ".m", "m.", "m.2", "m+s", "m-s",
           "m+m", "m+1", "-m", "+m", "2*m", "m/2", "0*m", "m*0.5", "1*m", "1/m", "1", "2", "0", "1.5", "1e3", "m**0", "m**0.5", "m**-1", "m**1e1", "m**(1/2)",
           "m*1.0", "2*m/2", "%", "%*m", "m%", "m % s", "°", "°C", "µm", "Ω", "m²", "in", "IN", "In", "in*m", "m/in", "ft/in", "in**2", "as", "as**2", "m/as", "min", "pin",
           "inch", "is", "a", "a*s", "", " ", "  m", "m ", " m / s ", "m\t*s", "dimensionless", "dimensionless*m", "m/dimensionless", "kg.m/s", "N.m", "N.m.s", "kg.m**2.s",
           "m·s", "kg·m^2/s^2", "m^-1", "m^0.5", "(m/s)/(s*kg)", "m/(s)", "m/s/s", "m/s*s", "m*s**-2", "((m))", "(m)**2", "(m*s)**2", "(m**2)**0.5", "(m/s)**-1",
           "m**2**2", "(m**2)**3", "#m", "m#", "m # s", "m,s", "m:s", "m!", "m?", "$m", "m\\s", "`m`", "m''", "\"m\"", "m if", "@m", "0x1", "1j*m", "1_0*m", "01*m", "m**1j"]


def cases(w):
    return {''.join(x) for x in itertools.product(*[(c.lower(), c.upper()) for c in w])}


KEYWORDS = sorted(x for w in ('as', 'in', 'if', 'is', 'or') for x in cases(w))
CASED = sorted({x for l in LABELS if l.isascii() and l.isalpha() and len(l) <= 3 for x in cases(l)}
               | {f(l) for l in LABELS if l.isascii() and l.isalpha() for f in (str.upper, str.swapcase, str.capitalize)})


def drive_parse(rec, g, n):
    seen = []
    for i in range(n):
        c = g.r.random()
        if c < 0.12 and seen:
            s = g.pick(seen)
        elif c < 0.40:
            s = g.pick(HOSTILE)
        elif c < 0.75:
            s = spell(g, g.dims(lim=60))
            if s is None:
                continue
            if g.chance(0.3):
                s = s.replace('**', '^') if g.chance(.5) else s.replace('*', '·').replace('··', '**')
            if g.chance(0.2):
                s = s.replace('/', ' / ')
        elif c < 0.83:
            l = [x for x in LABELS if x.isalpha()]
            s = '.'.join(g.pick(l) for _ in range(g.pick([2, 2, 3])))
        elif c < 0.9:
            s = g.pick(LABELS)
            if g.chance(0.7):           # names are case sensitive, except the whole string "in"
                s = g.pick(CASED if g.chance(0.8) else KEYWORDS)
                if g.chance(0.4):
                    o = g.pick([x for x in LABELS if x.isalpha()])
                    s = g.pick(['%s*%s', '%s/%s', '%s**2/%s', '%s %s']) % g.pick([(s, o), (o, s)])
        else:
            s = spell(g, g.dims(lim=60)) or 'm'
            j = g.r.randrange(len(s) + 1)
            m = g.pick(['*', '/', '(', ')', '^', 'x', '2', ' ', '', '.', '=', '[', '_', '-', '+'])
            s = s[:j] + m + s[j + (m == ''):]
        if len(s) > 60 or s.count('**') + s.count('^') > 4 or '**1' in s and '**1' != s and False:
            continue
        seen.append(s)
        where = g.pick(WHERE)
        q = None
        if where in ('rescale', 'setunits'):
            try:
                d = encd(pq.Quantity(1, s).dimensionality)
                if all(k in U for k, _ in d) and abs(g.lgd(d)) < 40:
                    q = g.q(g.compatible(d) if g.chance(0.8) else None, dt='f8', special=0)
                    q.pop('lay', None)
            except Exception:
                pass
        elif g.chance(0.3):
            q = g.q(dt='f8', special=0)
        parse(rec, s, where, q)


# ---- printing ------------------------------------------------------------------------------------------------------

DF = {'string': lambda d: d.string, 'unicode': lambda d: d.unicode, 'latex': lambda d: d.latex, 'html': lambda d: d.html, 'dstr': str}


def with_mode(uni, f):
    old = markup.config.use_unicode
    markup.config.use_unicode = uni
    try:
        return f()
    finally:
        markup.config.use_unicode = old


def text(rec, f, r, uni=False, spec=''):
    ex = {}

    def g(x):
        if f in DF:
            s = with_mode(uni, lambda: DF[f](x))
            if f == 'string' and not uni:
                try:
                    ex['rp'] = enc(pq.Quantity(1.0, s))
                except Exception as e:
                    ex['rp'] = encerr(e)
            return s
        ex['m'], ex['mr'] = str(x.magnitude), repr(x.magnitude)
        if isinstance(x, UncertainQuantity):
            ex['um'] = str(x.uncertainty.magnitude)
        if f == 'format':
            ex['mf'] = format(x.magnitude, spec)
        return with_mode(uni, lambda: str(x) if f == 'str' else repr(x) if f == 'repr' else format(x, spec))
    call(rec, 'text', [r], g, ex, f=f, uni=uni, spec=spec)


def text2(rec, d1, d2, f, uni=False):
    """two signatures printed; d2 is built in another order or by arithmetic"""
    def build(d):
        q = None
        for k, e in d:
            p = unit(k) ** pnum(e)
            q = p if q is None else q * p
        return (q if q is not None else pq.dimensionless).dimensionality
    e = {'o': 'text2', 'f': f, 'uni': uni}
    try:
        a = [decd(d1), build(d2)]
    except Exception as x:
        rec.event({'o': 'make', 'a': [], 'rec': json.dumps([d1, d2]), 'r': encerr(x)})
        return
    e['a'] = [enc(x) for x in a]
    for n, x in zip(('r', 'r2'), a):
        try:
            e[n] = enc(with_mode(uni, lambda: DF[f](x)))
        except Exception as x:
            e[n] = encerr(x)
    e['post'] = [enc(x) for x in a]
    rec.event(e)


PEXP = ['1', '1', '-1', '2', '-2', '3', '-3', '0.5', '-0.5', '1.5', '10', '-10', '12', '21', '100', '0.25', '-1.5', '2.5', '20', '1e-05', '0.1', '0.3333333333333333', '-0.30000000000000004', '1e+20']


def drive_text(rec, g, n):
    for _ in range(n):
        c = g.r.random()
        m = g.pick([0, 1, 1, 2, 2, 3, 4])
        pool = [g.pick(CMPU)] if g.chance(0.12) else []
        d = {}
        for k in pool + [g.unit() for _ in range(m)]:
            d[k] = g.pick(PEXP)
        if g.chance(0.05):
            d['const:' + g.pick(['atomic_unit_of_velocity', 'Planck_constant', 'elementary_charge'])] = '1'
        d = [[k, e] for k, e in d.items()]
        if len(d) < 5 and g.chance(.03):
            for k in [g.unit() for _ in range(5)]:
                d.append([k, g.pick(['-1', '-1', '-2', '-0.5'])])
            d = [list(x) for x in dict(map(tuple, d)).items()]
        if len(d) > 6 or any(k.startswith('const:') and k not in units() for k, _ in d):
            continue
        uni = g.chance(0.35)
        if c < 0.45:
            text(rec, g.pick(['string', 'string', 'unicode', 'latex', 'html', 'dstr']), {'k': 'D', 'd': d}, uni)
        elif c < 0.7:
            e = [list(x) for x in d]
            g.r.shuffle(e)
            if g.chance(0.4) and e:
                i = g.r.randrange(len(e))
                if g.chance(.5):
                    e[i][1] = g.pick(['1', '2', '-1', '-2', '3', '10', '0.5'])
                else:
                    e[i][0] = g.unit()
                    e = [list(x) for x in {k: x for k, x in e}.items()]
            if any(abs(float(x)) > 100 for _, x in e):
                continue
            text2(rec, d, e, g.pick(['string', 'string', 'unicode', 'latex', 'html']), uni)
        else:
            x = g.pick([lambda: g.q(d, special=0.02), lambda: g.q(d, special=0.02), lambda: g.u(), lambda: g.x(d)])()
            if x['t'] == 'U' and g.chance(0.3):
                x = {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'],
                     'd': [[g.pick(CMPU), '1']] if g.chance(.5) else [['const:' + g.pick(['atomic_unit_of_velocity']), '1']]}
            x.pop('lay', None)
            f = 'str' if x['t'] != 'Q' else g.pick(['str', 'repr', 'format'])
            spec = ''
            if f == 'format':
                x['sh'], x['v'] = [], (x['v'] or ['1.5'])[:1]
                spec = g.pick(['', '.2f', '10.3e', 'g', '+.1f', '']) if x['dt'][0] == 'f' else ''
            text(rec, f, x, uni, spec)


_t = [0]


def replay_text(rec, c):
    _t[0] += 1
    text(rec, 'string', {'k': 'D', 'd': c['d']})
    f = ['unicode', 'latex', 'html', 'dstr'][_t[0] % 4]
    text(rec, f, {'k': 'D', 'd': c['d']}, bool(_t[0] & 4))
