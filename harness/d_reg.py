"""Drivers for the shared state of the unit system (C06 C08 C17): every history runs in a forked process of its own."""
import pickle

from core import *
import core
import gen as G_
from gen import Gen
import d_calc
from d_calc import call, shares, spell
import quantities.unitquantity as uq
import quantities.quantity as qm

CLS = ['UnitLength', 'UnitMass', 'UnitTime', 'UnitCurrent', 'UnitLuminousIntensity', 'UnitSubstance', 'UnitTemperature',
       'UnitInformation', 'UnitCurrency']
KINDS = ['length', 'mass', 'time', 'current', 'luminous_intensity', 'substance', 'temperature', 'information', 'currency']
KIND_OF = dict(zip(CLS, KINDS))
EX = {'length': ['meter', 'kilometer', 'centimeter', 'foot', 'inch', 'parsec', 'mile', 'angstrom'],
      'mass': ['kilogram', 'gram', 'pound', 'milligram', 'ounce', 'atomic_mass_unit'],
      'time': ['second', 'minute', 'hour', 'millisecond', 'day'], 'current': ['ampere', 'milliampere', 'abampere', 'biot'],
      'luminous_intensity': ['candela'], 'substance': ['mole', 'mmole'], 'temperature': ['Kelvin', 'Rankine', 'Celsius'],
      'information': ['bit', 'byte', 'kilobyte'], 'currency': []}
EX = {k: [x for x in v if x in G_.U] for k, v in EX.items()}


def fp(u):
    d = u.definition
    if not isinstance(d, Quantity):
        d = Quantity(d)
    return {'def': enc(Quantity(d.magnitude, d.dimensionality)) if not (isinstance(d, UnitQuantity)) else enc(d),
            'sym': u.symbol, 'usym': u.u_symbol}


def print_of(u):
    """cheap summary of everything a unit shows"""
    d = u.definition
    return (type(u), u.name, u.symbol, u.u_symbol, u.shape, np.ndarray.item(u), np.ndarray.item(d), [(k.name, e) for k, e in d.dimensionality.items()])


_base = {}
_print = {}


def baseline():
    if not _base:
        reg = pq.unit_registry
        for k, r in G_.U.items():
            for l in r['labels']:
                try:
                    u = reg[l]
                    if not isinstance(u, UnitQuantity) or reg[l] is not u:
                        continue
                    _base[l] = u
                    _print[id(u)] = print_of(u)
                except Exception:
                    pass
    return _base


class Hist:
    def __init__(self, rec):
        self.rec = rec
        self.labels = set()
        self.live = []
        self.src = []
        self.k = 0

    # ---- what is observable afterwards
    def observe(self, e):
        lab = []
        reg = pq.unit_registry
        base = baseline()
        same = {}
        every = 1 if e['f'] in ('def', 'bind', 'mut', 'udup') else 7
        self.k += 1
        for j, (l, u0) in enumerate(base.items()):
            if every > 1 and (j + self.k) % every:
                continue
            try:
                u = reg[l]
                if u is u0:
                    if id(u) not in same:
                        same[id(u)] = print_of(u) == _print[id(u)]
                    if same[id(u)]:
                        continue
                lab.append(dict(l=l, key=ukey(u), **fp(u)))
            except Exception as x:
                lab.append({'l': l, 'key': '', 'err': type(x).__name__})
        for l in sorted(self.labels - set(base)):
            try:
                u = reg[l]
            except Exception:
                continue
            if isinstance(u, UnitQuantity):
                lab.append(dict(l=l, key=ukey(u), **fp(u)))
        e['lab'] = lab
        df = []
        for c in CLS:
            u = getattr(uq, c).get_default_unit()
            df.append([c, [['none', '1']] if u is None else encd(u.dimensionality)])
        e['df'] = df
        e['live'] = [enc(q) for q in self.live]
        self.rec.event(e)

    def reg(self, e, f):
        e = dict(e, o='reg')
        r = None
        try:
            r = f()
            e['r'] = enc(r) if r is not None else {'k': 'Z'}
        except Exception as x:
            e['r'] = encerr(x)
        return e, r

    # ---- events
    def define(self, op):
        cls = getattr(uq, op['cls'])
        e = {k: op[k] for k in ('f', 'cls', 'name', 'sym', 'usym', 'al', 'bad')}
        if 'like' in op:
            e['like'] = op['like']
            u = unit(op['like'])
            d = None if op['like'] in ('meter', 'kilogram', 'second') else u.definition
            if d is u:
                d = None
            e['def'] = enc(d) if d is not None else {'k': 'Z'}
            if d is not None and isinstance(d, UnitQuantity):
                e['def'] = enc(Quantity(1.0, d.dimensionality))
        else:
            d = dec(op['def'])
            e['def'] = op['def'] if op['def']['k'] == 'Z' else enc(d)
        if isinstance(d, np.ndarray) and d.dtype.kind in 'iu':
            d = d.astype('d') if not isinstance(d, Quantity) else Quantity(d, d.dimensionality, dtype='d')
        cat = units().get(op['name'])
        e['key'] = op['name'] if cat is None or type(cat) is cls else op['cls'] + '/' + op['name']
        name, sym, al = op['name'], op['sym'] or None, list(op['al'])
        if op['bad'] == 'name':
            name = 3
        elif op['bad'] == 'symbol':
            sym = 3
        elif op['bad'] == 'alias':
            al = al + [3]
        self.labels |= {op['name'], *op['al']} | ({op['sym']} if op['sym'] else set())
        e, u = self.reg(e, lambda: cls(name, d, sym, op['usym'] or None, al))
        if u is not None:
            e['key'] = ukey(u)
            units().setdefault(e['key'], u)
            self.learn(e, u)
            if isinstance(d, Quantity) and not isinstance(d, UnitQuantity):
                self.src.append(d)
                if op.get('mut'):
                    self.mutate(d, op['mut'])
        self.observe(e)

    def learn(self, e, u):
        """let the generator use the new unit (bookkeeping for choosing operands, not an oracle)"""
        k = e['key']
        if k in G_.U or k in G_.CST:
            return
        d = e['def']
        if d['k'] == 'Z':
            if e['cls'] != 'UnitQuantity' and not (e['cls'] == 'UnitCurrency' and 'currency' not in KINDS_ON):
                return
            b, f = [[k, '1']], '1'
            if e['cls'] == 'UnitCurrency':
                KINDS_ON.add('currency')
        elif d['k'] == 'N':
            b, f = [], d['v'][0]
        else:
            b = {}
            for x, ex in d['d']:
                if x not in G_.U and x not in G_.CST:
                    return
                for y, ey in (G_.U.get(x) or G_.CST[x])['b']:
                    b[y] = b.get(y, 0) + float(ex) * float(ey)
            b = sorted([y, Gen.ex(v)] for y, v in b.items() if v)
            f = float(d['v'][0]) * 10 ** Gen.lgd(d['d'])
            if not (1e-60 < abs(f) < 1e60) or f < 0:
                return
            f = str(G_.Fraction(f))
        if float(d['v'][0]) <= 0 if d['k'] != 'Z' else False:
            return
        G_.U[k] = {'f': f, 'b': b, 'labels': [l for l in {e['name'], e['sym'], *e['al']} if l and l.isidentifier() and l not in baseline()]}
        G_.LG[k] = G_.lg(k)
        G_.BASE[k] = json.dumps(b)
        G_.GROUP.setdefault(G_.BASE[k], []).append(k)
        G_.COMMON.extend([k] * 8)
        if e['cls'] in KIND_OF:
            EX[KIND_OF[e['cls']]].extend([k] * 3)

    def mutate(self, q, how):
        try:
            if how == 'imul':
                q *= 3
            elif how == 'set':
                q[...] = 7 * q.units
            elif how == 'units':
                q.units = pq.Quantity(1.0, q.simplified.dimensionality)
            elif how == 'mag':
                q.magnitude[...] = 11
            elif how == 'iadd':
                q += q.units
            elif how == 'idim':
                q /= pq.s
        except Exception:
            pass

    def bind(self, op):
        u = unit(op['key'])
        self.labels.add(op['label'])

        def f():
            pq.unit_registry[op['label']] = u
        e, _ = self.reg({'f': 'bind', 'label': op['label'], 'key': ukey(u)}, f)
        self.observe(e)

    def dflt(self, op):
        kw = {}
        src = []
        for k, r in op['kw']:
            kw[k] = dec(r)
            if isinstance(kw[k], Quantity) and not isinstance(kw[k], UnitQuantity):
                src.append(kw[k])
        e, _ = self.reg({'f': 'dflt', 'sys': op['sys'], 'kw': [[k, enc(v)] for k, v in kw.items()]},
                        lambda: pq.set_default_units(op['sys'] or None, **kw) if op['sys'] or not op.get('nosys') else pq.set_default_units(**kw))
        for q in src:
            if op.get('mut'):
                self.mutate(q, op['mut'])
        self.observe(e)

    def pref(self, op):
        l = [dec(r) for r in op['a']]

        def f():
            if op.get('inplace'):
                qm.PREFERRED[:] = l
            else:
                qm.PREFERRED = l
        e, _ = self.reg({'f': 'pref', 'a': [enc(x) for x in l]}, f)
        self.observe(e)

    def prefresc(self, op):
        q = self.live[op['live'] % len(self.live)] if 'live' in op and self.live else dec(op['a'][0])
        ex = {}

        def f():
            r = q.rescale() if op.get('via') else q.rescale_preferred()
            ex['al'] = bool(shares(r, (q,)))
            return r
        a = [enc(q)]
        e, _ = self.reg({'f': 'prefresc', 'a': a}, f)
        e.update(ex)
        e['post'] = [enc(q)]
        self.observe(e)

    def keep(self, op):
        q = dec(op['a'][0])
        self.live.append(q)
        e, _ = self.reg({'f': 'keep', 'a': [enc(q)]}, lambda: None)
        self.observe(e)

    def mut(self, op):
        u = unit(op['key'])
        x = dec(op['a'][0]) if op.get('a') else 2
        e, r = self.reg({'f': 'mut', 'how': op['how'], 'key': ukey(u)}, lambda: MUT[op['how']](u, x) and None)
        e['fp'] = dict(fp(u), u=enc(u))
        self.observe(e)

    def udup(self, op):
        u = unit(op['key'])
        how = op['how']

        def f():
            if how == 'copy':
                return u.copy()
            if how == 'copy.copy':
                return copy.copy(u)
            if how == 'deepcopy':
                return copy.deepcopy(u)
            if how == 'container':
                return copy.deepcopy({'a': [u, (u,)]})['a'][1][0]
            return pickle.loads(pickle.dumps(u, int(how)))
        e, r = self.reg({'f': 'udup', 'how': how, 'key': ukey(u)}, f)
        e['fp0'] = dict(fp(u), type=type(u).__name__, ord=list(u.format_order))
        e['fp'] = dict(fp(r), type=type(r).__name__, ord=list(r.format_order)) if r is not None else {}
        self.observe(e)
        if r is not None and op.get('use', True):
            units()[ukey(u)] = r          # later operations go on with the copy

    def liveconv(self, op):
        """conversion and simplification of a quantity the program keeps"""
        if not self.live:
            return
        q = self.live[op['live'] % len(self.live)]
        ex = {}

        def f(q, *to):
            r = q.rescale(*to) if to else q.simplified
            ex['al'] = bool(shares(r, (q,)))
            return r
        args = [q] + ([dec(op['a'][0])] if op.get('a') else [])
        e = {'o': 'rescale' if op.get('a') else 'simplified', 'a': [enc(x) for x in args]}
        try:
            e['r'] = enc(f(*args))
        except Exception as x:
            e['r'] = encerr(x)
        e['post'] = [enc(x) for x in args]
        e.update(ex)
        self.rec.event(e)

    def run(self, op):
        o = op['o']
        if o == 'reg':
            getattr(self, {'def': 'define'}.get(op['f'], op['f']))(op)
        elif o == 'live':
            self.liveconv(op)
        elif o == 'parse':
            import d_text
            d_text.parse(self.rec, op['s'], op.get('where'))
        elif o == 'text':
            import d_text
            d_text.replay_text(self.rec, op)
        else:
            d_calc.replay(self.rec, op)


KINDS_ON = set()


def _set(u, x):
    u[...] = x


def _units(u, x):
    u.units = x


def _mag(u, x):
    u.magnitude[...] = 2


def _view(u, x):
    u.view(Quantity)[...] = 2 * u


def _itemp(u, x):
    u.put([0], 5 * u)


def _real(u, x):
    u.real = 2 * u


def _defset(u, x):
    d = u.definition
    d[...] = 5 * d.units


def _defmul(u, x):
    d = u.definition
    d *= 2


def _defunits(u, x):
    d = u.definition
    d.units = d.simplified.units


def _defdim(u, x):
    d = u.definition
    d /= pq.s


def _simp(u, x):
    s = u.simplified
    s *= 2
    s[...] = 7 * s.units
    s /= pq.s


def _dim(u, x):
    d = u.dimensionality
    d[pq.s] = 9
    d *= pq.m.dimensionality


def _defdd(u, x):
    d = u.definition.dimensionality
    d[pq.s] = 9


def _one(u, x):
    q = 1 * u
    q *= 7
    q.units = q.simplified.units
    q = u * 1.0
    q += q


def _uunits(u, x):
    v = (1 * u).units
    v *= 2
    v[...] = 5 * u


def _lookup(u, x):
    v = pq.unit_registry[u.name + '*m']
    v *= 2
    v /= pq.s


def _resc(u, x):
    v = u.rescale(u.dimensionality)
    v *= 3
    v = u.rescale(u.simplified.dimensionality)
    v *= 3


def _copyto(u, x):
    np.copyto(u, 2 * u)


def _default(u, x):
    for c in ('UnitLength', 'UnitMass', 'UnitTime'):
        d = getattr(uq, c).get_default_unit()
        try:
            d *= 2
        except TypeError:
            d.units = 'm'


def _iops(f):
    return lambda u, x: f(u, x)


MUT = {'iadd': _iops(operator.iadd), 'isub': _iops(operator.isub), 'imul': _iops(operator.imul), 'itruediv': _iops(operator.itruediv),
       'ifloordiv': _iops(operator.ifloordiv), 'imod': _iops(operator.imod), 'ipow': _iops(operator.ipow), 'setitem': _set, 'units': _units,
       'fill': lambda u, x: u.fill(x), 'put': _itemp, 'mag': _mag, 'view': _view, 'real': _real, 'sort': lambda u, x: u.sort(),
       'out': lambda u, x: np.multiply(u, 2, out=u), 'outadd': lambda u, x: np.add(u, u, out=u), 'outq': lambda u, x: np.negative(2 * u, out=u),
       'sumout': lambda u, x: pq.Quantity([1., 2.], u.dimensionality).sum(out=u), 'clipout': lambda u, x: (5 * u).clip(1 * u, 2 * u, out=u),
       'defset': _defset, 'defmul': _defmul, 'defunits': _defunits, 'defdim': _defdim, 'defdd': _defdd, 'simp': _simp, 'dim': _dim, 'one': _one,
       'uunits': _uunits, 'lookup': _lookup, 'resc': _resc, 'copyto': _copyto, 'default': _default}


# ---- histories -----------------------------------------------------------------------------------------------------

def history(rec, ops, seed=None, gen=None, n=0):
    """run one history in a forked process; ops is a list of operations or gen makes them"""
    baseline()
    units()
    rec.f.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            rec.n, rec.counts, rec.per = 0, {}, 10**9
            rec.begin(hist=True)
            h = Hist(rec)
            if ops is not None:
                for op in ops:
                    h.run(op)
            else:
                gen(h, Gen(seed), n)
            rec.f.flush()
            os.write(w, json.dumps([rec.n, rec.counts]).encode())
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError('history failed: status %d seed %s' % (st, seed))
    k, counts = json.loads(data)
    rec.n += k
    for o, c in counts.items():
        rec.counts[o] = rec.counts.get(o, 0) + c
    rec.left = 0


NAMES = ['vpa', 'vpb', 'vpc', 'vpd', 'vpe', 'vpf']
SYMS = ['va', 'vb', 'vc', 'm', 'ft', 'kg', 'Hz', 'vpa', 'xx']
ODD = ['m', 'meter', 'foot', 'N', 'my unit', 'm*s', 'dimensionless', 'hertz', 'percent', '1x', 'metro']


def opdef(g):
    cls = g.pick(['UnitQuantity'] * 3 + CLS + ['UnitLength', 'UnitMass'])
    kind = KIND_OF.get(cls)
    name = g.pick(NAMES) if g.chance(0.8) else g.pick(ODD)
    op = {'o': 'reg', 'f': 'def', 'cls': cls, 'name': name, 'sym': g.pick(['', '', g.pick(SYMS)]), 'usym': g.pick(['', '', '', 'µx']),
          'al': [g.pick(NAMES + ODD + SYMS + ['UnitQuantity']) for _ in range(g.pick([0, 0, 1, 2]))], 'bad': g.pick(['name', 'symbol', 'alias']) if g.chance(0.04) else ''}
    if g.chance(0.1):
        k = g.pick(['foot', 'hertz', 'meter', 'gram', 'liter', 'newton'] + [k for k in NAMES if k in units()])
        u = unit(k)
        op.update(like=k, cls=type(u).__name__, name=u.name, sym=u.symbol if u.symbol != u.name else '', usym=u.u_symbol if u.u_symbol != u.symbol else '',
                  al=[g.pick(NAMES)] if g.chance(0.4) else [], bad='')
        return op
    if g.chance(0.12) or (cls == 'UnitCurrency' and not EX['currency']):
        op['def'] = {'k': 'Z'}
    elif g.chance(0.08) and cls == 'UnitQuantity':
        op['def'] = {'k': 'N', 'dt': 'f8', 'sh': [], 'v': [g.pick(['2', '0.5', '100'])]}
    else:
        if kind:
            d = [[g.pick(EX[kind] or ['meter']), '1']]
        else:
            d = g.dims(lim=12)
        v = g.pick(['1', '2', '0.5', '12', '0.3048', '100', '1e-3'])
        op['def'] = {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': d, 'v': [v]}
        if len(d) == 1 and d[0][1] == '1' and g.chance(0.25):
            op['def'] = g.u(d[0][0])
        elif g.chance(0.5):
            op['mut'] = g.pick(['imul', 'set', 'units', 'mag', 'iadd', 'idim'])
    return op


def uarg(g, d, bad=0.1):
    """a unit argument for signature d"""
    c = g.r.random()
    if c < 0.4:
        s = spell(g, d)
        if s:
            return {'k': 'S', 's': s}
    if c < 0.75 and len(d) == 1 and d[0][1] == '1':
        return g.u(d[0][0])
    return {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': d, 'v': ['1' if not g.chance(bad) else '2']}


def opdflt(g):
    sys_ = g.pick(['', '', '', 'SI', 'cgs', 'si', 'CGS', 'Cgs']) if not g.chance(0.06) else g.pick(['mks', 'imperial', 'S I', 'none'])
    kw = []
    for kind in g.r.sample(KINDS, g.pick([0, 1, 1, 2, 3]) if sys_ else g.pick([1, 1, 2, 3])):
        if kind == 'currency' and not EX['currency'] and not g.chance(0.2):
            continue
        pool = EX[kind] or ['meter']
        if g.chance(0.12):
            pool = EX[g.pick(KINDS)] or ['radian']
        d = [[g.pick(pool), '1']]
        if g.chance(0.06):
            r = g.pick([{'k': 'S', 's': 'nosuchunit'}, {'k': 'S', 's': '2*km'}, {'k': 'S', 's': 'm/s'}, {'k': 'S', 's': 'm.__class__'},
                        {'k': 'N', 'dt': 'i8', 'sh': [], 'v': ['3']}, {'k': 'S', 's': ''}, {'k': 'D', 'd': d}, {'k': 'S', 's': 'radian'}])
        else:
            r = uarg(g, d, 0.06)
        kw.append([kind, r])
    return {'o': 'reg', 'f': 'dflt', 'sys': sys_, 'kw': kw, 'mut': g.pick(['', 'imul', 'set', 'units', 'mag'])}


def val(g, d, sh=None):
    return g.q(d, sh, dt=g.pick(['f8', 'f8', 'f8', 'i8', 'c16']), special=0.02)


def seldims(g):
    if g.chance(0.5):
        return [[g.pick(EX[g.pick(KINDS[:7])]), '1']]
    return g.dims(lim=20)


def opcalc(g):
    c = g.r.random()
    d = seldims(g)
    a = val(g, d)
    a.pop('lay', None)
    if g.chance(0.1) and len(d) == 1 and d[0][1] == '1':
        a = g.u(d[0][0])
    elif g.chance(0.1):
        a = g.x(d)
    if c < 0.4:
        return {'o': 'simplified', 'a': [a]}
    if c < 0.75:
        return {'o': 'rescale', 'a': [a, d_calc.target(g, d)]}
    if c < 0.82:
        return {'o': 'dim', 'f': g.pick(['simplified', 'ndims']), 'a': [{'k': 'D', 'd': d}]}
    if c < 0.9:
        b = val(g, g.compatible(d), a['sh'])
        b.pop('lay', None)
        if 'c16' in (a['dt'], b['dt']) and any(v in ('inf', '-inf', 'nan') for x in (a, b) for v in x['v']):
            a['v'], b['v'] = ([v if v not in ('inf', '-inf', 'nan') else '1' for v in x['v']] for x in (a, b))
        return {'o': g.pick(['add', 'sub', 'eq', 'mul', 'div']), 'a': [a, b]}
    s = g.pick(NAMES + SYMS + ODD) if g.chance(0.5) else (spell(g, d) or 'm')
    return {'o': 'parse', 's': s, 'where': g.pick(['registry', 'quantity', 'compound', 'registry'])}


def oppref(g):
    l = []
    for _ in range(g.pick([0, 1, 2, 3, 4])):
        d = seldims(g)
        if l and g.chance(.5):
            # one more of the same kind
            d = g.pick(l)['d']
            d = seldims(g) if d[:1] and d[0][0].startswith('cmp:') else g.compatible(d) if d else d
        if g.chance(.25):
            # spelled in base units
            try:
                s = encd(Quantity(1.0, decd(d)).simplified.dimensionality)
                d = s if all(k in U and len(e) < 4 for k, e in s) else d
            except Exception:
                pass
        l.append(g.u(d[0][0]) if len(d) == 1 and d[0][1] == '1' and g.chance(.7) else
                 {'k': 'Q', 't': 'U', 'dt': 'f8', 'sh': [], 'v': ['1'], 'd': [[g.pick(['cmp:km/hour', 'cmp:mm*V', 'cmp:m/s']), '1']]} if g.chance(0.1) else
                 {'k': 'Q', 't': 'Q', 'dt': 'f8', 'sh': [], 'd': d, 'v': ['1']})
    return {'o': 'reg', 'f': 'pref', 'a': l, 'inplace': g.chance(0.2)}


def hist_reg(h, g, n):
    """registry and definitions (C06)"""
    for _ in range(n):
        c = g.r.random()
        user = [k for k in G_.U if k[:2] == 'vp'] or ['foot']
        if c < 0.38:
            h.run(opdef(g))
        elif c < 0.45:
            h.run({'o': 'reg', 'f': 'bind', 'label': g.pick(NAMES + SYMS + ODD), 'key': g.pick(user + ['meter', 'foot', 'hertz'])})
        elif c < 0.65:
            k = g.pick(user * 3 + ['meter', 'foot', 'joule', 'liter', 'percent', 'radian', 'kilogram', 'gram', 'dimensionless', 'pound'] + [g.unit()])
            x = [g.pick([g.n('i8'), g.u(k), g.q([[k, '1']], [], dt='f8', special=0), {'k': 'S', 's': 'cm'}])]
            h.run({'o': 'reg', 'f': 'mut', 'key': k, 'how': g.pick(sorted(MUT)), 'a': x})
        elif c < 0.72:
            h.run({'o': 'reg', 'f': 'udup', 'key': g.pick(user * 3 + ['meter', 'foot', 'percent', g.unit()]),
                   'how': g.pick(['copy', 'copy.copy', 'deepcopy', 'container', '0', '1', '2', '3', '4', '5']), 'use': g.chance(0.7)})
        elif c < 0.76:
            h.run(opdflt(g))
        elif c < 0.8:
            h.run({'o': 'reg', 'f': 'keep', 'a': [val(g, seldims(g))]})
        else:
            h.run(opcalc(g))


def hist_dflt(h, g, n):
    """default units (C08)"""
    for i in range(n):
        c = g.r.random()
        if c < 0.33:
            h.run(opdflt(g))
        elif c < 0.4:
            h.run(opdef(g))
        elif c < 0.47:
            h.run({'o': 'reg', 'f': 'keep', 'a': [val(g, seldims(g))]})
        elif c < 0.6 and h.live:
            q = encd(h.live[0].dimensionality)
            h.run({'o': 'live', 'live': g.r.randrange(9)} if g.chance(0.6) else
                  {'o': 'live', 'live': 0, 'a': [uarg(g, g.compatible(q), 0)]})
        else:
            h.run(opcalc(g))


def hist_pref(h, g, n):
    """preferred units (C17)"""
    for i in range(n):
        c = g.r.random()
        if c < 0.2 or i == 0:
            p = oppref(g)
            h.run(p)
            ds = [x['d'] for x in p['a'] if x['t'] == 'Q' or not x['d'][0][0].startswith('cmp:')] if p['a'] else []
        elif c < 0.3:
            h.run(opdflt(g))
        elif c < 0.36:
            h.run(opdef(g))
        elif c < 0.4:
            h.run({'o': 'reg', 'f': 'keep', 'a': [val(g, seldims(g))]})
        else:
            d = g.compatible(g.pick(ds)) if ds and g.chance(0.75) else seldims(g)
            q = val(g, d)
            q.pop('lay', None)
            if g.chance(0.12):
                q = g.x(d)
            elif g.chance(0.12) and len(d) == 1 and d[0][1] == '1':
                q = g.u(d[0][0])
            op = {'o': 'reg', 'f': 'prefresc', 'a': [q], 'via': g.chance(0.4)}
            if h.live and g.chance(0.2):
                op['live'] = g.r.randrange(9)
            h.run(op)


def drive_reg(rec, g, n, kind, length=10):
    f = {'reg': hist_reg, 'dflt': hist_dflt, 'pref': hist_pref}[kind]
    for _ in range(n):
        history(rec, None, seed=g.r.getrandbits(48), gen=f, n=g.pick([length // 2, length, length * 2]))
