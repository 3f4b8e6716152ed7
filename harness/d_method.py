"""Drivers for array methods (C12)."""
from core import *
from gen import Gen
from d_calc import call, CMPU
RED = ['sum', 'nansum', 'mean', 'nanmean', 'var', 'std', 'nanstd', 'prod', 'min', 'max', 'nanmin', 'nanmax', 'ptp',
       'argmin', 'argmax', 'nanargmin', 'nanargmax']
MOVE = ['reshape', 'ravel', 'flatten', 'T', 'transpose', 'swapaxes', 'squeeze', 'take', 'repeat', 'diagonal']
HASOUT = ['sum', 'nansum', 'mean', 'nanmean', 'var', 'std', 'nanstd', 'prod', 'min', 'max', 'nanmin', 'nanmax', 'ptp', 'cumsum', 'trace',
          'round', 'clip', 'cumprod']
DTP = ['sum', 'nansum', 'mean', 'nanmean', 'var', 'std', 'nanstd', 'prod', 'cumsum', 'cumprod', 'trace']
NPF = {'sum': np.sum, 'mean': np.mean, 'var': np.var, 'std': np.std, 'prod': np.prod, 'min': np.min, 'max': np.max, 'cumsum': np.cumsum,
       'argmin': np.argmin, 'argmax': np.argmax, 'argsort': np.argsort, 'trace': np.trace, 'clip': np.clip, 'round': np.round,
       'searchsorted': np.searchsorted, 'nonzero': np.nonzero, 'reshape': np.reshape, 'ravel': np.ravel, 'transpose': np.transpose,
       'swapaxes': np.swapaxes, 'squeeze': np.squeeze, 'take': np.take, 'repeat': np.repeat, 'diagonal': np.diagonal}
IS = {}


def axarg(ax):
    return None if not ax else ax[0] if len(ax) == 1 else tuple(ax)


def invoke(f, q, rest, p, via, o=None):
    """the call described by p on q"""
    kw = {} if o is None else {'out': o}
    m = (lambda *a, **k: NPF[f](q, *a, **k)) if via == 'np' else (lambda *a, **k: getattr(q, f)(*a, **k))
    ax = axarg(p.get('ax'))
    if p.get('dtp'):
        kw['dtype'] = p['dtp']
    if f in RED or f in ('cumsum', 'cumprod'):
        if f in ('var', 'std', 'nanstd') and p.get('ddof'):
            kw['ddof'] = p['ddof']
        if p.get('pos') and ax is not None:
            return m(ax, **kw)
        if ax is not None:
            kw['axis'] = ax
        return m(**kw)
    if f == 'trace':
        if p.get('dax'):
            return m(p['off'], *p['dax'], **kw) if p.get('pos') else m(offset=p['off'], axis1=p['dax'][0], axis2=p['dax'][1], **kw)
        return m(p['off'], **kw) if p['off'] else m(**kw)
    if f == 'round':
        if via == 'builtin':
            return round(q, p['dec'])
        return m(p['dec'], **kw) if p['dec'] else m(**kw)
    if f == 'clip':
        lo, hi = rest
        if via == 'np' or p.get('pos'):
            return m(lo, hi, **kw)
        k = {}
        if lo is not None:
            k['min'] = lo
        if hi is not None:
            k['max'] = hi
        return m(**k, **kw)
    if f == 'searchsorted':
        return m(rest[0], side=p['side'])
    if f == 'argsort':
        return m(axis=ax)
    if f == 'npsort':
        return np.sort(q, axis=ax)
    if f in ('nonzero', 'ravel', 'flatten'):
        return m()
    if f == 'reshape':
        return m(tuple(p['sh2'])) if p.get('pos') or via == 'np' or not p['sh2'] else m(*p['sh2'])
    if f == 'T':
        return q.T
    if f == 'transpose':
        return m(p['perm'])
    if f == 'swapaxes':
        return m(*p['ax'])
    if f == 'squeeze':
        return m() if ax is None else m(axis=ax)
    if f == 'take':
        i = np.array(p['ind'], dtype=int).reshape(p['ish'])
        return m(i, **kw) if ax is None else m(i, axis=ax, **kw)
    if f == 'repeat':
        return m(p['n']) if ax is None else m(p['n'], axis=ax)
    if f == 'diagonal':
        if p.get('dax'):
            return m(p['off'], *p['dax'])
        return m(p['off']) if p['off'] else m()
    raise KeyError(f)


def meth(rec, f, recs, p, via='method', out=None):
    ex = {}

    def g(q, *rest):
        o = None
        if out is not None:
            o = dec(out)
            ex['out'] = enc(o)
            ex['is'] = False
        try:
            r = invoke(f, q, rest, p, via, o)
            ex['is'] = r is o
            if isinstance(r, np.ndarray) and out is None:
                ex['al'] = bool(any(np.shares_memory(r, x) for x in (q,) + rest if isinstance(x, np.ndarray)))
            return r
        finally:
            if o is not None:
                ex['opost'] = enc(o)
            else:
                ex.pop('is', None)
    kw = dict(ax=[], ddof=0)
    kw.update({k: v for k, v in p.items() if k != 'pos'})
    call(rec, 'meth', recs, g, ex, f=f, via=via, **kw)


def axes(g, n, tup=True, none=0.35):
    if g.chance(none) or n == 0:
        return []
    if g.chance(0.05):
        return [g.pick([n, -n - 1])]
    if tup and n > 1 and g.chance(0.2):
        return g.r.sample(range(n), 2)
    return [g.pick(list(range(-n, n)))]


def drive_badout(rec, g, n):
    """methods given an output they cannot store their result in"""
    for _ in range(n):
        f = g.pick(['sum', 'nansum', 'mean', 'nanmean', 'var', 'std', 'prod', 'min', 'max', 'ptp', 'cumsum', 'take', 'take', 'trace', 'round', 'cumprod'])
        sh = g.pick([[2, 3], [3, 2], [2, 2]])
        a = g.q(sh=sh, dt='f8', special=0)
        a.pop('lay', None)
        p = {'pos': g.chance(.4), 'off': 0, 'dec': 1}
        ax = g.pick([0, 1])
        if f == 'trace':
            osh = []
        elif f == 'round':
            osh = sh
        else:
            p['ax'] = [ax]
            osh = sh if f[:3] == 'cum' else [s for i, s in enumerate(sh) if i != ax]
        if f == 'take':
            p['ish'], p['ind'] = [2], [g.r.randrange(-sh[ax], sh[ax]) for _ in 'ab']
            osh = [2 if i == ax else s for i, s in enumerate(sh)]
        out = g.q(a['d'] if g.chance(.5) else None, osh if g.chance(.5) else g.pick([[7], [5, 4]]), 'f8')
        if g.chance(.5):
            out = g.a(osh or [1], 'f8')
        out.pop('lay', None)
        meth(rec, f, [a], p, 'method', out)


def drive_meth(rec, g, n):
    for _ in range(n):
        f = g.pick(RED * 3 + ['cumsum', 'cumprod', 'trace', 'round', 'clip', 'clip', 'argsort', 'npsort', 'searchsorted', 'searchsorted', 'nonzero'] * 2 + MOVE)
        a = g.q(special=0.06 if f.startswith('nan') or g.chance(.3) else 0)
        if g.chance(.07):
            a = g.x()
        if g.chance(0.03):
            a = g.q([[g.pick(CMPU), '1']])
        if a['dt'] == 'c16':
            if f not in ('sum', 'mean', 'prod', 'cumsum', 'trace') + tuple(MOVE):
                continue
        if a['dt'] == 'f4' and f in ('prod', 'cumprod', 'var', 'std', 'round', 'nanstd', 'clip'):
            a['dt'] = 'f8'
        nd = len(a['sh'])
        p, rest = {'pos': g.chance(.4)}, []
        X = a['t'] == 'X'
        if f in RED:
            p['ax'] = axes(g, nd, f not in ('prod',) and f[:3] != 'arg' and f[:6] != 'nanarg' and not (X and f in ('mean', 'nanmean', 'min', 'max', 'nanmin', 'nanmax')))
            if f in ('var', 'std', 'nanstd'):
                p['ddof'] = g.pick([0, 0, 1])
            if f == 'prod':
                a['v'] = ['2' if v not in ('nan', 'inf', '-inf') and '|' not in v and abs(float(v)) > 100 else v for v in a['v']]
                if abs(Gen.lgd(a['d'])) * max(1, g.size(a['sh'])) > 60:
                    continue
        elif f in ('cumsum', 'cumprod', 'argsort', 'npsort'):
            p['ax'] = axes(g, nd, False)
            if f == 'cumprod':
                if g.chance(.6):
                    a['d'] = []
                a['v'] = ['2' if v not in ('nan', 'inf', '-inf') and abs(float(v)) > 100 else v for v in a['v']]
            if f in ('argsort', 'npsort'):
                if not nd or a['dt'] in ('b1', 'c16'):
                    continue
                if any(v in ('inf', '-inf') for v in a['v']):
                    continue
        elif f == 'trace':
            p['off'] = g.pick([0, 0, 1, -1])
            if nd < 2 and g.chance(.9):
                a = g.q(sh=g.pick([[2, 2], [2, 3], [3, 2], [2, 2, 2], [3, 3]]), special=0)
        elif f == 'round':
            p['dec'] = g.pick([0, 0, 1, 2, 3, -1])
            if a['dt'] in ('i8', 'i4') and p['dec'] < 0:
                continue
        elif f == 'clip':
            if a['dt'] == 'c16':
                continue
            for _ in range(2):
                c = g.r.random()
                if c < 0.2:
                    rest.append({'k': 'Z'})
                elif c < 0.9:
                    d = a['d'] if g.chance(0.3) else g.compatible(a['d']) if g.chance(.9) else g.dims()
                    sh = g.pick([[], [], [], a['sh'], a['sh'][-1:]])
                    rest.append(g.q(d, sh, dt=g.pick(['f8', 'f8', 'i8']), special=0))
                elif c < 0.95 and len(a['d']) == 1 and a['d'][0][1] == '1' and not a['d'][0][0].startswith('cmp'):
                    rest.append(g.u(a['d'][0][0]))
                else:
                    rest.append(g.n('f8', special=0))
            if a['t'] == 'X':
                continue
        elif f == 'searchsorted':
            sh = [g.pick([3, 4, 1, 0, 5])]
            a = g.q(sh=sh, special=0, dt=g.pick(['f8', 'i8']))
            a['v'] = sorted(a['v'], key=float)
            p['side'] = g.pick(['left', 'right'])
            d = a['d'] if g.chance(0.6) else g.compatible(a['d']) if g.chance(.6) else g.dims()
            y = g.q(d, g.shape(), dt='f8', special=0) if g.chance(.9) else g.n('f8', special=0)
            if g.chance(.5) and a['v']:
                y['v'] = [g.pick(a['v']) if g.chance(.5) else v for v in y['v']]
            rest = [y]
        elif f == 'reshape':
            s = g.size(a['sh'])
            c = [[s], [1, s], [s, 1]] + [[i, s // i] for i in range(1, s + 1) if s and s % i == 0]
            p['sh2'] = g.pick(c) if g.chance(.93) else [s + 1]
        elif f == 'transpose':
            p['perm'] = list(range(nd))
            g.r.shuffle(p['perm'])
            if g.chance(.05):
                p['perm'] = p['perm'] + [0]
            if not nd:
                continue
        elif f == 'swapaxes':
            if not nd:
                continue
            p['ax'] = [g.pick(list(range(-nd, nd))), g.pick(list(range(-nd, nd)))]
            if g.chance(.05):
                p['ax'][1] = nd
        elif f == 'squeeze':
            if g.chance(.6):
                a = g.q(sh=g.pick([[1], [1, 3], [2, 1], [1, 1, 2], [1, 2, 1], [2, 2]]), special=0)
            p['ax'] = axes(g, len(a['sh']), False, .6) if a['sh'] else []
        elif f == 'take':
            p['ax'] = axes(g, nd, False, .4)
            p['ish'] = g.pick([[2], [3], [], [2, 2], [1]])
            if p['ax'] and not -nd <= p['ax'][0] < nd:
                m = 1
            else:
                m = a['sh'][p['ax'][0]] if p['ax'] else g.size(a['sh'])
            if m == 0:
                continue
            p['ind'] = [g.r.randrange(-m, m) for _ in range(g.size(p['ish']))]
            if g.chance(.05) and p['ind']:
                p['ind'][0] = m
        elif f == 'repeat':
            p['ax'] = axes(g, nd, False, .5)
            p['n'] = g.pick([1, 2, 3, 0])
            if p['n'] == 0 and nd == 0:
                continue
        elif f == 'diagonal':
            p['off'] = g.pick([0, 0, 1, -1])
            if nd < 2 and g.chance(.9):
                a = g.q(sh=g.pick([[2, 2], [2, 3], [3, 2], [2, 2, 2], [3, 3]]), special=0)
        if f in ('trace', 'diagonal') and g.chance(.35):
            nd = len(a['sh'])
            if nd >= 2:
                p['dax'] = g.r.sample(range(nd), 2) if g.chance(.7) else [g.pick(list(range(-nd, nd))), g.pick(list(range(-nd, nd)))]
        if f in DTP and not X and g.chance(.2) and a['dt'] in ('f8', 'i8', 'i4', 'f4'):
            p['dtp'] = g.pick(['f8', 'f8', 'f4', 'i8', 'c16'])
            if f[:3] == 'nan' or f in ('var', 'std', 'prod', 'cumprod'):
                p['dtp'] = 'f8'
            if p['dtp'] == 'i8' and a['dt'][0] != 'i' and any(v in ('nan', 'inf', '-inf') for v in a['v']) or p['dtp'] == 'c16' and any(v in ('nan', 'inf', '-inf') for v in a['v']):
                p['dtp'] = 'f8'
        if f[:6] == 'nanarg' and any('inf' in v for v in a['v']):
            continue
        if X and f in ('mean', 'nanmean') and not g.size(a['sh']):
            continue
        if not nd and f == 'nonzero':
            continue
        if len(p.get('ax', [])) > 1 and f == 'ptp' and X:
            continue
        via = 'np' if g.chance(.25) and f in NPF else 'builtin' if f == 'round' and g.chance(.2) else 'method'
        out = None
        if f in HASOUT + ['take'] and g.chance(.25) and not X and a['dt'] in ('f8', 'i8') and via != 'builtin':
            try:
                sh = list(np.asarray(invoke(f if f != 'nansum' else 'sum', np.zeros(a['sh']), [], p, 'method')).shape) if f not in ('clip', 'nanmean', 'nanmin', 'nanmax', 'nanstd') else None
            except Exception:
                sh = None
            if sh is None:
                if f == 'clip':
                    sh = a['sh']
                elif not p.get('ax'):
                    sh = []
                else:
                    continue
            if g.chance(.05) and g.size(a['sh']) > (1 if f in ('cumsum', 'cumprod') else 0):
                sh = [7]
            out = g.q(sh=sh, dt='f8')
            if a.get('lay') == 'rev':
                del a['lay']                  # NumPy 2.0 itself reduces reversed arrays into an output wrongly
            p.pop('dtp', None)
            if f == 'take' and a['dt'] == 'i8':
                continue
            if f == 'take':
                via = 'method'                # NumPy's function falls back on its own implementation after a TypeError
            if g.chance(.05 if f != 'take' else .3):
                out = g.a(sh, 'f8')
            if g.chance(.5) and out['k'] == 'Q':
                out['d'] = a['d']
            if a['dt'] == 'i8' and f in ('round', 'min', 'max', 'clip', 'cumsum', 'ptp', 'sum', 'prod'):
                continue
        meth(rec, f, [a] + rest, p, via, out)
