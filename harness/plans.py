"""What each property check runs: model-checking modules of the specification (whose behaviours are replayed on the library)
and, in drive.py, the seeded drivers.  Imported by check.py (no numpy here) and drive.py."""

CALC = '{"mul", "div", "fdiv", "pow"}'
SUM = '{"add", "sub", "mod", "lt", "le", "gt", "ge"}'
CMP = '{"eq", "ne", "lt", "le", "gt", "ge"}'



def sim(n, depth):
    return lambda tier, seed: ['-simulate', 'num=%d' % (n if tier == 'quick' else n * 40), '-depth', str(depth), '-seed', str(seed)]


def heap(*focus):
    return ([('MC_Heap', {'DEPTH': '3', 'FOCUS': f}) for f in focus]
            + [('MC_Heap', {'DEPTH': '8', 'FOCUS': f}, sim(40, 12)) for f in focus])


def reg(focus, depth=2):
    return [('MC_Reg', {'DEPTH': str(depth), 'FOCUS': focus}), ('MC_Reg', {'DEPTH': '6', 'FOCUS': focus}, sim(12, 9))]


PLAN = {
    'C01': {'mc': [('MC_Dims', {}), ('MC_Calc', {'OPS': CALC})]},
    'C02': {'mc': [('MC_Calc', {'OPS': SUM})]},
    'C03': {'mc': [('MC_Units', {})]},
    'C04': {'mc': heap('plain', 'uncertain', 'table')},
    'C05': {'mc': heap('plain', 'uncertain')},
    'C06': {'mc': reg('reg')},
    'C08': {'mc': reg('dflt')},
    'C17': {'mc': reg('pref')},
    'C07': {'mc': [('MC_Parse', {})]},
    'C09': {'mc': [('MC_Text', {})]},
    'C10': {'mc': heap('uncertain', 'plain')},
    'C11': {'mc': [('MC_Ufunc', {})]},
    'C12': {'mc': [('MC_Method', {})]},
    'C13': {'mc': heap('table', 'uncertain')},
    'C14': {'mc': [('MC_Catalog', {})]},
    'C15': {'mc': [('MC_Catalog', {})]},
    'C16': {'mc': [('MC_Uncert', {})]},
    'C18': {'mc': [('MC_Func', {})]},
    'C20': {'mc': [('MC_Calc', {'OPS': '{"add", "lt"}'}), ('MC_Construct', {}), ('MC_Heap', {'DEPTH': '2', 'FOCUS': 'plain'}),
                   ('MC_Parse', {})],
            'opt': ['', '-OO']},
    'C21': {'mc': [('MC_Construct', {})]},
    'C22': {'mc': [('MC_Compound', {})]},
    'C23': {'mc': [('MC_Sig', {'DEPTH': '3'}), ('MC_Sig', {'DEPTH': '9'}, sim(60, 13))]},
    'C19': {'mc': [('MC_Calc', {'OPS': CMP})]},
}
