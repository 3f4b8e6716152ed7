#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
Q='quantities/quantity.py'; D='quantities/dimensionality.py'; R='quantities/registry.py'
U='quantities/unitquantity.py'; UQ='quantities/uncertainquantity.py'; M='quantities/umath.py'; K='quantities/markup.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                     state=[dict(name=a,meaning=b) for a,b in state],
                     observe_at=list(observe),hook_needed=None)))

p('C01','Products, quotients and powers carry exactly the product of the units',
  "Multiplying or dividing quantities (or a quantity and plain numbers, or a unit and either), or raising a quantity to a power, yields the element-wise product, quotient or power of the magnitudes together with unit exponents that are exactly the sum, difference or multiple of the operands' exponents, a unit disappearing exactly when its exponent becomes zero; no operand is changed. Raising to an exponent that carries units, or to non-uniform exponents, is refused with a ValueError. Unit signatures (dimensionalities) themselves form an abelian group under these operations, with equality and hashing that depend only on the mapping unit -> exponent.",
  ['inputs','programs'],'all units of the catalogue incl. constants and compound units, all integer and fractional exponents, scalar/array/broadcast shapes, integer/float/complex data, either operand order, and every chain of such operations',
  'tests use a handful of literal examples with meters, joules and small integer exponents and never compare the group laws across combinations',
  [Q,D,U],[('operator overloads','Quantity.__mul__/__rmul__/__truediv__/__pow__, UnitQuantity overloads'),('ufunc unit rules','p_dict entries multiply/divide/floor_divide/power/square/sqrt/reciprocal'),('dimension algebra','Dimensionality.__mul__/__truediv__/__pow__/__hash__/__eq__')],
  observe=['result magnitude, dimensionality, str, hash/eq of dimensionality'])
p('C02','Addition, subtraction, remainder and ordering only combine compatible units',
  "Adding, subtracting, taking remainders of, or ordering (<, <=, >, >=) two quantities succeeds exactly when their units are convertible into one another, and then gives the physically correct result: the right operand is converted to the units of the left-hand quantity, whose units the result carries. Operands of incompatible units, or a dimensional quantity combined with a plain number under +, - or %, are refused with an error, never silently combined. Operands are unchanged. (An exact zero may be combined where NumPy itself performs the operation; a NumPy-scalar left operand with convertible units other than its own may be refused.)",
  ['inputs','programs'],'all pairs of unit signatures (same, compatible, incompatible, dimensionless), either operand order, units/quantities/constants/plain numbers/lists, all shapes and dtypes',
  'unit tests cover three or four unit pairs; a wrong operand order or factor for other pairs is never seen',
  [Q,D,U],[('operand conversion','scale_other_units, wrap_comparison'),('reflected operators','__radd__/__rsub__/__rmod__ in Quantity and UnitQuantity'),('uniform check','_d_check_uniform')],
  observe=['result magnitude and units, exception class'])
p('C03','Unit conversion preserves the physical value and yields exactly the target units',
  "Converting a quantity (explicit rescale, assigning new units, simplification, dimensionless magnitude) multiplies every element by the exact ratio of the two units' definitions and labels the result with exactly the requested units; converting there and back, or through an intermediate unit, gives the original value within rounding. Conversion between incompatible units is refused with a ValueError. Rescaling and simplifying leave the source untouched and return independent data; floating types are preserved and integer data are converted without truncation.",
  ['inputs','histories'],'all pairs of catalogue units and compound signatures with integer or fractional exponents, all magnitudes and dtypes, and sequences of conversions',
  'tests convert a few literals; there are ~500 units and unboundedly many signatures',
  [Q,U,D],[('conversion','get_conversion_factor, Quantity.rescale, Quantity.units setter, _reference, simplified, dimensionless_magnitude')],
  observe=['magnitude, units, dtype, source after conversion'])
p('C04','In-place updates and views never corrupt units or aliased data',
  "After any sequence of in-place operations (+=, -=, *=, /=, //=, %=, **=, item assignment, fill, put, sort, assigning units or real/imaginary parts, out= arguments) on quantities and on views of them, every live object's magnitude-times-units equals the mathematically correct value for the operations performed through it, and an operation that would need to change the units of a view is refused. In-place += etc. converts the operand into the target's units; item assignment and put convert the assigned values. No other object that does not share the data changes. (Relabelling an owner in place while views of it are alive is outside this statement and recorded as a known finding.)",
  ['histories','programs'],'all interleavings of view creation, copying and in-place operations over several aliased objects',
  'tests perform at most one in-place operation on one array and inspect only that array',
  [Q],[('protection','protected_multiplication, protected_power, units setter'),('in-place operators','__iadd__ ... __ipow__, __setitem__, fill, put'),('ufunc wrap','__array_prepare__/__array_wrap__')],
  state=[('buffer','shared element storage'),('label','unit signature per object'),('owner/view','whether an object is a view of another quantity')],
  observe=['magnitude and dimensionality of every live object after every step'])
p('C05','A refused operation leaves every object unchanged',
  "When an operation on quantities is refused with an error (incompatible units, non-uniform exponent, protected unit or view, bad output argument, unparsable unit), every operand, output argument and view keeps the magnitude, units and uncertainty it had before the call, and later operations behave as if the call had never been made. (Not covered: put with an index out of range and writes NumPy itself abandons half-way.)",
  ['histories','inputs','fault_sequences'],'every operation with a refusal case, placed anywhere in a history',
  'tests assert that the exception is raised but hardly ever re-inspect the objects afterwards',
  [Q,D,U,UQ],[('validation before mutation','decorators scale_other_units/protected_*/check_uniform, units setter, __setitem__, put, fill, clip')],
  observe=['all objects after a raising call'])
p('C06','Units are immutable and unit names stay bound to one meaning',
  "Unit objects can never be changed by user operations: in-place arithmetic, assigning units or elements, and mutating a unit's definition or the quantity it was defined from all leave the unit and its conversion factors unchanged. A registered name, symbol or alias always denotes the unit it was first bound to; an attempt to rebind any label to a different unit (another value or other dimensions) raises an error and leaves all labels as they were (definition of a new unit is all-or-nothing), while redefining the identical unit is accepted.",
  ['histories'],'all sequences of unit definitions, redefinitions, failing definitions, look-ups, in-place attempts and mutation of returned objects',
  'tests try five in-place operators on one unit and never look at the registry after a failed definition',
  [U,R],[('protection','UnitQuantity in-place operators and units setter, writeable flag'),('registration','UnitRegistry.__setitem__, UnitQuantity.__init__')],
  state=[('registry','label -> unit'),('definition','unit -> factor and base units')],
  observe=['unit_registry look-ups, conversion factors after every step'])
p('C07','Unit strings denote the unit expression they spell, and nothing else',
  "A unit string accepted anywhere (constructor, rescale, units assignment, compound units) denotes exactly the product of named units and powers that the same Python expression over unit objects denotes, with ^ as power, middle dot or a dot between letters as product, % as percent, 'in' as inch and the empty string as dimensionless. Strings naming unknown units, or containing calls, attribute access, subscripts, comprehensions or any other non-arithmetic construct are rejected with an error and never executed; look-ups never alter the registry.",
  ['inputs'],'all strings over the unit grammar (and outside it)',
  'tests parse about ten literal strings and one injection attempt',
  [R,Q,U],[('parser','UnitRegistry.__getitem__, whitelist'),('users','validate_dimensionality, CompoundUnit.__new__')],
  observe=['dimensionality of the parsed unit, exception, side effects'])
p('C08','Simplification always uses the default units currently in force',
  "Simplifying a quantity expresses the same physical value solely in the default unit currently configured for each base dimension, with the dimensional exponents of the quantity; changing the defaults (a whole SI or cgs system, or individual units by name or object, system first and individual settings after) affects exactly later simplifications, never the values or conversions of existing quantities. Setting a default to a unit of the wrong kind, an unknown name or an unknown system is refused with a documented error and leaves all defaults unchanged.",
  ['histories','configurations'],'all sequences of default-unit changes interleaved with simplification and conversion of arbitrary quantities',
  'one test sets cgs and length/mass once',
  [U,Q],[('defaults','set_default_units, IrreducibleUnit.set_default_unit'),('simplification','simplified properties')],
  state=[('defaults','base dimension -> current default unit')],observe=['simplified magnitude and units after each step'])
p('C09','Printed units identify the units and can be read back',
  "The text form of a unit signature lists every unit's symbol with exactly its exponent (numerator and denominator, integer or fractional, any size), two signatures with different text differ and equal signatures print identically regardless of how they were built; parsing the plain-text form of a quantity's units gives the same units back (for compound units and units whose symbol is itself an expression: the equal expanded expression). The unicode, LaTeX and HTML forms show the same symbols and exponents, and str()/format()/repr() of a quantity show its magnitude with these units.",
  ['inputs','configurations'],'all unit signatures and exponents, unicode mode on or off, all construction orders',
  'one test formats three literals; exponents of 10 or more, fractional ones and orderings are untested',
  [K,D,Q,U],[('rendering','format_units, format_units_unicode/latex/html, superscript'),('str/format/repr','Quantity.__str__/__repr__/__format__')],
  observe=['rendered strings, parse of the rendered string'])
p('C10','Copies and pickles are faithful and independent',
  "Copying, deep-copying or pickling and unpickling a quantity, unit, constant, compound unit, dimensionality or uncertain quantity yields an object of the same type with equal magnitude, dtype, shape, units and uncertainty that behaves identically in later operations. For quantities the result shares no mutable state with the original: changing either afterwards never changes the other. Containers of such objects survive likewise. (Unpickling needs the user-defined units that occur to be defined.)",
  ['inputs','histories'],'all kinds of objects, protocols 0..5, shapes, dtypes and memory layouts, followed by arbitrary mutations of either copy',
  'tests pickle a handful of scalars and never mutate a copy',
  [Q,U,UQ,D],[('pickling','__reduce__/__setstate__/_reconstruct_quantity'),('copying','__deepcopy__, UnitQuantity.copy')],
  observe=['restored object, original after mutating the copy and vice versa'])
p('C11','NumPy ufuncs follow physical unit rules or are refused',
  "Every supported NumPy universal function applied to quantities returns the NumPy result on the magnitudes with the physically correct units (product, quotient, same, squared, square root, inverse, radian, degree or dimensionless), requiring identical units, dimensionless arguments or angles where physics does; violations are refused with a ValueError. A universal function without a unit rule is refused rather than returning a wrongly labelled result, and with out= the output gets the correct values and units.",
  ['inputs'],'all ufuncs shipped with NumPy x unit signatures x operand kinds x shapes x out arguments',
  'tests call about 25 ufuncs once each with matching units',
  [D,Q],[('unit rules','p_dict'),('dispatch','Quantity.__array_prepare__/__array_wrap__')],
  observe=['result/out magnitude and units, exception'])
p('C12','Reductions and array methods return the right values with the right units',
  "Array methods (sum, mean, std, var, prod, min, max, ptp, cumsum, cumprod, trace, round, clip, argmin/argmax, nan-variants, argsort, sort, searchsorted, nonzero, squeeze, take, reshape, transpose, repeat, ...) give for every axis and keyword the same numbers as the corresponding operation on the magnitudes, with the units the operation implies (same; squared for var; the n-th power for a product of n elements; none for indices); limits and search values are honoured in compatible units or refused. With an output argument, that very object receives the values and units.",
  ['inputs'],'all methods x shapes x axes x dtypes x NaN patterns x unit signatures x out arguments',
  'tests call most methods once on a 2x2 example without axis or out',
  [Q],[('methods','Quantity.sum ... Quantity.cumprod')],observe=['result magnitude, units, out argument, receiver'])
p('C13','Indexing, iteration and element assignment keep units attached',
  "Indexing, slicing, iterating, tolist and flattening return quantities with the source's units and the selected values; element and slice assignment stores the physically equal value converted to the target's units, broadcasts as usual, refuses incompatible values and changes nothing else. Plain numbers assigned into a dimensional quantity are refused.",
  ['inputs','histories'],'all index forms (integers, slices, masks, fancy, tuples, ellipsis, newaxis), shapes, units and dtypes',
  'tests use integer and simple slice indices only',
  [Q],[('item access','Quantity.__getitem__/__setitem__/tolist/__iter__')],observe=['selected values and units, target after assignment'])
p('C14','Every catalogue unit has its standard definition under all of its names',
  "Every unit shipped with the package converts to SI base units with its internationally defined factor and dimensions, carries its documented symbol, and is reachable as the same unit through its name, symbol and every alias; the unit attributes of the package denote those same units. SI and binary prefixed families are exact powers of their base unit.",
  ['inputs','configurations'],'all units, names, symbols, aliases and module attributes of the catalogue',
  'tests touch about thirty of the roughly five hundred units and no factor beyond a handful',
  ['quantities/units/length.py','quantities/units/mass.py','quantities/units/energy.py','quantities/units/pressure.py','quantities/units/volume.py','quantities/units/time.py','quantities/units/angle.py','quantities/units/electromagnetism.py',U],
  [('definitions','quantities/units/*.py')],observe=['registry look-up, simplified value, symbol'])
p('C15','Physical constants have their CODATA values and units',
  "Every constant shipped with the package simplifies to the published CODATA value with the corresponding dimensions, under its name, symbol and every module attribute that denotes it, and behaves in arithmetic and conversion as exactly that physical value. Mutually defined constants agree with each other within the published uncertainty.",
  ['inputs','configurations'],'all constants and attributes, used in arbitrary products and conversions',
  'the constants test file contains no assertions',
  ['quantities/constants/_codata.py','quantities/constants/_utils.py','quantities/constants/quantum.py','quantities/constants/electron.py',U],
  [('table','constants/_codata.py physical_constants'),('objects','UnitConstant definitions')],observe=['simplified value of each constant'])
p('C16','Uncertainties propagate by the uncorrelated first-order rules',
  "Arithmetic on uncertain quantities (+, -, *, /, powers, sums, means, with other uncertain quantities, quantities, units or plain numbers, in either order) gives the nominal result of ordinary quantity arithmetic and the standard deviation prescribed by first-order uncorrelated error propagation, always non-negative, of the same shape and in units compatible with the nominal value. Conversion, simplification, indexing, min/max selection, copying and pickling scale or carry the uncertainty together with the value.",
  ['inputs','programs'],'all magnitudes (any sign, zero), uncertainties, shapes, units, operand kinds and operation chains',
  'tests check a dozen positive literals',
  [UQ],[('propagation','UncertainQuantity operators, sum, mean, sqrt'),('invariants','uncertainty setter, rescale, simplified')],observe=['magnitude, uncertainty, units of results'])
p('C17','Preferred-unit rescaling picks the first compatible preferred unit',
  "With a list of preferred units configured, rescaling without a target converts a quantity to the first listed unit with the same physical dimensions, preserving the physical value, whatever units the quantity or the preferences are expressed in and whatever default units are in force; with no compatible entry it raises and changes nothing. Replacing the list takes effect at once.",
  ['histories','configurations'],'all preference lists (order, compounds, derived units), quantities and default-unit changes',
  'tests use one fixed list and three quantities',
  [Q],[('selection','Quantity.rescale_preferred, PREFERRED')],observe=['result units and magnitude, exception'])
p('C18','Package-level math functions respect units',
  "The package's own mathematical functions (trigonometric, hyperbolic and inverse, arctan2, hypot, sum/prod/cumsum/cumprod/nansum, diff, ediff1d, gradient, cross, trapz, unwrap) accept any convertible units, convert correctly, and return the correct value with the correct units (radians, dimensionless, the argument's, the quotient or the product units); arguments of the wrong dimension are refused. Plain-array arguments give plain NumPy results. (hypot needs identical units; plain numbers as end values of ediff1d of a dimensional array are unspecified.)",
  ['inputs'],'all functions x unit signatures x shapes x axes x keywords',
  'tests call each function once or twice with base units; several tests are marked as expected failures',
  [M,'quantities/decorators.py'],[('wrappers','quantities/umath.py functions, quantitizer')],observe=['result magnitude and units, exception'])
p('C19','Equality and ordering compare physical values across units',
  "Two quantities compare equal (==) element-wise exactly when they denote the same physical value after conversion, != is its element-wise negation, quantities of incompatible units are unequal everywhere rather than raising, and <, <=, >, >= agree with the converted values while refusing incompatible units. Comparison is consistent under swapping the operands up to rounding, and units compare by conversion factor and dimensions, never by identity or name.",
  ['inputs'],'all pairs of signatures, values, shapes, units versus quantities versus plain numbers, NaN',
  'tests compare a few literals in meters and centimeters',
  [Q,D,U],[('comparison','Quantity.__eq__/__ne__/__lt__/..., wrap_comparison')],observe=['boolean results, exceptions'])
p('C20','Safety checks do not depend on interpreter optimisation flags',
  "All refusals of dimensionally wrong, non-uniform, protected or malformed operations happen identically whether or not Python runs with assertions disabled, so that the same program yields the same results and the same errors under python, python -O and python -OO.",
  ['configurations','programs'],'every refused operation under both interpreter modes, over the operation programs of the other properties',
  'the test suite always runs with assertions enabled',
  [Q,D,U,R,UQ],[('checks','validation code in all modules')],observe=['result or exception class in both modes'])
p('C21','Construction and accessors represent exactly the given data and units',
  "Building a quantity from numbers, (nested) sequences, arrays or other quantities with units given as string, unit, quantity or dimensionality, or by multiplying data by a unit, yields exactly the given values, shape and dtype (converted when both source and target units are given); magnitude, units, dimensionality, real and imaginary parts report them back. Objects handed out as units or dimensionality are independent: changing them never changes the quantity. Invalid unit arguments are refused. (Leaving the units empty keeps those of a quantity given as data; sequences of quantities and non-numeric data are unspecified.)",
  ['inputs'],'all data kinds, dtypes, shapes, unit designations',
  'tests construct a few float lists',
  [Q],[('constructor','Quantity.__new__, validate_dimensionality, validate_unit_quantity'),('accessors','magnitude, units, dimensionality, real, imag')],observe=['all accessors'])
p('C22','Compound units behave as atomic units equal to their expression',
  "A compound unit stands in arithmetic, printing and conversion as a single unit written in parentheses around its expression: it cancels only against the same compound, never merges with its constituents, and converts and simplifies to exactly the value of the expression it spells. It survives copying and pickling, its creation does not change the registry, and invalid expressions are rejected.",
  ['inputs','programs'],'all unit expressions used as compounds, in all chains of products, powers, conversions and prints',
  'tests use one compound unit (pc/cm**3)',
  [U,K],[('compound','CompoundUnit'),('printing','format_units* compound branches')],observe=['dimensionality, simplified, text form'])
p('C23','Unit signatures are values with a consistent algebra',
  "A signature (the Dimensionality of a quantity or unit) obtained from the library is independent of everything it was obtained from and of everything made from it: changing it (in-place *, /, **, or as a dictionary) changes no quantity, unit or other signature, and changing those does not change it. Its products, quotients, powers, copies, pickles, simplified form and in-place variants (also with itself as operand) denote exactly the exponents they spell; sums and differences of different signatures are refused and change nothing. Two signatures are equal exactly when they have the same units with the same exponents, equality agrees with != and with hashing (dictionary keys, sets), and <, <=, >, >= order them by the total of their base-dimension exponents.",
  ['histories','programs'],'all histories of making, copying, combining, changing, comparing and hashing signatures together with quantities and units made from them',
  'tests build a few signatures and compare single results, no history in which signatures, quantities and units made from one another are changed',
  [D,Q],[('signatures','Dimensionality: operators, in-place operators, comparison, __hash__, simplified, ndims, copy'),('access','Quantity.dimensionality, UnitQuantity.dimensionality')],observe=['every live signature after every operation, ==, hash, ordering, repr'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
