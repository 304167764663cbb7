"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, pathlib
C = 'src/goats/core/'
E = 'src/goats/eprem/'
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })

prop('C01', "Every alias of a name reaches the same entry, through any edits",
     "In an aliased mapping, all names of one entry always give the same value and no name gives the value of another entry. Writing or deleting through any one name writes or deletes the whole entry, adding a name makes it equivalent to the others and is refused if another entry already uses it, and a mapping built from, merged with or copied from another one is equal to it but does not change it or share later edits with it. Length, iteration, the grouped and flat views, membership and equality always describe exactly the current entries.",
     ['histories', 'inputs'], "every sequence of set, delete, add-alias, merge, copy and look-up operations on every assignment of names to entries",
     "The tests edit two or three fixed mappings a few steps; they do not reach interleavings such as adding an alias, deleting through another alias, then re-adding the name, or merging mappings whose groups overlap.",
     [C+'aliased.py'],
     [('Mapping flat/grouped views', C+'aliased.py:Mapping'), ('MutableMapping edits', C+'aliased.py:MutableMapping')],
     ['m[k]', 'len(m)', 'iter(m)', 'm.keys/values/items', 'm.alias', 'm == n'],
     [('as_dict', 'grouped entries', C+'aliased.py'), ('_flat_dict', 'name to value view', C+'aliased.py')])

prop('C02', "Alias groups stay disjoint and complete however they are combined",
     "A collection of alias groups built from disjoint groups never comes to list one name in two groups, never loses a name except by an explicit removal of its group, and looking up any name returns exactly the names equivalent to it. Updating or merging with further groups or collections joins every pair of groups that share a name, whatever the order in which they are given, and non-destructive forms leave both inputs unchanged. A name map sends every alias of a name to that name and an unknown name to an error.",
     ['histories', 'inputs'], "every sequence of additions, updates, merges, removals and exclusions over every family of overlapping or disjoint groups",
     "The tests combine a couple of hand-written groups; whether overlap of one new group with several existing groups, or order of insertion, matters is not sampled.",
     [C+'aliased.py', C+'reference.py'],
     [('Groups update/merge/without', C+'aliased.py:Groups'), ('Group set algebra', C+'aliased.py:Group'), ('NameMap', C+'aliased.py:NameMap')],
     ['groups.find', 'groups.update', 'groups.merge', 'groups.without', 'group | name', 'namemap[k]'])

prop('C03', "A symbolic expression means what ordinary algebra says it means",
     "Parsing text that combines symbols and numbers with products, quotients, integer, rational or decimal powers and nested parentheses gives exactly the monomial that ordinary algebra assigns to it: multiplication and division are read left to right, a power applies to the whole parenthesised group before it, and like symbols are combined. Writing an expression out and parsing it again gives an equal expression, and text with unbalanced parentheses, dangling or doubled operators, misplaced powers or unknown characters, or that the chosen strictness forbids, is refused instead of being given some meaning.",
     ['inputs'], "every expression of the grammar (all nestings, operator orders, signs, exponents, spacings and token choices) and every malformed variant of one",
     "The tests list a few dozen fixed strings; the grammar is infinite and the parser is a hand-written, regular-expression driven state machine whose interactions between coefficients, exponents and parentheses are sampled at single points.",
     [C+'symbolic.py'],
     [('Parser', C+'symbolic.py:Parser'), ('operand and operator matching', C+'symbolic.py:OperandFactory'), ('reduction', C+'symbolic.py:reduce')],
     ['Expression(text)', 'str(expression)', 'expression.format', 'ParsingError family'])

prop('C04', "Expression algebra and equality agree with the algebra of monomials",
     "Products, quotients and nonzero powers of symbolic expressions, in any nesting and between expressions, terms, text and numbers, give the same expression as doing the algebra on exponents and coefficients directly, and never change their operands. Two expressions are equal exactly when they denote the same monomial, independent of how each was written or built and of the order of factors, and substituting a number for a symbol gives the numerical value.",
     ['inputs', 'programs'], "every program of multiplications, divisions and powers over every set of starting expressions",
     "Tests check individual operators on fixed operands; associativity, cancellation, inverse and power laws over arbitrary nested computations are not reachable by listing cases.",
     [C+'symbolic.py', C+'algebraic.py'],
     [('Expression operators', C+'symbolic.py:Expression'), ('Term operators', C+'symbolic.py:Term')],
     ['e*f', 'e/f', 'e**n', 'e == f', 'term(x)'])

prop('C05', "Equivalent unit texts denote one unit; different units never merge",
     "Every way of writing a unit - symbol or full name, any metric prefix, any ordering and grouping of factors, quotients written with slashes or with negative powers - denotes the same unit, compares equal to it and to its text; reordering, regrouping or rewriting quotients, or using another name of a single unit, even yields the same object. Units that differ in size or dimension compare unequal, whatever was created before. Each prefix multiplies its base unit by the prefix's power of ten, and the size or dimensions of an unknown name are refused.",
     ['inputs', 'histories'], "every named unit, every prefix, every compound expression over them, in every creation order (units are cached process-wide)",
     "Tests compare a handful of strings in one creation order; the unit table has thousands of symbol and name combinations and the process-wide instance cache makes results depend on history.",
     [C+'metric.py', C+'iterables.py'],
     [('named unit table', C+'metric.py:NamedUnit'), ('unit instance cache', C+'metric.py:Unit')],
     ['Unit(text)', 'Unit(a) == Unit(b)', 'Unit(a) is Unit(b)', 'NamedUnit(x)'])

prop('C06', "Unit conversion factors are right, invertible and path independent",
     "For any two units of the same kind, simple or compound, the factor that converts numbers from one to the other equals the ratio of their physical sizes. Converting there and back multiplies by one, converting through any intermediate unit multiplies by the same total factor, and products, quotients and powers of units convert by the product, quotient and power of the factors.",
     ['inputs', 'histories'], "every pair and triple of mutually convertible units, including prefixed and compound ones, looked up in any order",
     "The tests check selected pairs; factors are found by a graph search with rescaling, recursion, term matching and dimensional fallback, so the route taken differs from pair to pair.",
     [C+'metric.py', C+'iterables.py'],
     [('conversion search', C+'metric.py:Conversion'), ('conversion graph', C+'metric.py:CONVERSIONS'), ('floor-division factor', C+'metric.py:Unit')],
     ['Unit(a) // Unit(b)', 'quantity.convert(a).to(b)', 'ratio(a, b)'])

prop('C07', "Units convert exactly when dimensions agree; systems give coherent units",
     "Two units are mutually convertible, and are reported as consistent, whenever they have the same dimensions in a metric system that admits both, or denote the same quantity in different systems; converting between units whose dimensions differ in every system is refused rather than given a number. The dimensions of a compound unit are the algebraic combination of the dimensions of its parts, and for any unit, any named or composed quantity, and any dimension of a named quantity, however written, a metric system's own unit is the coherent combination of that system's base units with the same dimensions. Unknown quantities are refused.",
     ['inputs', 'configurations'], "every pair of units, every quantity and every product, quotient and power of quantities, in every metric system",
     "Tests sample some quantities and units; the rule must hold for all pairs in the unit table and for composed quantity names.",
     [C+'metric.py'],
     [('dimensions', C+'metric.py:Dimensions'), ('consistency operator', C+'metric.py:Unit'), ('System.get_unit', C+'metric.py:System')],
     ['u | v', 'unit.dimensions', 'unit.norm[system]', 'system.get_unit(...)', 'system[quantity]'])

prop('C08', "Arithmetic on measured values obeys the rules of units",
     "Adding, subtracting or comparing measured values is allowed only when their units are the same and works on the numbers in that unit; multiplying, dividing and raising to a power combine the numbers and the units by the same algebra; and plain numbers act as scalings. The result of an operation never depends on operand types beyond their value and unit, never changes an operand, and an operation that has no meaning is refused with an error rather than a wrong value.",
     ['inputs', 'programs'], "every arithmetic program over scalars, vectors and measurements with arbitrary values, units and names, including reflected and in-place forms",
     "The tests run each operator on one or two fixed quantities; combinations of operand types, reflected forms, in-place forms and chained operations are not covered.",
     [C+'measurable.py', C+'metadata.py', C+'physical.py', C+'operational.py'],
     [('operator dispatch', C+'measurable.py:Quantified'), ('unit rules', C+'metadata.py:Unit'), ('name rules', C+'metadata.py:Name')],
     ['a + b', 'a - b', 'a * b', 'a / b', 'a ** n', 'a < b', 'abs, neg, round', 'a += b'])

prop('C09', "Changing a unit rescales a view and never the quantity",
     "Asking any measured object for another unit returns an object whose numbers are the old ones times the conversion factor and which denotes the same physical amount, leaving the original untouched; the same unit gives back an equal object and a metric system's name gives that system's unit. Any chain of unit changes, interleaved with reads, subscripts and arithmetic, ends with the same numbers as one direct change, and an inconsistent unit is refused leaving everything as it was.",
     ['histories', 'inputs'], "every history of unit changes, reads and subscripts on every kind of measured object",
     "Tests make one or two conversions on fresh objects; cached arrays, lazily loaded data and stacked scale factors matter only after particular histories.",
     [C+'measurable.py', C+'variable.py', C+'physical.py', C+'index.py', C+'axis.py', C+'operational.py', C+'observing.py'],
     [('measurable unit change', C+'measurable.py:Quantity'), ('array scale', C+'variable.py:Quantity'), ('index array unit', C+'index.py:Array')],
     ['q[unit]', 'q[system name]', 'q.unit', 'q.data', 'numpy.array(q)'])

prop('C10', "Measuring user input gives the stated values and unit, or an error",
     "Any supported way of stating a measurement - bare numbers, a number with a unit, several numbers followed by one unit, nested pairs with their own units, or an already measurable object - yields those numbers in order with that unit, in one common unit when several are given, and unit-free input is dimensionless. Input that mixes incompatible units, repeats units ambiguously, or has no numbers is refused, and whether something counts as measurable agrees with whether it can be measured.",
     ['inputs'], "every nesting of numbers, unit texts and measurable objects",
     "Tests enumerate a table of example shapes; the accepted shapes are recursive.",
     [C+'measurable.py', C+'physical.py', C+'operational.py'],
     [('measure and parse', C+'measurable.py:measure'), ('physical scalar', C+'physical.py:scalar'), ('argument normalisation', C+'operational.py:Argument')],
     ['measure(*args)', 'scalar(x)', 'Argument(x)', 'ismeasurable(x)'])

prop('C11', "Subscripting an array quantity selects the right data and keeps its axes",
     "Selecting from an array quantity with any combination of integers, slices, ellipses and index sequences returns the values at exactly those positions along each axis, in the requested order and in the quantity's current unit, and keeps one entry per named axis. The result does not depend on whether the data were already loaded, on earlier selections or unit changes, or on whether the source is in memory or on disk.",
     ['inputs', 'histories'], "every subscript expression on every shape, after every history of accesses",
     "Tests use a few subscripts on small fresh arrays; index arithmetic for steps, negative bounds and ellipses, and the choice between reading from disk and from the cache, are combination dependent.",
     [C+'variable.py', C+'physical.py'],
     [('subscript normalisation', C+'variable.py:Array'), ('axis-preserving subscript', C+'physical.py:Array')],
     ['q[...]', 'q.shape', 'numpy.array(q[...])', 'q[...].unit', 'q[...].dimensions'])

prop('C12', "Array arithmetic aligns operands by axis name",
     "Combining two array quantities gives an array over the union of their named axes, in order of first appearance, whose value at every position is the operation applied to the operands' values at that position's coordinates, with the unit the operation implies. Addition and subtraction demand the same axes and unit, numeric functions and reductions keep or drop exactly the axes and units they act on, and operands are left unchanged.",
     ['inputs', 'programs'], "every pair of axis lists (any order, overlap, size), every operator and supported array function",
     "Tests fix a few axis patterns; permuted and partially shared axes with unequal sizes are the combinations where misalignment goes unnoticed.",
     [C+'variable.py', C+'metadata.py'],
     [('axis alignment', C+'variable.py:Quantity'), ('axis merging', C+'metadata.py:Dimensions')],
     ['q * r', 'q / r', 'q + r', 'q ** n', 'numpy functions', 'numpy.mean, squeeze'])

prop('C13', "Grid searches return the nearest or bracketing points",
     "Searching an array for a value returns the position and value of the closest element, or, when a side is requested, the closest element on that side; bracketing a value returns neighbouring positions that enclose it, or the single end point when the value lies outside. This holds for increasing and decreasing grids, any length, repeated values and along any axis of a multi-dimensional grid.",
     ['inputs'], "every finite grid and every target value",
     "Tests try one or two arrays; boundary positions, ties, end points and multi-dimensional grids are separate cases.",
     [C+'numerical.py'],
     [('find_nearest', C+'numerical.py:find_nearest'), ('get_bounding_indices', C+'numerical.py:get_bounding_indices')],
     ['find_nearest(array, value, bound)', 'get_bounding_indices(array, value, axis)'])

prop('C14', "Interpolated values are linear between neighbours and exact on the grid",
     "Interpolating an array to target coordinates along one axis returns, for each target and each position along the other axes, the linear interpolation between the two neighbouring grid points of that position's own coordinate grid, in the order the targets were given; a target on a grid point returns the stored value there. The other axes keep their extents and order.",
     ['inputs'], "every array, every one- or two-dimensional coordinate grid, every list of targets",
     "The only interpolation tests need simulation data that is not in the repository and check shapes, not values.",
     [C+'interpolation.py', C+'numerical.py'],
     [('interpolation', C+'interpolation.py:apply'), ('restriction', C+'interpolation.py:Restriction')],
     ['interpolation.apply(array, reference, targets, axis)'])

prop('C15', "An observation depends only on the data and its own constraints",
     "Observing a quantity under given constraints gives the same result whatever was observed, constrained, converted or looked up before, with the same observer or another one. Constraints of one observation apply to every quantity it depends on and to nothing else, an unconstrained axis is observed in full, and replacing an observer's data or configuration makes later observations through it describe the new ones, in the same metric system, without altering results already obtained.",
     ['histories', 'configurations'], "every interleaving of observations, constraint sets, unit changes and observer updates on any number of observers",
     "The observer tests need simulation data that is not in the repository and never compare an observation made after others with a fresh one; stale caches show only after particular histories.",
     [C+'observing.py', C+'observer.py', E+'__init__.py'],
     [('context constraints and cache', C+'observing.py:Context'), ('observables', C+'observing.py:Observable'), ('observer update', E+'__init__.py:Observer')],
     ['observer[name].observe(**constraints)', 'observation.array', 'observer.update(...)'],
     [('user constraints', 'constraints of the current observation', C+'observing.py:Context'), ('cache', 'indices and values already computed', E+'__init__.py:Context')])

prop('C16', "Observed dataset values are the stored values where and how asked",
     "Observing a stored quantity returns the dataset's values at the constrained positions of each axis, converted to the observer's metric system or the requested unit, with the dataset's axes in order. Axis constraints given as positions, as coordinate values in any unit, or as species names select the matching grid points, coordinate values between grid points interpolate the quantity linearly (a coordinate itself is observed at the nearest grid point), and the observation reports the axis values and parameters that were used.",
     ['inputs', 'configurations'], "every stored quantity, every combination of axis constraints in every accepted form, either metric system, any dataset of the supported layout",
     "These tests need simulation data that is not in the repository; nothing that runs compares observed numbers with stored numbers.",
     [E+'__init__.py', C+'observing.py', C+'axis.py', C+'index.py', C+'datafile.py'],
     [('axis indexers', E+'__init__.py:Axes'), ('subscript and interpolate', E+'__init__.py:Context'), ('unit standardisation', E+'__init__.py:Variables')],
     ['observation.array', 'observation.data.unit', 'observation[axis]', 'axis.index(...)'])

prop('C17', "Derived quantities follow their defining formulas",
     "Every quantity that is computed rather than stored equals its defining physical formula applied to the stored quantities and run parameters it depends on, has the dimensions of the physical quantity it names, and extends over exactly the axes its inputs imply less those it integrates over plus those it adds. The same physical values result in either metric system, through any alias, and for any number of times, shells, species, energies and pitch angles.",
     ['inputs', 'configurations'], "every derived quantity, every dataset of the supported layout, every run-parameter setting, either metric system",
     "No test that can run evaluates a derived quantity; the formulas chain through one another and through parameter look-up.",
     [C+'computed.py', E+'__init__.py', C+'reference.py'],
     [('formulas', C+'computed.py:registry'), ('axes and units of results', E+'__init__.py:Functions'), ('dependency lookup', E+'__init__.py:Context')],
     ['observer[name].observe()', 'observation.data.dimensions', 'observation.data.unit'])

prop('C18', "A composed observable is the algebraic combination of its parts",
     "An expression that multiplies, divides and raises observable quantities to powers is observable exactly when all its parts are, and observing it gives the combination of its parts: their values combined position by position on the dataset's grid and then selected or interpolated like those of any other quantity, units combined by the same algebra, and axes merged. Its unit can be asked for or changed before or after observing with the same outcome.",
     ['inputs', 'programs'], "every product, quotient and power of observable names, in any alias and any order, under any constraints",
     "No runnable test composes observables; the unit is predicted by one path and computed by another, and only their agreement for all expressions matters.",
     [C+'observing.py', C+'observer.py', E+'__init__.py'],
     [('expression evaluation', E+'__init__.py:Context'), ('unit prediction', C+'observing.py:Context'), ('observability', C+'observer.py:Interface')],
     ['observer[expression]', 'observable.unit', 'observation.data.unit', 'observation.array'])

prop('C19', "A run parameter has the user's value, else the resolved default",
     "Every run parameter, under any of its aliases, has the value the user's configuration file gives it, in its declared type and unit, and otherwise the documented default. Values and defaults that refer to other parameters, constants, sums or products of them are resolved with the current values of what they refer to, so a user value also reaches every parameter defined in terms of it, and changing paths makes later look-ups reflect the new files.",
     ['configurations', 'inputs', 'histories'], "every configuration file, every parameter, every chain of references, before and after any change of paths",
     "The parameter tests need files outside the repository; nothing that runs checks the precedence or the resolution of references.",
     [E+'runtime.py', C+'constant.py', C+'operational.py'],
     [('precedence and evaluation', E+'runtime.py:Runtime'), ('aliased access', E+'runtime.py:Interface')],
     ['Runtime(...)[name]', 'Interface(path)[alias]', 'Arguments(...)[alias]', 'path_to(...)'])

prop('C20', "Configuration and source files are read faithfully",
     "Reading a configuration file yields exactly the assignments on its non-comment lines, with surrounding space and trailing comments removed and later assignments replacing earlier ones, whatever the spacing, comment style and line order. Comparing two files lists exactly the parameters and values on which they differ or that only one has, and the argument table of several files shows for every parameter, or every differing one, the value in force in each file that gives it. Reading the simulation's source headers yields every defined constant with its numerical value and every declared parameter with its type, default and limits.",
     ['inputs'], "every file content in the supported syntax",
     "No runnable test reads a configuration or source file.",
     [E+'runtime.py', C+'iotools.py'],
     [('config parser', E+'runtime.py:ConfigFile'), ('source parsers', E+'runtime.py:SourceFile')],
     ['ConfigFile(path)', 'ConfigFile.diff/compare', 'compare_arguments(files)', 'BaseTypesH(source)', 'ConfigurationC(source)'])

prop('C21', "A dataset view shows the file, by any alias, and never alters it",
     "Opening a data file gives access to each of its variables and axes under its own name and every known alias, with the file's values, unit and axis names, and nothing else; a variable interface to it gives each variable as an array quantity with those values, axes and unit or, given a metric system, the same amounts in that system's unit. Opening the same path again gives the same view, views of different files never mix, customising one view leaves others unchanged, and no write through a view or a read-only path can modify, create or truncate a file.",
     ['histories', 'inputs', 'configurations'], "every file of the supported format and every sequence of opens, customisations and look-ups",
     "The tests open one fixed file once.",
     [C+'datafile.py', C+'iotools.py', C+'iterables.py'],
     [('viewers', C+'datafile.py:ViewerFactory'), ('one instance per path', C+'iotools.py:PathSet'), ('read-only path', C+'iotools.py:ReadOnlyPath')],
     ['Interface(path).variables', '.axes', '.units', '.available', '.use'])

prop('C22', "Misspelled names get exactly the close known names as suggestions",
     "A known name passes the spelling check. An unknown name one edit (insertion, deletion, replacement or swap of adjacent letters) away from known names is reported with exactly those names, and only if there are none, exactly the known names two edits away; otherwise nothing is suggested. The check never changes the vocabulary, and names added later are taken into account.",
     ['inputs', 'histories'], "every vocabulary and every looked-up name",
     "Tests check a few words; edits at the last position and vocabulary growth are boundary cases.",
     [C+'spelling.py', C+'observer.py'],
     [('edit generation', C+'spelling.py:SpellChecker')],
     ['check(name)', 'check(name, mode)'])

prop('C23', "Species and physical constants are consistent in every notation",
     "Element symbols, masses and charges identify species consistently in both directions for every known element and ionisation state, and unknown masses or mismatched inputs are refused. Every physical constant has the dimensions its quantity demands and denotes the same physical amount in each metric system; no value is given in a metric system that is not defined.",
     ['inputs', 'configurations'], "every element, every charge state, every constant and both metric systems",
     "Tests check hydrogen-like examples and a few constants.",
     [C+'fundamental.py', C+'plasma.py', C+'physical.py'],
     [('element table', C+'fundamental.py:elements'), ('species', C+'plasma.py:Species'), ('constants', C+'physical.py:Constants')],
     ['elements(mass, charge)', 'Species(...)', 'Constants(system)[key]'])

prop('C24', "Look-up tables, registries and connection graphs answer every query correctly",
     "A table search by value returns exactly the rows that hold it, a request for a unique row succeeds exactly if the given criteria determine one, and a column lists every row's value; a registry keeps each object with its metadata under its own key until it is overwritten on request or reset; a two-way mapping is its own inverse in both directions; and a weighted graph holds exactly the added connections, each with its weight and its reverse with the inverse weight. A uniform mapping gives each of its rows as one record of its type. Sequence helpers preserve order and drop exactly what they promise to, and type, emptiness and membership tests on a collection answer for exactly its members, never taking a zero for a missing value.",
     ['inputs', 'histories'], "every table, graph and sequence, and every query or sequence of edits on them",
     "Tests use one table and one graph; uniqueness, ambiguity and disconnected cases depend on the data.",
     [C+'iterables.py'],
     [('Table', C+'iterables.py:Table'), ('Connections', C+'iterables.py:Connections'), ('ObjectRegistry', C+'iterables.py:ObjectRegistry'), ('Bijection', C+'iterables.py:Bijection')],
     ['Table.find / get / call', 'Connections lookups', 'registry[...]', 'UniformMapping(...)[key]', 'unique, distribute, slice_to_range, hastype, missing, whole'])

prop('C25', "An axis turns any selection into its positions and values in any unit",
     "On every axis of a dataset, selecting everything, positions counted from either end, slices, ranges, coordinate values with or without a unit, or species names gives exactly the matching positions, in the order given - the nearest grid point for a coordinate value, on the energy grid of the chosen species - together with the grid's values at positions and the given values for coordinates, in the axis's current unit. Positions outside a coordinate axis, unknown species, fractional positions and inconsistent units are refused. An observer's time, species, energy, mu, shell, radius, theta and phi show the complete axes and coordinates in its metric system, and changing the unit of an axis or of its values rescales the new view only.",
     ['inputs', 'histories'], "every axis, grid and selection, through every chain of unit changes",
     "No test creates an axis of real simulation output; selections combine kinds, orders, units, ends and species.",
     [C+'axis.py', C+'index.py', E+'__init__.py', C+'iterables.py'],
     [('axis indexing', C+'axis.py:Quantity'), ('index values', C+'index.py:Array'), ('EPREM indexers', E+'__init__.py:Axes')],
     ['axes[name].index(...)', 'axes[name][unit]', 'axis.reference', 'observer.time, .energy, ...'])

prop('C26', "An observer reads exactly the files it names, after any updates",
     "A stream or point observer of a given number reads the first of its file names that exists in its source folder, the working folder if none was given; its configuration is the file given by path, or, given by bare name, the one next to the data, else the one in the working folder, however the paths are written. It observes only when it has both, a missing folder or configuration is refused, an update that fails leaves it describing what it described before, and an update to a folder without its data leaves it with nothing to observe rather than the old data. Each creation, and each update that names a source, looks at the folders as they are then.",
     ['histories', 'configurations'], "every arrangement of data and configuration files and every sequence of creations and updates",
     "No test creates an observer: there is no simulation output in the repository.",
     [E+'__init__.py', C+'iotools.py', C+'observer.py'],
     [('path resolution', E+'__init__.py:Observer'), ('template search', C+'iotools.py:find_file_by_template'), ('context replacement', C+'observer.py:Interface.update')],
     ['Stream(n, source, config)', 'Point(n, ...)', 'observer.update(...)', 'observer.datapath', 'observer.confpath'])

prop('C27', "Cartesian and spherical coordinates denote the same points",
     "Converting a point from Cartesian to spherical coordinates gives its distance from the origin, the polar angle from the positive z axis and the azimuth from the positive x axis, counted from zero to a full turn in the sense of the positive y axis; converting back, from these or any equivalent angles, gives the same point. An angle that the point does not determine, at the origin or on the polar axis, is zero. Single points and arrays of points of any shape, given together or as separate coordinates, give the same results point by point, the arguments are left alone, and anything but three coordinates is refused.",
     ['inputs'], "every point in every octant, on every axis and plane, alone or anywhere in an array",
     "No test converts coordinates; octants, planes, axes, the origin and array shapes each have their own case.",
     [C+'numerical.py'],
     [('to spherical', C+'numerical.py:xyz2rtp'), ('to Cartesian', C+'numerical.py:rtp2xyz')],
     ['xyz2rtp(x, y, z)', 'rtp2xyz(r, t, p)'])

prop('C28', "Names of computed quantities follow from the names of their operands",
     "The name of a quantity is its set of aliases. The result of a binary operation between two named quantities, or names, has one alias for each combination of an alias of the left and one of the right operand, joined in that order by the operator's symbol; if both operands have the same name, a sum or difference keeps it and any other operation joins each alias to itself. A numerical factor, divisor or exponent other than one appears in every alias as an exact fraction, on the side on which it was given; signs, absolute values, roundings and square roots are written around every alias. If an operand is unnamed, so is the result. Changing the unit, copying, or taking part of an array keeps the name, added aliases join it and a reset replaces it, and no operation changes the names of its operands.",
     ['programs', 'inputs'], "every program of operations on quantities with any number of aliases",
     "Tests combine two fixed names once; nested computations, repeated operands, unnamed operands and unit changes of named quantities are not sampled.",
     [C+'metadata.py', C+'physical.py', C+'measurable.py'],
     [('name algebra', C+'metadata.py:Name'), ('metadata operators', C+'metadata.py:Operation'), ('name attribute', C+'physical.py:Quantity')],
     ['quantity.name', 'quantity.alias(...)', 'Name(...) op Name(...)'])

if __name__ == '__main__':
    out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    out.write_text('\n'.join(json.dumps(p, ensure_ascii=False) for p in P) + '\n')
    print(len(P))
