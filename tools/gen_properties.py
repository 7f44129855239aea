"""Writes /verif/properties.jsonl (kept as a script so that wording edits stay reviewable)."""
import json, os
Q='quantities/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":[Q+f for f in files],"mechanism":[{"name":n,"where":Q+w} for n,w in mech],
       "observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":Q+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

prop("C01","Unit conversion preserves the physical amount",
 "Converting a quantity to any compatible unit (predefined, prefixed, compound, fractional-power or user-built) returns a quantity in exactly the requested unit whose magnitude is the old magnitude times the ratio of the two units' SI values, element by element, with the shape kept, float precision kept and integer data never truncated; conversions therefore round-trip and compose. The result is an independent copy and the source is left untouched. Converting to an incompatible unit, or to something that is not a unit, raises an error instead of returning a number.",
 ["inputs"],"all magnitudes (scalars, n-d, empty, strided, every real/complex/integer dtype), all pairs of unit expressions over the whole registry, unit given as string, unit object, unit quantity or dimensionality",
 "conversion tests use about a dozen hand-picked unit pairs on float64 scalars and short lists",
 ["quantity.py","unitquantity.py","dimensionality.py"],
 [("Quantity.rescale / get_conversion_factor / _reference","quantity.py"),("UnitQuantity._reference","unitquantity.py")],
 ["Quantity.rescale","Quantity(q, units)","Quantity.dimensionless_magnitude"])
prop("C02","Assigning units in place converts in place or changes nothing",
 "Assigning to a quantity's units converts its own data to the new unit (same result as a converting copy) and every later read, through the object or through its views' data, is consistent with that. An assignment that cannot be honoured (incompatible unit, integer data that cannot hold the result, a view onto another quantity, read-only data, a predefined unit) raises an error and leaves both magnitude and units exactly as they were.",
 ["inputs","histories"],"all quantities, all target units, all sequences of in-place unit assignments mixed with views and read-only flags",
 "two tests assign units to a literal; failures and atomicity after failure are not observed over histories",
 ["quantity.py","unitquantity.py"],[("Quantity.units setter","quantity.py"),("UnitQuantity.units setter","unitquantity.py")],
 ["Quantity.units = ..."])
prop("C03","Base-unit simplification is faithful under every choice of default units",
 "Simplifying a quantity rewrites it using only the currently selected default base units and never changes the physical amount it denotes, whatever sequence of default-unit selections (system names, individual units, names or unit objects, rejected selections) came before. Simplifying twice gives the same thing, and changing the defaults never changes what an existing quantity denotes or how it converts. A selection of the wrong kind of unit or an unknown system is rejected with an error and leaves the selected units as they were.",
 ["inputs","histories","configurations"],"all quantities, all sequences of default-unit changes",
 "tests simplify a few units under SI and switch to cgs once; no histories, no custom defaults",
 ["quantity.py","unitquantity.py","dimensionality.py"],
 [("simplified","quantity.py"),("set_default_units / IrreducibleUnit.set_default_unit","unitquantity.py")],
 ["Quantity.simplified","Dimensionality.simplified","set_default_units"],
 [("IrreducibleUnit._default_unit","the unit each base dimension is simplified to","unitquantity.py")])
prop("C04","Addition, subtraction and remainder respect units",
 "Adding, subtracting or taking the remainder of two quantities converts the right operand to the left operand's unit, computes element-wise with broadcasting, and returns the result in the left operand's unit; a bare number counts as dimensionless and takes on the unit of a dimensionless quantity it is combined with. If the operands' dimensions differ the operation raises an error, and the in-place forms then leave the target's data and units unchanged. Adding and subtracting the same quantity returns to the start, and swapping the operands of a sum gives the same physical amount.",
 ["inputs"],"all operand pairs: units over the whole registry, shapes that broadcast, int/float/complex dtypes, units objects, plain numbers, arrays and lists on either side",
 "arithmetic tests cover a small fixed set of units and equal-unit random values",
 ["quantity.py","unitquantity.py","dimensionality.py"],
 [("scale_other_units, __add__/__radd__/__iadd__/__sub__/__rsub__/__isub__/__mod__/__imod__","quantity.py"),("UnitQuantity operators","unitquantity.py"),("_d_check_uniform","dimensionality.py")],
 ["+","-","%","+=","-=","%="])
prop("C05","Multiplication, division and powers combine units algebraically",
 "Multiplying, dividing, floor-dividing or raising a quantity to a power applies the numeric operation to the magnitudes element-wise and the matching algebra (add, subtract or scale exponents, dropping those that cancel) to the units, for plain, reflected and in-place forms, so the physical amount always equals the result of doing the same arithmetic in SI base units for products, quotients and powers. An exponent that has units, or is not one uniform value, is rejected with an error. In-place forms that would change the unit of a view of another quantity are rejected and leave all data unchanged.",
 ["inputs"],"all operand pairs and exponents (positive, negative, zero, fractional), including unit objects, plain numbers, lists and arrays on either side and in-place forms",
 "tests multiply a handful of fixed values; in-place forms and reflected forms with units are barely sampled",
 ["quantity.py","unitquantity.py","dimensionality.py"],
 [("__mul__/__truediv__/__pow__ and in-place forms, protected_multiplication, check_uniform","quantity.py"),("Dimensionality algebra","dimensionality.py")],
 ["*","/","//","**","*=","/=","//=","**="])
prop("C06","Comparisons are unit-aware",
 "Comparing two quantities of compatible dimensions gives, element by element, the answer obtained by comparing the physical amounts after conversion to a common unit, as plain boolean data without units; a bare number is compared against the magnitude. Quantities of different dimensions are never equal, always unequal, and ordering them raises an error. The six operators agree with each other and with swapping the operands.",
 ["inputs"],"all pairs of quantities (compatible and not), shapes that broadcast, nan and infinities, unit objects, plain numbers",
 "comparison tests use metre/kilometre-like literals only",
 ["quantity.py"],[("wrap_comparison, __eq__, __ne__, __lt__ ...","quantity.py")],["==","!=","<","<=",">",">="])
prop("C07","NumPy universal functions follow dimensional rules",
 "Applying a NumPy elementwise function with at least one quantity among its inputs yields the plain function of the magnitudes with the dimensionally correct unit (unit kept, squared, rooted, inverted, combined, or none), or raises an error when the operation is dimensionally meaningless (logarithm or exponential of a quantity with units, trigonometry of a non-angle, mixing different units without conversion) or not supported. It never silently returns a number with a wrong unit, with or without an explicit output array.",
 ["inputs"],"every numpy ufunc, every operand combination of quantities, unit objects and plain arrays, with and without out=",
 "umath tests call each function once or twice on tiny arrays in one unit",
 ["dimensionality.py","quantity.py"],[("p_dict ufunc rules","dimensionality.py"),("__array_prepare__/__array_wrap__","quantity.py")],["np.<ufunc>(quantity, ...)"])
prop("C08","The package's own math functions convert their arguments correctly",
 "The package-level mathematical functions (trigonometric and hyperbolic functions and their inverses, hypot, arctan2, cross, diff, ediff1d, gradient, trapz, unwrap, sum, nansum, prod, cumsum, cumprod) equal the plain numeric function evaluated on consistently converted magnitudes, and return the dimensionally correct unit: trigonometric functions accept any angle unit, inverse trigonometric ones return radians, inverse hyperbolic ones a pure number, integration multiplies and differentiation divides units. Changing the unit in which an argument is expressed never changes the physical result. Arguments of the wrong dimension raise an error.",
 ["inputs"],"all arrays, axes and spacings, all angle and compatible unit choices per argument",
 "one or two literal examples per function",
 ["umath.py"],[("umath wrappers","umath.py")],["pq.sin ... pq.unwrap"])
prop("C09","Reductions and array methods carry the right unit and value",
 "The array methods (sum, mean, min, max, ptp, std, var, prod, cumsum, cumprod, trace, clip, round, their nan-ignoring variants, arg-functions, searchsorted, nonzero) return what the same operation gives on the magnitudes, honouring axis and dtype, with the unit kept, squared for the variance and raised to the number of multiplied elements for the product, and no unit for positions. When an output quantity is supplied it receives both the data and the unit and is returned. Calling through the numpy function of the same name gives the same result as the method.",
 ["inputs"],"all arrays (n-d, nan, int/float/complex), all axes, dtypes, ddof, output arrays and methods",
 "methods are sampled on one 2x2 array each",
 ["quantity.py"],[("Quantity reduction methods","quantity.py")],["Quantity.<method>","np.<function>(quantity)"])
prop("C10","Indexing, assignment and reshaping keep units and shared memory",
 "Reading any element, slice, mask or reshaped form of a quantity (or of a unit object, which is left as it was), iterating it or turning it into a list yields the corresponding magnitudes with the same unit. Writing a quantity through an index, a mask, put or a view converts the value to the target's unit first and is visible through exactly the arrays that share that memory, and writing a value of another dimension raises an error and changes nothing. The unit of the target never changes through item assignment.",
 ["inputs","histories"],"all index expressions, all sequences of writes through arrays and views, all compatible and incompatible values",
 "tests set single elements of 1-d arrays",
 ["quantity.py"],[("__getitem__/__setitem__/put/fill/tolist/__array_finalize__","quantity.py")],["q[...]","q[...] = v","put","fill","iter","tolist","reshape/T/ravel/flat"])
prop("C11","Dimension expressions form an abelian group with consistent equality and hashing",
 "Dimension expressions (units with exponents) obey the group laws under multiplication, division and powers: the order of factors is irrelevant, an expression divided by itself is dimensionless, powers compose, and cancelled units disappear. Two expressions are equal exactly when they hold the same units with the same exponents, and equal ones hash alike. Operations return new expressions and never alter their operands or the quantity an expression was read from; the in-place forms change only their target; adding or subtracting different expressions raises an error. Expressions are ordered by their total number of base dimensions, in whatever units they are written.",
 ["inputs"],"all expressions over the registry with integer, negative and fractional exponents and all operation sequences",
 "dimensionality tests use four fixed expressions",
 ["dimensionality.py"],[("Dimensionality operators, __hash__, __eq__","dimensionality.py")],["Dimensionality"])
prop("C12","Unit formatting is unambiguous and re-readable",
 "The text form of any unit expression built from simple (not compound) units parses back to the same expression, and the Unicode, LaTeX and HTML forms and the str, repr and format of quantities show the same units with the same exponents, including negative, fractional and multi-digit ones. Formatting depends only on the units and exponents, not on how the expression was built, and switching the Unicode setting changes only the notation and never the value. Formatting never raises for a valid quantity.",
 ["inputs","configurations"],"all unit expressions with integer and fractional exponents, both settings of the Unicode option",
 "formatting tests check about ten literal strings",
 ["markup.py","dimensionality.py","quantity.py","unitquantity.py"],[("format_units, format_units_unicode, format_units_latex, format_units_html","markup.py")],
 ["Dimensionality.string/unicode/latex/html","str","repr","format"])
prop("C13","Unit strings are parsed correctly and never run code",
 "A unit string written with unit names, symbols or aliases and the operators for product, quotient and power (including '^', '.', '·', '%' and parentheses) denotes exactly that unit expression, independent of the notation and of spaces around the operators. A string that names an unknown unit or is malformed raises an error. No string, however crafted, can call functions, reach attributes, run code or change the registry.",
 ["inputs","programs"],"all unit expressions in all notations; all byte/character strings as hostile input",
 "tests parse a few literals; hostile input is not generated",
 ["registry.py","quantity.py"],[("UnitRegistry.__getitem__ AST whitelist","registry.py"),("validate_dimensionality","quantity.py")],["Quantity(x, 'string')","unit_registry['string']","rescale('string')"])
prop("C14","Copies and pickles are faithful and independent",
 "Pickling and unpickling (any protocol), copying and deep-copying a quantity, uncertain quantity, unit, compound unit or constant, alone or inside containers, yields an object of the same kind with the same values, unit, dtype, shape and uncertainty that behaves identically in later conversions and arithmetic. Changing the copy's data never changes the original's, and the reverse. A pickle made in one process loads in a fresh one.",
 ["inputs","histories"],"all objects of the library, all pickle protocols, in-process and across processes, with user-defined units",
 "persistence tests pickle six literals in process",
 ["quantity.py","unitquantity.py","uncertainquantity.py"],[("__reduce__/__setstate__/__deepcopy__/copy","quantity.py"),("UnitQuantity.__reduce__/copy","unitquantity.py"),("UncertainQuantity.__reduce__","uncertainquantity.py")],
 ["pickle","copy.copy","copy.deepcopy","Quantity.copy"])
prop("C15","Uncertainties propagate to first order and stay non-negative",
 "Arithmetic on uncertain quantities (sum, difference, product, quotient and negation with uncertain or exact operands on either side, power with an exact exponent, plain and in-place) yields the nominal value and unit of the same arithmetic on plain quantities, together with the first-order uncertainty for independent inputs. The uncertainty always has the same shape and unit as its value, is never negative, and is finite whenever the first-order formula is; an exact operand contributes none. Expressing an input in another unit does not change the physical result.",
 ["inputs"],"all values (negative, zero), uncertainties, units and operand kinds",
 "tests use two positive arrays",
 ["uncertainquantity.py"],[("UncertainQuantity operators","uncertainquantity.py")],["UncertainQuantity arithmetic",".uncertainty"])
prop("C16","Predefined units have their published values and names",
 "Every predefined unit has the dimension and SI value given by its published definition, every multiple and submultiple is the exact power of ten (or of 1024) of its base, and related units are mutually consistent. Every published name, symbol and alias, as attribute or as text, denotes that unit.",
 ["inputs"],"all predefined units, all their names, all pairs of them",
 "unit tests check a small minority of the about 350 units",
 ["units/__init__.py","units/length.py","units/mass.py","units/time.py","units/volume.py","units/energy.py","units/force.py","units/pressure.py","units/electromagnetism.py","units/information.py","units/temperature.py","units/angle.py","units/area.py","units/power.py","units/radiation.py","units/viscosity.py","units/velocity.py","units/frequency.py","units/heat.py","units/concentration.py","units/substance.py","units/dimensionless.py","units/acceleration.py","units/compound.py","unitquantity.py"],
 [("unit definitions","units/"),("UnitQuantity.__init__ registration","unitquantity.py")],["pq.<unit>","unit_registry"])
prop("C17","Physical constants match the bundled reference data and each other",
 "Every entry of the bundled reference table has the value, unit and uncertainty printed in the reference data file, and every named constant is the entry its name says, with the same value and unit. Constants related by physical law (for example mass and mass energy, gyromagnetic ratios, h and hbar) agree within their stated uncertainties. Constants convert like any other quantity.",
 ["inputs"],"all constants, all entries of the table, all compatible conversions",
 "constants tests touch a few of about 300 constants",
 ["constants/_codata.py","constants/_utils.py","constants/__init__.py","constants/electron.py","constants/proton.py","constants/neutron.py","constants/muon.py","constants/tau.py","constants/deuteron.py","constants/helion.py","constants/triton.py","constants/alpha.py","constants/quantum.py","constants/atomicunits.py","constants/naturalunits.py","constants/relationships.py","constants/statisticalmechanics.py","constants/electromagnetism.py","constants/mathematical.py","constants/astronomy.py","constants/weak.py","constants/xray.py"],
 [("physical_constants table and _cd lookup","constants/")],["pq.constants.<name>","pq.constants.physical_constants"])
prop("C18","Units are immutable and names are never rebound",
 "No operation changes the magnitude, definition or name of a unit: in-place arithmetic, item assignment, filling and unit assignment on a unit raise an error and leave it as it was. Registering a name that is already taken by a different unit raises an error and the name keeps its meaning; registering an identical definition again is accepted. After any history of operations every name still denotes the unit it denoted first.",
 ["inputs","histories"],"all units, all attempted mutations, all sequences of unit definitions",
 "one test tries the five augmented operators on metre",
 ["unitquantity.py","registry.py"],[("UnitQuantity in-place operators, writeable flag","unitquantity.py"),("registry __setitem__","registry.py")],["UnitQuantity","unit_registry"])
prop("C19","Preferred units select the first compatible unit and only that",
 "Rescaling without a target converts to the first entry of the preferred list that has the same dimension, with the same physical amount, independent of the unit the quantity is currently in and of which default units are selected. If no entry fits an error is raised and the quantity is unchanged; the list itself is never modified.",
 ["inputs","configurations"],"all quantities and all preferred lists (compatible, incompatible, duplicated dimensions, compound units)",
 "one test with a two-entry list",
 ["quantity.py"],[("rescale_preferred","quantity.py")],["Quantity.rescale()","Quantity.rescale_preferred()"],
 [("PREFERRED","ordered list of preferred units","quantity.py")])
prop("C20","User-defined and compound units convert according to their definitions",
 "A unit defined from a number times existing units, to any depth and in any order, converts between itself, its definition and the base units with the factor its definition implies, keeps its own identity in results until converted, and can be used by name, symbol or alias in text. A compound unit stays one indivisible symbol in arithmetic while converting exactly like the expression it was built from. A unit defined from nothing is a base unit of its own: its simplified form is itself, and only units defined from it convert to it.",
 ["programs","inputs"],"all definition chains over the registry, all uses of the new units",
 "two tests define one unit each",
 ["unitquantity.py","quantity.py","registry.py"],[("UnitQuantity.__new__/_reference, CompoundUnit","unitquantity.py")],["UnitQuantity(...)","CompoundUnit(...)"])
prop("C21","Operations never modify their operands and failures leave no trace",
 "Every operation other than the documented in-place forms leaves all its operands unchanged in data, unit and uncertainty, and returns a result that can be modified without affecting the operands unless it is a documented view. An operation that raises leaves every quantity involved (other than an explicitly passed output array), the unit registry and the selected defaults exactly as before.",
 ["inputs","histories"],"all operations of the library over random histories sharing operands",
 "tests never inspect operands after an operation",
 ["quantity.py","unitquantity.py","uncertainquantity.py","dimensionality.py","umath.py"],
 [("rescale copy, dimensionality copy","quantity.py"),("umath wrappers","umath.py")],["all public operations"])
prop("C22","All ways of attaching a unit to data agree",
 "Building a quantity from data and a unit given as text, unit object, unit quantity or dimension expression, or by multiplying data with the unit from either side, yields the same quantity with the data's values and shape, and building from an existing quantity converts it to the requested unit. Multiplying lists, arrays, numpy scalars or Python numbers by a unit works on both sides. A unit argument that is not a unit (a quantity with magnitude other than one, a non-scalar, a number or another type) is rejected with an error.",
 ["inputs"],"all data kinds (Python numbers, numpy scalars, nested lists, arrays of every dtype), all unit spellings",
 "tests build from scalars and short lists with three units",
 ["quantity.py","unitquantity.py"],[("Quantity.__new__, validate_dimensionality, validate_unit_quantity","quantity.py"),("UnitQuantity.__mul__/__rmul__","unitquantity.py")],["Quantity(...)","data * unit","unit * data"])
prop("C23","Value and uncertainty stay together through conversions and methods",
 "Converting, simplifying, assigning units to, indexing, reshaping, copying or pickling an uncertain quantity converts or selects value and uncertainty together, so the relative uncertainty is unchanged by unit changes. Sums and means combine the uncertainties of the combined elements in quadrature along the requested axis, and the nan-ignoring variants ignore missing entries; an output quantity given to one of these, an extremum or a selection receives value, unit and uncertainty and is returned. An uncertainty of a different shape or dimension is rejected with an error.",
 ["inputs"],"all uncertain arrays, unit targets, indices and axes",
 "tests use one-dimensional arrays of two elements",
 ["uncertainquantity.py"],[("rescale/simplified/uncertainty setter/__getitem__/sum/mean/nansum/nanmean","uncertainquantity.py")],["UncertainQuantity"])
prop("C24","Subclasses of Quantity behave as quantities",
 "An instance of a user's subclass of Quantity gives the same values, units, errors and in-place effects as a plain quantity in every operation. Views, slices, copies, arithmetic with the instance on the left, universal functions, in-place operations, changes of dtype and pickles give the subclass again, and views and copies run its __array_finalize__, so that attributes are handed on; conversions, reductions and simplification give a quantity in the right unit.",
 ["inputs","histories","programs"],"all subclasses which keep the constructor's signature and use numpy's subclassing hooks, all operations of the library and numpy on them, over histories",
 "the tests never subclass Quantity, although the change log promises that one can",
 ["quantity.py"],[("__array_finalize__, __array_prepare__, __array_wrap__, astype, __reduce__","quantity.py")],["class MyQuantity(Quantity)"])
prop("C25","Threads get the results they would get alone",
 "Several threads which use the library at the same time, each on quantities of its own and all of them on shared units, settings and unmodified quantities, get exactly the results and errors they would get one after another, under every interleaving. Units which a thread defines under names of its own are afterwards known to all threads, and neither shared operands nor settings change.",
 ["schedules","inputs"],"all programs of two or three threads and all interleavings at the granularity of source lines",
 "no test uses threads, and a race would show in very few schedules",
 ["quantity.py","dimensionality.py","markup.py","registry.py","unitquantity.py"],
 [("config lock","markup.py"),("shared registry","registry.py"),("default units and reference units","unitquantity.py")],["all public operations from threading.Thread"],
 [("_Config","setting of the notation, guarded by a lock","markup.py"),("UnitRegistry.__shared_state","names of units, shared","registry.py")])
prop("C26","Wrapped functions see base units and return the declared ones",
 "A numeric function wrapped by quantitizer is called exactly once with the magnitudes of its quantity arguments, positional or keyword, in the selected base units, and its results (a single one, a tuple or a list) come back as quantities in the units which the handler declares for them, denoting the same physical amounts whatever units the arguments were in and whichever default units are selected. The handler is given the arguments as they were given. Results without a declared unit are returned as the function gave them, arguments which are no quantities are passed on as they are, and the arguments are left unchanged.",
 ["inputs","configurations","programs"],"all functions and handlers, all arguments, all selections of default units",
 "the tests do not touch quantitizer",
 ["decorators.py"],[("quantitizer","decorators.py")],["quantities.decorators.quantitizer"])
prop("C27","NumPy's composite functions and Python's built-ins keep the units",
 "The NumPy functions which NumPy composes of the operations of their arguments (median, percentile and quantile, average, linspace, meshgrid, kron, trapezoid, diff and ediff1d, gradient by numbers, tile, unique, rot90, flip, roll, sort, partition, the splitting functions, diag of a matrix, apply_along_axis, zeros_like, ones_like, full_like) and Python's built-ins (sum with a start value, max, min, sorted, abs, round, iteration, membership, index and count in lists) give on quantities what they give on the magnitudes, in the unit of the argument, or in the product of the units where they multiply (kron, trapezoid with spacing). Quantities in different units of one dimension are ordered, found and added up by their physical amounts, or the call raises an error; those of different dimensions raise an error where values are ordered or added. Counts, positions, float, int, complex and bool are plain numbers of the magnitude. No argument is changed.",
 ["inputs"],"all functions of the list, all units, shapes, axes, dtypes and memory layouts; lists of quantities in several units",
 "the tests call none of these functions with units other than one or two literals",
 ["quantity.py","dimensionality.py","unitquantity.py"],
 [("__array_wrap__, __array_finalize__, __getitem__, comparison and arithmetic operators, array methods","quantity.py"),("p_dict","dimensionality.py")],
 ["numpy.median, percentile, quantile, average, linspace, ...","sum, max, min, sorted, abs, in"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
