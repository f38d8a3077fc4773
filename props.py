"""The properties (source of properties.jsonl and MANIFEST.json, see gen_meta.py)."""
EX = "explicit-state bounded exhaustive exploration of the implementation: "
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
                      technique=EX + technique, note=note))


TRUST = (" Every execution inside the stated bounds is run on the real library (no sampling); nothing is claimed beyond the bounds. "
         "Trusted: the independent reference arithmetic in harness/value.h and the public accessors (type, name, operands).")

P("C01", "Arithmetic on expressions never changes the value",
  "Whatever sequence of additions, subtractions, multiplications, divisions and powers builds an expression, the automatically simplified "
  "result has, at every real assignment of its symbols for which the written operations are defined (a power of zero to zero or of a negative base to a "
  "non-integer exponent is not), exactly the value of the written operations. Results involving floating point operands agree up to rounding. "
  "Only at degenerate assignments, where some subexpression vanishes, may the result be undefined although the written expression isn't.",
  ["inputs", "histories"], "all expressions (integers, fractions, numeric powers, constants, symbols with and without positive sign, functions), all operation orders and nestings, all assignments",
  "The unit tests compare about a thousand hand-picked expressions with expected trees; they never evaluate, and reach few combinations of coefficients, exponents and operand orders.",
  ["src/sumsimpl.cpp", "src/productsimpl.cpp", "src/powersimpl.cpp", "src/numpowersimpl.cpp", "src/primefac.cpp", "src/number.cpp", "src/var.cpp"],
  [("sum contraction and ordering", "src/sumsimpl.cpp simplify"), ("product contraction", "src/productsimpl.cpp simplify"), ("power laws", "src/powersimpl.cpp simplify"),
   ("numeric powers by prime factors", "src/numpowersimpl.cpp, src/primefac.cpp")],
  "all operation sequences over an alphabet (depth 2-3), values compared with a reference evaluation at all sign patterns",
  "Bounded: two-level closure of 17 atoms under + - * / ^, grids of numeric powers with their pairs and triples, chains of three operands, exponent laws to depth 3. Bases beyond the limit of the prime factorisation in a grid of their own. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands." + TRUST)

P("C02", "Trigonometric functions, logarithm and square root keep their value",
  "Constructing sin, cos, tan, asin, acos, atan, atan2, log or sqrt of any expression, nesting them, and multiplying their powers yields an expression with the same real value wherever "
  "both are defined; exact results are returned for multiples of pi/12 and pi/8 and their inverse values, inverse functions return principal values, and atan2 of constants the angle of the point (in [0, 2*pi) if it is found exactly, otherwise modulo 2*pi). "
  "Arguments outside the real domain give Undefined.",
  ["inputs", "histories"], "all arguments (numbers, multiples of pi over many turns, symbolic expressions, functions of functions), all products of function powers",
  "Tests check selected angles and one pair of each function combination; quadrant and range handling depends on the numeric value of arbitrary arguments.",
  ["src/trigonometric.cpp", "src/numtrigosimpl.cpp", "src/logarithm.cpp", "src/productsimpl.cpp"],
  [("exact angle tables and quadrant shift", "src/numtrigosimpl.cpp"), ("inverse compositions", "src/trigonometric.cpp createFromTrigo"), ("log laws", "src/logarithm.cpp"), ("contraction of sin, cos, tan powers", "src/productsimpl.cpp contractTrigFctPowers")],
  "every function of every argument of a grid and of a closure, nested twice, products of function powers to depth 3",
  "Bounded: all multiples n*pi/d of 14 denominators over several turns, about 130 numeric arguments nested twice, all functions of a closure of 14 atoms. Arguments 10^-3 to 10^-8 beside every tabulated angle and value." + TRUST)


P("C03", "Expansion keeps the value and expands completely",
  "expand() returns an expression of the same value at every assignment, in which no product contains a sum factor with exponent one or positive integer power of a sum is left, and expanding again changes nothing.",
  ["inputs"], "all expressions: products and integer powers of sums, nested, with non-integer and symbolic exponents and function arguments",
  "Tests expand some products and binomials; products of several sums with cancelling terms, higher powers and nestings are not reached.",
  ["src/sum.cpp", "src/product.cpp", "src/power.cpp", "src/base.cpp", "src/basefct.cpp"],
  [("product expansion", "src/product.cpp expand, expandProductOf2Sums"), ("multinomial expansion", "src/power.cpp expandSumBaseIntExp"), ("term merging", "src/sumsimpl.cpp")],
  "every expression of a two-level closure of 14 atoms, all products of polynomials from a coefficient grid, all powers; oracle: reference evaluation, structural predicate, idempotence",
  "Bounded: closure depth 2 plus one operation, polynomials with up to three terms and coefficients in a small set, exponents up to 6. A further space has floating point coefficients. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands. Products and powers of sums that expand to up to 1024 terms." + TRUST)

P("C04", "Normalisation yields an equal, cancelled fraction",
  "normal(), numerator() and denominator() are consistent: normal(x) has the value of x wherever x is defined, numerator/denominator has it too; for rational functions with rational coefficients numerator and "
  "denominator are polynomials without a common polynomial factor, and an expression that is identically zero normalises to the number zero.",
  ["inputs"], "all expressions: sums, products, quotients and integer powers of polynomials in several symbols, expanded or not, and expressions with roots, functions and symbolic exponents",
  "Tests normalise some dozen fractions; whether a hidden common factor is found depends on the variable order, degrees and coefficients of the polynomials.",
  ["src/fraction.cpp", "src/gcd.cpp", "src/subresultantgcd.cpp", "src/primitivegcd.cpp", "src/poly.cpp", "src/polyinfo.cpp", "src/powernormal.cpp", "src/sum.cpp", "src/product.cpp", "src/symbolmap.cpp", "src/basefct.cpp"],
  [("cancellation by polynomial gcd", "src/fraction.cpp cancel"), ("subresultant gcd", "src/subresultantgcd.cpp gcd"), ("common denominators", "src/sum.cpp toCommonDenom"), ("normal form of powers", "src/powernormal.cpp"), ("temporary symbols", "src/symbolmap.cpp")],
  "every rational function of a closure, all quotients of products of polynomials with a planted common factor, sums of three fractions, unexpanded quotients; oracle: exact rational evaluation at all sign patterns and gcd modulo a prime on generic lines",
  "Bounded: two-level closure of 12 atoms, 50 x 50 polynomials x 10 hidden factors, 18^3 sums of fractions, 300 x 175 unexpanded quotients, non-rational closure of 17 atoms. A common factor is reported only when two independent generic lines show it. A further space has floating point coefficients (value only). Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands. Quotients of polynomials with degrees up to 26." + TRUST)

P("C05", "simplify keeps the value and does not inflate",
  "simplify(x) has the value of x at every assignment where x is defined (roots of quotients may lose single assignments), is never more complex (complexity()) than the plain expansion of x, and an identically vanishing rational function simplifies to zero.",
  ["inputs"], "all expressions including functions whose arguments can be simplified",
  "Tests simplify a handful of expressions and compare with the expected tree.",
  ["src/functions.cpp", "src/base.cpp", "src/trigonometric.cpp", "src/logarithm.cpp", "src/fraction.cpp", "src/sum.cpp", "src/product.cpp", "src/power.cpp"],
  [("choice between normal and expanded form", "src/functions.cpp simplify"), ("simplification of arguments", "src/trigonometric.cpp, src/logarithm.cpp simplify"), ("normal form", "src/fraction.cpp")],
  "every expression of a two-level closure, its powers, and all functions of simplifiable arguments combined with further operands",
  "Bounded: closure of 13 atoms under + - * / ^ combined with a second closure; eight functions of about 70 simplifiable arguments. A further space has floating point coefficients. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands. Quotients of polynomials with degrees up to 26." + TRUST)

P("C06", "Differentiation gives the derivative",
  "diff(x, s) has, at every assignment where x is differentiable, the value of the derivative of x with respect to the symbol s; mixed second derivatives commute in value; a variable that isn't a symbol gives Undefined.",
  ["inputs"], "all expressions, all symbols (also absent ones and ones with positive sign), first and second derivatives",
  "Tests differentiate one expression per rule; combinations of rules, constant subexpressions and nested functions are not sampled.",
  ["src/base.cpp", "src/sum.cpp", "src/product.cpp", "src/power.cpp", "src/trigonometric.cpp", "src/logarithm.cpp", "src/symbol.cpp", "src/functions.cpp"],
  [("power rule", "src/power.cpp diffWrtSymbol"), ("product rule", "src/product.cpp diffWrtSymbol"), ("chain rule for functions", "src/trigonometric.cpp, src/logarithm.cpp diffWrtSymbol"), ("variable check", "src/base.cpp diff")],
  "every expression of a two-level closure and every function of it, oracle: forward-mode automatic differentiation of the written term with the reference arithmetic",
  "Bounded: closure of atoms under + - * / ^ depth 2 plus functions; assignments: all sign patterns. A further space has floating point coefficients. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands. Products and powers of sums that expand to up to 1024 terms." + TRUST)

P("C07", "Substitution replaces exactly what it is asked to",
  "subst(x, from, to) has the value of x with every occurrence of from (a symbol or a subexpression that is an operand somewhere in x) taking the value of to; it is Undefined if a part of x becomes Undefined by that; it leaves x unchanged when from does not occur; has(x, s) tells whether s occurs. "
  "Symbols with different names, subscripts or sign assumption are different symbols.",
  ["inputs"], "all expressions, symbols and subexpressions to replace, all replacements (also zero, negative numbers, expressions containing the replaced symbol)",
  "Tests substitute one symbol in a few sums, products, powers and functions.",
  ["src/base.cpp", "src/sum.cpp", "src/product.cpp", "src/power.cpp", "src/trigonometric.cpp", "src/logarithm.cpp", "src/symbol.cpp", "src/name.cpp", "src/functions.cpp"],
  [("replacement in n-ary nodes", "src/sum.cpp, src/product.cpp subst"), ("replacement in powers and functions", "src/power.cpp, src/trigonometric.cpp, src/logarithm.cpp subst"), ("occurrence test", "src/base.cpp has"), ("symbol identity", "src/symbol.cpp isEqual, src/name.cpp")],
  "every (expression, from, to) triple over closures; oracle: reference evaluation of the tree with the replaced node's value exchanged, and a structural occurrence test independent of the library's equality",
  "Bounded: closure of 15 atoms under + - * / ^, one level deeper with fewer replacements, all functions of it, 18 subexpressions x 8 replacements, 20 look-alike symbols. A further space has floating point coefficients. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands. Products and powers of sums that expand to up to 1024 terms." + TRUST)

P("C08", "Linear systems, inverses and determinants are right or refused",
  "For every square system solve() returns a solution (the residual of every equation vanishes), invert() the inverse (product with the matrix is the identity), determinant() the determinant; singular systems are refused by std::invalid_argument by solve() and invert(), for determinant() the answer is zero or a refusal; "
  "the answer does not depend on the equation order beyond the order of the answer, on the container type, or on skipped fields.",
  ["inputs"], "all matrices and right hand sides with numeric, symbolic, floating point and hidden-zero entries, all pivot strategies, all container kinds",
  "Tests solve some ten systems; which pivots vanish depends on the entries' pattern and on identities between them.",
  ["include/tsym/solve.h", "include/tsym/traits.h", "src/directsolve.cpp", "src/ludecomp.h", "src/options.cpp"],
  [("LU decomposition and pivoting", "src/ludecomp.h"), ("matrix operations", "src/directsolve.cpp"), ("container access and skip fields", "include/tsym/solve.h, include/tsym/traits.h")],
  "all matrices of dimension 1 and 2 over an alphabet, all sparse/numeric 3x3, 3x3 with hidden zeros, all patterned 4x4 matrices and 4x4 matrices whose entries cancel during the elimination; oracle: Leibniz determinant and residuals evaluated by the reference arithmetic",
  "Bounded: entries from alphabets of 6 to 20 expressions, dimensions 1 to 4; all row permutations of several 5x5 and 6x6 matrices." + TRUST)

P("C09", "The parser accepts exactly its language with the conventional meaning",
  "parse() accepts exactly the sentences of the grammar: sums, products, quotients, right-associative powers, parentheses, a leading sign of an expression and a minus in front of any factor, the functions sin cos tan asin acos atan sqrt log with one and atan2 with two arguments "
  "(case-insensitive), the constants pi and euler (case-insensitive), symbols (letters and digits, optional subscript _x or _{xyz}), integers of any length and floating point numbers, with arbitrary whitespace between tokens; everything else, including non-ASCII input, "
  "yields no result. An accepted string evaluates to its conventional value: usual precedence, left-associative + - * /. The Var constructor from a string gives the symbol or integer it spells and Undefined for everything else.",
  ["inputs"], "all strings",
  "Tests parse about a hundred strings; precedence, sign and backtracking interactions over all token sequences are not sampled.",
  ["src/parser.cpp", "src/var.cpp", "src/functions.cpp", "src/name.cpp"],
  [("grammar and semantic actions", "src/parser.cpp QiParser"), ("string constructors", "src/var.cpp Var(std::string_view)"), ("accept only whole strings", "src/functions.cpp parse")],
  "all strings over token and character alphabets up to a length, all operator chains, all bytes at all positions; oracle: an independent recursive-descent reference grammar evaluating with the reference arithmetic",
  "Bounded: all token strings up to length 7 over 10 tokens, 6 over 12 tokens, all character strings up to length 5 to 7 over 8 to 10 characters, 39366 operator chains, 139 thousand function calls, growth families up to 60." + TRUST)

P("C10", "Printed expressions denote the expression",
  "The text printed for an expression (ASCII, and unicode after spelling out Greek letters) reads, with the usual precedence rules, as an expression of the same value; Undefined prints as Undefined; parse() reads the library's own ASCII output (without Euler's number) as an expression of the same value; "
  "every symbol is printed with its full name; a user-defined PrintEngine receives properly nested calls that describe the same expression, with positive symbols announced as such.",
  ["inputs"], "all expressions: signs, fractions, roots, nested powers, functions, floating point numbers, all symbol names",
  "Tests compare the text of about 150 expressions; parenthesising depends on the combination of sign, exponent, coefficient and operand kind.",
  ["src/printer.cpp", "src/plaintextprintengine.cpp", "src/namefct.cpp", "src/parser.cpp", "include/tsym/printengine.h"],
  [("fractions, signs and parentheses", "src/printer.cpp Printer"), ("text of the tokens", "src/plaintextprintengine.cpp"), ("names", "src/namefct.cpp unicode, concat")],
  "every expression of a two-level closure and of grids of products of powers, functions, numbers and names is printed in three engines and read back by an independent reference reader",
  "Bounded: closure of 20 atoms combined with a second closure, 1440 x 36 x 8 products of powers, functions of the closure with further operands, 350 names. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands. Products and powers of sums that expand to up to 1024 terms." + TRUST)


P("C11", "Equality is structural and the order of operands does not matter",
  "Two expressions compare equal exactly if they are the same expression, whatever history built them; equal expressions have equal hash values; building a sum or product from the same operands in another order or association gives the equal expression "
  "(except for products in which a number meets a sum or several roots of numbers meet); neutral elements (x + 0, x*1, x^1), x - x = 0, -(-x) = x, x + x = 2*x, x*x = x^2 hold as equality.",
  ["inputs", "histories"], "all expressions, all operand orders and associations",
  "Tests compare some hand-picked pairs; whether the canonical order is a total order depends on every pair of operand kinds.",
  ["src/order.cpp", "src/sumsimpl.cpp", "src/productsimpl.cpp", "src/base.cpp", "src/sum.cpp", "src/product.cpp", "src/power.cpp", "src/function.cpp", "src/trigonometric.cpp", "src/symbol.cpp", "src/constant.cpp", "src/numeric.cpp", "src/boosthash.h", "src/var.cpp"],
  [("canonical order", "src/order.cpp"), ("merging of operands", "src/sumsimpl.cpp, src/productsimpl.cpp"), ("structural equality", "isEqualDifferentBase / isEqual of every class"), ("hash", "src/boosthash.h, hash() of every class")],
  "all pairs of a closure are compared and combined in both orders; all orders and associations of three, of four and of a closure expression with two more operands; oracle: a structural serialisation independent of the library's equality",
  "Bounded: closure of 24 atoms under + - * / ^ (2133 expressions, all pairs), all triples of 33 operands, all quadruples of 15. Further pairs have floating point coefficients. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands." + TRUST)


P("C12", "Results do not depend on history and expressions never change",
  "The result of every operation (construction, expansion, normal form, simplification, derivative, substitution, parsing, printing, solving, conversion) is the same whatever operations were performed before it in the process, including failing ones and ones on symbols of the same name with another sign assumption; "
  "no operation changes its operands or any other existing expression; in-place operators give the result of the binary ones, also when both sides are the same object, and never affect copies.",
  ["histories"], "all sequences of operations",
  "Each test starts with cleared caches and looks at one operation; interference between cached results or temporary symbols shows up only for particular sequences.",
  ["src/cache.h", "src/cache.cpp", "src/base.cpp", "src/baseptrlistfct.cpp", "src/poly.cpp", "src/productsimpl.cpp", "src/sumsimpl.cpp", "src/symbol.cpp", "src/symbolmap.cpp", "src/var.cpp"],
  [("result caches", "RegisteredCache in src/base.cpp, src/baseptrlistfct.cpp, src/poly.cpp, src/productsimpl.cpp, src/sumsimpl.cpp"), ("symbol pool and temporary symbols", "src/symbol.cpp"), ("value semantics", "src/var.cpp")],
  "every operation of an alphabet after every other one, all histories of three, the whole alphabet from every starting point in both directions, and growing histories; every history in a process forked from a parent that has computed nothing; oracle: the observation in a fresh process",
  "Bounded: 605 operations, all ordered pairs, all triples of 34 of them, 1210 long histories of 605 operations, 120 growing histories, 915 expressions for immutability." + TRUST)


P("C13", "Signs are claimed only where they hold",
  "isPositive(x) (isNegative(x)) is true only if no assignment of real values to the symbols, positive ones to the symbols declared positive, gives x a negative (positive) value; never both; for expressions of numbers and constants the sign is decided; "
  "sums of expressions with the same known sign, and products, quotients and powers of expressions with known sign have their sign found.",
  ["inputs"], "all expressions over plain and positive symbols, numbers and constants",
  "Tests query the sign of a few dozen expressions; a wrong claim needs a particular combination of summands, factors and sign assumptions.",
  ["src/sum.cpp", "src/product.cpp", "src/power.cpp", "src/logarithm.cpp", "src/trigonometric.cpp", "src/symbol.cpp", "src/numeric.cpp", "src/constant.cpp", "src/functions.cpp"],
  [("sign of sums", "src/sum.cpp sign"), ("sign of products", "src/product.cpp sign"), ("sign of powers", "src/power.cpp isPositive"), ("sign of functions", "src/logarithm.cpp checkSign, src/trigonometric.cpp isPositive")],
  "every claim made for a two-level closure and for functions of it is checked at a grid of admissible assignments by the reference arithmetic; the sign of constant expressions is compared with the reference value",
  "Bounded: closure of 22 atoms combined with 18 further operands, ten functions of it, 2400 x 31 constant expressions, all triples of 29 expressions with known sign; 834 assignments (2917 thorough). Constants below 1e-9 are left out (floating point resolution). Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands." + TRUST)


P("C14", "Integers and fractions are exact, conversions are right or refused",
  "Arithmetic with integers and fractions of any size (also as coefficients and in expanded powers of sums) is exact and gives numbers in lowest terms; division by zero gives Undefined; roots of perfect powers up to 1000 are resolved to numbers; "
  "Var(int), Var(int, int) and Var(double) hold the given value (decimals with up to four digits exactly); conversion to int gives the value or throws domain_error (not an integer) or overflow_error (too large); conversion to double gives the value of every numerically evaluable expression and throws domain_error for all others.",
  ["inputs"], "all integers, fractions and doubles (magnitudes below 1e-13 are taken as zero in floating point)",
  "Tests use a few small numbers and one or two large ones; errors appear at limits of machine types and for particular signs and common factors.",
  ["src/number.cpp", "src/number.h", "src/numeric.cpp", "src/int.h", "src/numberfct.cpp", "src/var.cpp", "src/numpowersimpl.cpp", "src/primefac.cpp"],
  [("rational arithmetic", "src/number.cpp"), ("conversion", "src/var.cpp operator int, operator double; src/number.cpp toDouble"), ("double to fraction", "src/number.cpp tryDoubleToFraction"), ("roots", "src/number.cpp tryGetBase, src/numpowersimpl.cpp")],
  "all pairs and all chains of three operations over 60 numbers around every machine limit, all integer powers -40..64, all decimals k/10000, binomial expansions; oracle: boost::multiprecision rationals and exact decimal text",
  "Bounded: 60 integers and fractions up to 2^128, 3.4 million chains, 400 thousand decimals, expansions up to the 45th power." + TRUST)


P("C15", "Introspection describes the expression",
  "type(), name() and operands() describe an expression completely: adding, multiplying, raising or applying the named function to the operands gives back the equal expression; numbers, symbols and constants have no operands; sums and products have at least two, none of their own type, no neutral element and at most one number; "
  "name() is the given name of a symbol (with subscript), function or constant and empty otherwise; collectSymbols() returns every occurring symbol once; has() finds every subexpression; complexity() grows strictly from the parts to the whole.",
  ["inputs"], "all expressions and all symbol names",
  "Tests inspect a few expressions; the invariants must hold for every result the simplification produces.",
  ["src/functions.cpp", "src/var.cpp", "src/base.cpp", "src/sum.cpp", "src/product.cpp", "src/power.cpp", "src/function.cpp", "src/trigonometric.cpp", "src/logarithm.cpp", "src/symbol.cpp", "src/constant.cpp", "src/numeric.cpp", "src/name.cpp", "src/namefct.cpp"],
  [("type and operands", "src/var.cpp type, src/functions.cpp operands"), ("names", "src/namefct.cpp concat, src/functions.cpp name"), ("symbols", "src/functions.cpp collectSymbols"), ("complexity", "complexity() of every class")],
  "every expression of a two-level closure, all functions and derivatives of it and all their subexpressions; oracle: rebuilding from the parts, compared by an independent serialisation",
  "Bounded: closure of 23 atoms combined with each atom, functions and derivatives of it, sums and products of up to 61 operands, 91 names in all pairs. Families growing up to 9 symbols, 20 operands, degree 60 and depth 9 combined with 14 operands." + TRUST)


P("C16", "Undefined exactly where the mathematics is, and nothing brings tsym down",
  "Operations without a real value (division by zero, also by an expression that simplifies to zero; even roots and logarithms of negative constants; log(0); tan at its poles; asin and acos beyond one; atan2(0, 0)) give Undefined, constants that have a value never do. "
  "Undefined absorbs every operation and function on either side, compares equal to nothing, and answers every query without failing. Every operation on finite operands of any size, also at the limits of machine types, terminates normally with a result, without abort or uncaught internal exception.",
  ["inputs"], "all operands: constants, symbolic expressions, numbers of any magnitude and exponents of any size",
  "Tests try a few divisions by zero and domain errors; hidden zeros, extreme magnitudes and their combinations are endless.",
  ["src/undefined.cpp", "src/power.cpp", "src/powersimpl.cpp", "src/productsimpl.cpp", "src/sumsimpl.cpp", "src/logarithm.cpp", "src/trigonometric.cpp", "src/numtrigosimpl.cpp", "src/number.cpp", "src/numpowersimpl.cpp", "src/primefac.cpp", "src/var.cpp"],
  [("propagation of Undefined", "create() of Sum, Product, Power, Function"), ("domain checks", "src/powersimpl.cpp, src/logarithm.cpp, src/trigonometric.cpp create"), ("limits of machine types", "src/number.cpp, src/numpowersimpl.cpp, src/primefac.cpp, src/int.h")],
  "every Undefined producer with every partner of a closure on both sides; all constants of a closure with every function and operation, decided by interval reference arithmetic; all values substituted into a closure; all pairs (thorough: triples) of extreme operands in processes whose crash or hang is a violation",
  "Bounded: 44 producers x a closure of 29 atoms, closure of 25 constants, 45 extreme operands in all pairs, exponents up to 10^30. Not explored: infinite and NaN operands, 2^n with n beyond 400 (computed digit by digit), 0^0." + TRUST)

P("C17", "A failing operation leaves no trace",
  "If an operation is ended by an exception from outside of the library's control (memory exhaustion at any point, an exception thrown by a user's logger or print engine), the exception reaches the caller or the operation completes with its usual result; the process is not terminated, no existing expression changes, "
  "the target of an in-place operator keeps its value, and repeating the operation or performing any other one gives the same results as if the failed operation had never been tried.",
  ["histories", "crash_points"], "all operations, all points during an operation at which an allocation, a log message or a call of a print engine can fail, with and without anything computed before",
  "Unit tests never make an allocation or a callback fail; caches, symbol pools and function-local statics could be left half-initialised at any of thousands of points.",
  ["src/cache.h", "src/cache.cpp", "src/symbol.cpp", "src/symbolmap.cpp", "src/numeric.cpp", "src/constant.cpp", "src/product.cpp", "src/power.cpp", "src/base.cpp", "src/poly.cpp", "src/productsimpl.cpp", "src/var.cpp", "src/printer.cpp", "src/parser.cpp", "src/directsolve.cpp"],
  [("result caches", "src/cache.h RegisteredCache and its users"), ("symbol pool and temporary symbols", "src/symbol.cpp createNonEmptyName, createTmpSymbol"), ("assignment of results", "src/var.cpp operators"), ("callbacks", "src/logging.h, src/printer.cpp")],
  "fault injection at every point: for each operation of an alphabet and each n, a forked process in which the n-th allocation (log message, engine call) fails; afterwards the operation is repeated, existing expressions are looked at again and a set of probes is run, all compared with a process without fault",
  "Bounded: about 550 operations of all kinds, every single allocation during the call of operations with up to 7000 (and, with nothing computed before, also while the operands are built, up to 1000), every log message, every engine call; thorough: a larger alphabet, and memory that stays exhausted." + TRUST)

P("C18", "Log messages reach exactly the installed logger",
  "Every message goes exactly once, at its level, to the logger installed last by Logger::setInstance() (methods a logger does not override keep the default behaviour, in particular errors and critical messages reach an overridden warning() then) and to nothing else: with a user's logger that overrides all levels nothing is written to the standard streams, "
  "the default logger prints warnings, errors and critical messages to the standard output, one line each, and is silent otherwise. A replaced logger is destroyed at once; messages name file, line and text; results never depend on the logger, also not if it uses the library itself.",
  ["histories"], "all sequences of installing loggers and performing operations, all operations",
  "The unit tests install one logger for the whole run and don't look at messages or output.",
  ["src/logger.cpp", "include/tsym/logger.h", "src/logging.h"],
  [("the current logger", "src/logger.cpp setInstance, getInstance"), ("message composition", "src/logging.h"), ("default output", "src/logger.cpp warning, error, critical")],
  "all sequences of five (thorough: six) events (install one of five loggers, six operations) against a model that knows only the current logger, with the standard streams captured; all operations of an alphabet under a recording, the default and a reentrant logger",
  "Bounded: 11^5 event sequences, about 41000 operations. Installing no logger (a null pointer) is not explored." + TRUST)
