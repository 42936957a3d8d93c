import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
MUL=["include/g3opsMul.hpp"]+["include/g3opsMul_%s.hpp"%t for t in "double Scalar Vector BiVector TriVector Spinor ImSpin ComPlex DirPlex MultiVector".split()]+["include/g3_private.hpp"]
ADD=["include/g3opsAdd_%s.hpp"%t for t in "same Scalar Vector BiVector TriVector Spinor ImSpin ComPlex DirPlex MultiVector".split()]
SUB=[f.replace("Add","Sub") for f in ADD]
p("C01","The geometric product is right for every ordered pair of types",
"For every ordered pair of the ten operand types (double, Scalar, Vector, BiVector, TriVector, Spinor, ImSpin, ComPlex, DirPlex, MultiVector; double*double aside) and all finite component values whose products stay in the normal double range, operator* returns the product of the geometric algebra of 3D Euclidean space (e1*e1=e2*e2=e3*e3=1, e1*e2=-e2*e1=e12, e123=e1*e2*e3) in a type that holds every grade the product can have. Each component is exact when all intermediate values are exactly representable (e.g. small integers), and otherwise within a few roundings (16 machine epsilons of the sum of the absolute values of its terms). Multiplying a value by itself (same object on both sides) obeys the same rule. A built-in number (int, float, ...) as a factor counts as the double of its value.",
["inputs"],"all 99 ordered type pairs, all finite component values without overflow/underflow",
"The tests multiply one fixed pair of values per type pair, so a wrong sign, index or special case that depends on the values, on a coincidence between components, or on magnitude is never seen.",
MUL,[("operator* overloads, one per ordered type pair","include/g3opsMul_*.hpp"),("prodComm / prodAnti, contraction and extension of 3-component blades","include/g3_private.hpp")],
["return value of operator* for every type pair"])
p("C02","Sums and differences combine like grades exactly",
"For every supported operand pair, operator+ and operator- return an entity whose component in each basis direction is exactly the correctly rounded double sum (or difference) of the operands' components in that direction, absent ones counting as zero. So x+y equals y+x, x-y equals -(y-x) and x+(-y), x-x is zero and x+0 is x, and no supported operand pair silently drops or misplaces a grade.",
["inputs"],"every operand type pair supported by the current headers, all finite component values",
"Tests use one set of values per type pair and small, mostly positive numbers; grade mix-ups that cancel on those values or that depend on the magnitudes or coincidences of components are invisible.",
ADD+SUB,[("operator+ overloads","include/g3opsAdd_*.hpp"),("operator- overloads","include/g3opsSub_*.hpp"),("binaryElementByElement","include/g3_private.hpp")],["return values of binary operator+ and operator-"])
p("C03","Any expression, in any mix of types, obeys the algebra's laws",
"Any program of products, sums, differences, negations, reversions, involutions, duals, squares and cubes written with any mix of the library's types gives the same value as the same program written with general multivectors, up to rounding proportional to the sum of absolute values of the expanded terms. In particular products are associative and distribute over sums, Scalar, TriVector and ComPlex values commute with everything, sq(x)=x*x and cube(x)=x*x*x.",
["programs","inputs"],"all well-typed expressions over the operators and types, all finite operand values",
"Tests check single operations; two overloads that are each wrong in a consistent way, or state carried from one operation to the next, only show when operations of several types are composed.",
MUL+ADD+SUB+["include/g3opsUni.hpp","include/g3func.hpp"],[("typed operator overloads returning the smallest type that holds the result","include/g3ops*.hpp"),("sq, cube","include/g3func.hpp")],["value of the whole expression, compared with an independent multivector evaluation"])
p("C04","The sign-changing involutions act gradewise and form a group",
"For every entity type and every component value, operator- negates all grades, reverse() negates exactly the bivector and trivector grades, oddverse() exactly the vector and trivector grades and dirverse() exactly the vector and bivector grades, leaving every other component bit-for-bit as it was. Hence each is its own inverse, any two of reverse, oddverse and dirverse compose to the third in either order, reverse(x*y)=reverse(y)*reverse(x), dirverse(x*y)=dirverse(y)*dirverse(x) and oddverse(x*y)=oddverse(x)*oddverse(y).",
["inputs"],"all types, all finite component values, all pairs for the (anti)automorphism laws",
"Tests check the sign pattern on one value per type.",
["include/g3opsUni.hpp"],[("operator-, reverse, oddverse, dirverse overloads","include/g3opsUni.hpp")],["return values of operator-, reverse, oddverse, dirverse"])
p("C05","dual(x) is multiplication by the unit trivector",
"For every entity type, and for a double, dual(x) equals e123*x exactly in every component and has the type holding the complementary grades. Therefore dual(dual(x)) = -x, dual(x*y) = dual(x)*y = x*dual(y) up to rounding, and dual is linear.",
["inputs"],"all types, all finite component values",
"Tests check basis elements and one sample value per type.",
["include/g3opsUni.hpp"],[("dual overloads","include/g3opsUni.hpp")],["return value of dual"])
p("C06","Magnitude is the Euclidean norm and direction is the unit element",
"For every entity type with components of moderate size (zero or between 1e-140 and 1e140 in absolute value), magSq(x) is the sum of squares of all components and magnitude(x) its non-negative square root, to a few machine epsilons. For nonzero x, direction(x) has unit magnitude and magnitude(x)*direction(x) reproduces x component by component, pairMagDirFrom(x) returns those same two values, direction is unchanged (to rounding) when x is scaled by a positive number and negated when x is negated; for zero x the magnitude is zero and the direction is not valid.",
["inputs"],"all types (double included for magSq, magnitude), components zero or in 1e-140..1e140",
"Tests use unit-sized values; scale thresholds, special directions, tiny and huge values and permutation errors in one component are outside what they sample.",
["include/g3func.hpp"],[("magSq overloads","include/g3func.hpp"),("magnitude, pairMagDirFrom, direction","include/g3func.hpp")],["return values of magSq, magnitude, direction, pairMagDirFrom"])
p("C07","Amplitude is the complex square root of x*dirverse(x)",
"For every entity type, ampSq(x) equals the Scalar+TriVector value of x*dirverse(x) (all its other grades being zero) within rounding relative to magSq(x), and amplitude(x)*amplitude(x) equals ampSq(x) with amplitude(x) on the principal branch (non-negative scalar part). ampSq is multiplicative: ampSq(x*y)=ampSq(x)*ampSq(y) up to rounding relative to magSq(x)*magSq(y), and ampSq of x, dirverse(x) and -x agree.",
["inputs"],"all nine entity types, components zero or in 1e-70..1e70",
"Tests check a few values; sign errors in cross terms vanish for special values and the branch of the root depends on the sign pattern of both parts.",
["include/g3func.hpp"],[("ampSq overloads","include/g3func.hpp"),("amplitude","include/g3func.hpp")],["return values of ampSq and amplitude"])
p("C08","inverse(x) really inverts, and is not valid when there is none",
"For every nonzero blade, ComPlex or MultiVector x with components of moderate size that has an inverse, inverse(x)*x and x*inverse(x) both equal one, with an error bounded by a small multiple of machine epsilon times magSq(x)/|ampSq(x)| (one for blades and ComPlex). When no inverse exists (x is zero, or x*dirverse(x) is exactly zero, as for e0+e1) the result is not valid; inverse(inverse(x)) returns x and inverse(x*y)=inverse(y)*inverse(x) within the same conditioning.",
["inputs"],"all blades, ComPlex and MultiVector values with magnitude 1e-60..1e60, including singular and nearly singular ones",
"Tests invert a handful of well-conditioned values and one singular value.",
["include/g3func.hpp"],[("inverse for blades, ComPlex, MultiVector","include/g3func.hpp")],["return value of inverse, its validity, and its product with the argument"])
p("C09","exp of a bivector or spinor is the exact rotation-scaling exponential",
"For every valid BiVector B with magnitude up to 1e6, exp(B) equals cos|B| + sin|B| B/|B| (one when B is zero) to a few machine epsilons times (1+|B|), with unit magnitude, and for a Spinor s+B with moderate s, exp(s+B) equals e^s exp(B). Hence exp(B)*exp(-B)=1, exp(B)*exp(B)=exp(2B), exponentials of parallel bivectors multiply by adding angles, and a BiVector with any component that is not valid (NaN, infinite, subnormal), or a Spinor with any NaN component, gives a result that is not valid.",
["inputs"],"all valid bivectors of magnitude 0 or 1e-140..1e6, scalars in -300..300, all invalid component patterns",
"Tests sample a few angles; series or special-case switches near zero, near multiples of pi, for special planes and for large angles are input regions they do not enter.",
["include/g3func.hpp"],[("exp(BiVector), exp(Spinor)","include/g3func.hpp"),("pairMagDirFrom","include/g3func.hpp")],["return value of exp"])
p("C10","exp of a multivector is its power series",
"For every valid MultiVector M of moderate size, exp(M) equals the sum of M^k/k! within rounding scaled by the size of the terms involved; in particular exp(zero)=1, exp(pi*e123)=-1, exp(e1)=cosh(1)+sinh(1)e1, exp of a nilpotent N is 1+N, exp(M)*exp(-M)=1, and it agrees with exp of a BiVector or Spinor when M has only those grades. An argument with any component that is not valid gives a result that is not valid.",
["inputs"],"all valid multivectors with magnitude up to 30, all grade mixes incl. nilpotent and commuting parts, all invalid component patterns",
"The repository's own tests of this function are disabled; it was wrong for most grades at the pinned commit (repaired).",
["include/g3func.hpp"],[("exp(MultiVector)","include/g3func.hpp")],["return value of exp"])
p("C11","logG2 inverts exp on spinors and returns the principal value",
"For every valid Spinor s with magnitude between 1e-12 and 1e12, logG2(s) is valid, its scalar part is ln|s|, its bivector part is the turn angle in [0,pi] times the unit plane of s, and exp(logG2(s)) returns s within a few machine epsilons (within 1e-7|s| where s is within 1e-7 radian of a pure positive or negative scalar). For a negative scalar the plane used is the direction of the plane argument (e23 when omitted, any nonzero size), and a zero or not valid spinor has a result that is not valid.",
["inputs"],"all spinors with magnitude 1e-12..1e12 incl. near-identity, near-half-turn, all planes; all invalid component patterns",
"Tests sample a few rotations; the function has three angle regimes and thresholds at one machine epsilon that fixed samples do not probe.",
["include/g3func.hpp"],[("logG2","include/g3func.hpp")],["return value of logG2 and of exp(logG2(s))"])
p("C12","sqrtG2 returns the principal square root of a spinor",
"For every valid Spinor s with magnitude between 1e-12 and 1e12, r=sqrtG2(s) is valid, r*r returns s within a few machine epsilons (within 1e-7|s| where s is within 1e-7 radian of a pure positive or negative scalar), |r|=sqrt(|s|), and r has a scalar part that is not negative and a bivector part along that of s (half the turn, same plane and sense). For a negative scalar the root lies in the direction of the plane argument (e23 when omitted); sqrtG2(zero) is zero and a not valid spinor has a result that is not valid.",
["inputs"],"all spinors with magnitude 1e-12..1e12 and exact zero, all planes; all invalid component patterns",
"Tests sample a few spinors; the branch choice and the treatment near a half turn depend on input regions they do not enter.",
["include/g3func.hpp"],[("sqrtG2","include/g3func.hpp"),("logG2","include/g3func.hpp")],["return value of sqrtG2 and its square"])
p("C13","Spinor sandwich products are rigid rotations",
"For every bivector angle A and R=exp(A/2), reverse(R)*x*R turns every vector, bivector and trivector x rigidly by |A| in the plane and sense of A (e1 towards e2 for A along e12), and R*x*reverse(R), the README's frame transform, by |A| in the opposite sense: magnitudes, dot products, volumes and handedness are preserved, the plane of A and its normal are fixed, and the result matches the classical axis-angle formula to rounding. Rotations compose as products of spinors, R and -R act alike, reverse(R) undoes R, and a sequence of rotations, moments (dual of cross products) and frame transforms as in the README agrees with the matrix computation of the same.",
["inputs","programs"],"all bivector angles up to 1e3, all vectors, bivectors, trivectors in 1e-100..1e100, chains of up to dozens of rotations",
"Tests check only a few fixed attitudes and the README example; a sign or handedness error in one overload path, or error growth along chains, needs arbitrary attitudes and sequences.",
["include/g3func.hpp","include/g3opsMul_Spinor.hpp","include/g3opsMul_Vector.hpp","include/g3opsMul_ImSpin.hpp","include/g3opsUni.hpp","README.md"],[("exp, operator*, reverse","include/g3func.hpp, include/g3opsMul_*.hpp, include/g3opsUni.hpp")],["results of R*x*reverse(R) and reverse(R)*x*R"])
p("C14","nearlyEquals decides by the documented relative tolerance, all components",
"For doubles nearlyEquals(test,ref,tol) is true exactly when both are valid and |test-ref| < tol*|ref|, and for each grade of any entity exactly when all components are valid and the root-sum-square difference is less than tol times that of the reference grade (for a zero reference grade, exactly when every component is less than tol in size); an entity is nearly equal only if every grade is, and a plain std::array of doubles of any length follows the rule of a grade. A tolerance that is not above zero (NaN included) never gives true, the default is machine epsilon, a value nearly equals itself at any tolerance above zero, and no component, position or sign is ignored.",
["inputs"],"all nine types, double, bool; references zero or in 1e-140..1e140, differences at all scales incl. just inside and outside tol, invalid values in any position of either argument, tolerances 1e-18..1e3, not positive and NaN; arrays of 1 to 33 doubles",
"Tests check a few pairs per type; whether each single component, grade and position counts, on both sides of the threshold at every scale, is a large product space.",
["include/g3compare.hpp","include/g3validity.hpp"],[("nearlyEquals family, nearlyEqualsAbs, nearlyEqualsRel, isSmallAbsDiff, bothAreValid","include/g3compare.hpp")],["boolean result of the comparison functions"])
p("C15","Equality compares every component exactly",
"For every type that has operator==, a==b is true exactly when all corresponding components are numerically equal doubles; one differing component by one unit in the last place in any position makes it false, values with a NaN component are never equal (not even to themselves), and zero equals minus zero. It is symmetric and transitive and agrees with comparing the components one by one.",
["inputs"],"Scalar, Vector, BiVector, TriVector, Spinor, ImSpin, MultiVector and all double bit patterns, every position",
"Tests compare a value with itself and with one clearly different one.",
["include/g3compare.hpp"],[("operator== overloads","include/g3compare.hpp")],["boolean result of operator=="])
p("C16","Validity is decided on every component; null is wholly invalid, zero wholly zero",
"isValid(x) is true exactly when every component of x (or the double) is zero or a normal floating point number, for every entity type and std::array of doubles of any length, whichever component is bad (NaN, infinity of either sign, subnormal). null<T>() has every component NaN and is not valid, zero<T>() has every component equal to zero and is valid, for every type T.",
["inputs"],"all types, every subset of bad components, every class of double",
"Tests check whole-null and whole-good values, never one bad component among good ones; the pinned commit looked only at the first component of a blade (repaired).",
["include/g3validity.hpp","include/g3const.hpp"],[("isValid overloads","include/g3validity.hpp"),("null<>, zero<>","include/g3const.hpp")],["isValid result, components of null<T>() and zero<T>()"])
p("C17","Null values poison whatever is computed from them",
"A null entity given to any operator or function of the library (either side of +, -, *; any involution, dual, magnitude, direction, amplitude, inverse, exp, logarithm, root, sum with valid data) yields a result that isValid() reports as not valid, and any comparison with it is false, so that validity can be tested once at the end of a chain; only the plane argument of logG2 and sqrtG2, which is used for negative scalars alone, is exempt. A single NaN component likewise makes not valid every result component that depends on it, and no operation turns a NaN input component into a valid value of a result component depending on it; operations on valid, moderate values always give valid results.",
["inputs","programs"],"all operators and functions, null in every argument position, single NaN in every component position",
"Tests check null only at construction and one sum; propagation has to hold through every overload and every internal branch.",
["include/g3validity.hpp","include/g3const.hpp","include/g3func.hpp","include/g3opsMul.hpp","include/g3compare.hpp"],[("IEEE NaN propagation and explicit null results","include/g3func.hpp, include/g3ops*.hpp")],["validity of results"])
p("C18","Extraction from a stream is all-or-invalid and never leaves stale data",
"Reading any entity (or plain std::array of doubles) from text holding its components as whitespace separated decimal numbers (spelled the way the stream's locale has it) gives exactly those values, consumes exactly that many numbers, leaves the stream good (or at end of file) with the character after the last number unread and ready for the next item, whatever the target held before and whatever precision or output formatting flags the stream has. If the text is short, malformed, out of double's range or otherwise does not give a valid number at some position, the extracted entity is not valid, no grade from the failing one on holds stale or partial data when it was the text that was bad, and the stream then reports failure in the usual way; all this also on a stream that reports by throwing and on one that gives its characters one at a time.",
["inputs","fault_sequences"],"all nine types, all numeric spellings, whitespace layouts, truncations and corruptions at every position, sequences of entities in one stream, stream already failed or at end, streams with exception masks, string, file and unbuffered unseekable stream buffers",
"Tests read one well-formed and one malformed text per type; failure at each component position, previous content of the target and sequences are not sampled.",
["include/g3io.hpp"],[("operator>> for arrays, blades and composites; isInputOkay","include/g3io.hpp")],["extracted entity, stream state and position after the call"])
p("C19","Formatted output shows every component, in order, to the stated precision",
"For every entity of moderate size, operator<< and io::fixed write all its components in index order as separate whitespace-delimited decimal numbers in fixed notation, each within half a unit of the last digit shown (six after the point unless requested otherwise) with the sign kept, and io::enote writes them in scientific notation with the requested number of digits (15 unless requested otherwise); columns line up (equal width whatever the sign) while numbers fit the requested leading digits. The text depends only on the value and the requested digits: not on the number formatting flags, precision, fill character or earlier use of the stream it is written to, nor on the C locale the program has set, and the stream's flags, precision and fill are left as they were.",
["inputs","histories"],"all types, all values from 0 to 1e140 in size and either sign, digits 0..300, all caller stream flags, precisions and fills (field width 0)",
"Tests compare one or two literal strings; merging of adjacent numbers when wide, sign loss, rounding carry and dependence on stream state arise on other values and states.",
["include/g3io.hpp"],[("operator<<, io::fixed, io::enote, DoubleFormat, prepareEnote","include/g3io.hpp")],["text written, stream state after the call"])
p("C20","Values survive a round trip through text",
"For every valid value of every entity type, writing it in e-notation with 16 or more digits after the point (io::enote, or component by component for ComPlex and DirPlex) and extracting it again restores it bit for bit, and with the default 15 digits restores every component of magnitude 1e-307 or more to a relative 7e-16. Writing with operator<< or io::fixed and reading back restores each component to half a unit of the last digit written, also for sequences of values of mixed types written one after another (separated by whitespace) to one stream, and also in a program whose global or C locale has a decimal comma, with streams made under that locale.",
["inputs","histories"],"all valid values incl. extremes of the double range, both signs, sequences of mixed types",
"Tests round-trip a few values; digits lost, exponent widths of three digits, and boundaries between successive values need wide value ranges and sequences.",
["include/g3io.hpp"],[("io::enote / operator<< with operator>>","include/g3io.hpp")],["value read back compared with value written"])
p("C21","Operations are pure: same inputs, same bits, from any thread, in any order",
"Every operator and function of the library returns bit-identical results for identical arguments whatever calls came before, however often it is called, in whichever order or thread, wherever the operands lie in memory, before, during and after main, and in any process of the same build whatever its environment or working directory; arguments are never modified, and results are independent values unaffected by later calls. Any number of threads may use the library at once without synchronisation and without data races.",
["schedules","histories"],"all operations, arbitrary call histories, 2 to 16 threads sharing the same operands",
"The tests are single threaded and call each operation a handful of times, so hidden caches, counters, static scratch data and races cannot show.",
["include/g3func.hpp","include/g3_private.hpp","include/g3opsMul.hpp","include/g3type.hpp","include/g3io.hpp","src/engabra.cpp"],[("stateless inline functions on value types; only immutable constants at namespace scope","include/*.hpp")],["result bits across histories, threads and processes; race reports"],
[("priv::sGlobalNaN","shared constant returned by reference for out of range subscripts","include/g3type.hpp")])
p("C22","Computations have no side effects outside their result",
"No operator, function, comparison or conversion of the library writes to standard output or standard error, throws an exception or ends the process on any input, changes the caller's floating point rounding mode or exception masks, the locale, the environment, or the state, ties or synchronisation of a stream it was not given, or retains memory from call to call. Only stream insertion and extraction touch a stream, and only the one given. This includes the first use, and what happens before main begins and after it ends.",
["inputs","histories"],"all operations, all inputs incl. NaN, infinite, subnormal and huge values, long runs",
"Tests do not look at these channels; the pinned commit printed debug text from exp(MultiVector) (repaired).",
["include/g3func.hpp","include/g3io.hpp","include/g3opsMul.hpp","include/g3compare.hpp","src/engabra.cpp"],[("plain inline functions without I/O; output operators build text in local string streams","include/*.hpp")],["bytes on file descriptors 1 and 2, rounding mode, locale, stream flags, heap in use"])
p("C23","No input makes the library touch bad memory or hit undefined behaviour",
"Whatever the bit patterns of the components (NaN, infinities, subnormals, huge values), whatever the subscript, requested digits, text or stream state, every operator and function performs no out-of-bounds or uninitialised access, no memory leak and no undefined behaviour, and every component of every result is set to a value determined by the arguments.",
["inputs"],"all operations, all double bit patterns, all subscripts 0..2^64-1, digit counts 0..1000, arbitrary text",
"Tests run without sanitizers and only on well-behaved values; an uninitialised or out-of-range component can hold the right value by luck.",
["include/g3type.hpp","include/g3_private.hpp","include/g3io.hpp","include/g3func.hpp","include/g3opsUni.hpp"],[("bounded subscripts, std::array storage, outputs filled completely after default construction","include/g3type.hpp, include/g3_private.hpp")],["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck reports"])
p("C24","Construction, promotion and subscripts agree on every component",
"Every entity built from its parts, from components, from a std::complex, or promoted to MultiVector from any other type has exactly the given values in the given grades and zero elsewhere, and subscripts 0,1,2,... enumerate the components in the documented order identically to the named grade members. Subscripts past the end of a constant Scalar, Vector, BiVector, TriVector, Spinor, ImSpin, ComPlex or DirPlex yield NaN, writing a MultiVector component by subscript changes that component only, splitting a MultiVector into ComPlex and DirPlex parts and rejoining restores it, and ComPlex to and from std::complex preserves both parts and complex arithmetic.",
["inputs"],"all constructors and conversions, all component values and bit patterns, all subscripts",
"Tests construct one or two values per type with repeated or small components.",
["include/g3type.hpp"],[("constructors of MultiVector, ComPlex::from and conversion, operator[]","include/g3type.hpp")],["component values seen through members and subscripts"])
p("C25","The named constants satisfy the algebra's defining relations",
"In every translation unit, also during static initialisation of code that includes the headers, e0, e1, e2, e3, e23, e31, e12 and e123 are the unit basis elements: all 64 products of basis elements follow from e1*e1=e2*e2=e3*e3=1 and anticommutation of distinct vectors, with e12=e1*e2, e23=e2*e3, e31=e3*e1 and e123=e1*e2*e3. zero<T>() is absorbing for products and neutral for sums, one<T>() is the product identity for double, Scalar, Spinor, ComPlex and MultiVector, pi and the turn constants are the correctly rounded multiples of pi, and none of these values ever changes while a program runs.",
["histories","inputs","configurations"],"all constants, in several translation units, before main and after arbitrary workloads; all entity values for the neutral and absorbing laws",
"Tests check them once, in main, in one translation unit.",
["include/g3const.hpp","include/g3type.hpp"],[("namespace-scope constants, zero<>, one<>","include/g3const.hpp")],["values of the constants and their products"])
p("C26","Every build configuration and inclusion style behaves the same",
"With any supported compiler (gcc, clang), C++17 or later standard, optimisation level, and with or without NDEBUG, a program using the library compiles and satisfies the same properties, whether it includes engabra.hpp or exactly the public headers it needs in any order, in one or several translation units; names the program itself uses outside namespace engabra, and its own types, operators and arithmetic, are unaffected by including them. projectVersion() and sourceIdentity() return the same text on every call, the version being the one the project declares.",
["configurations","programs"],"gcc and clang, C++17/20/23, -O0/-O1/-O2/-O3, NDEBUG on and off, every single public header alone, several translation units linked together",
"Tests are built in one configuration with one compiler and always through the full set of headers.",
["include/engabra.hpp","include/g3publish.hpp","include/g3ops.hpp","src/engabra.cpp","CMakeLists.txt"],[("include guards, inline definitions, self-contained headers","include/*.hpp"),("projectVersion, sourceIdentity","src/engabra.cpp")],["outcome of the same monitored workload in every configuration"])
p("C27","Entities are plain values, however copied, stored, or used",
"Copying, moving, assigning (to itself too), swapping, passing, returning or storing any entity in arrays, containers or aggregates keeps every component bit for bit and touches no other object. Every operator and function gives the same bits whether its result is used at once, assigned to one of its own operands (x = x*y, y = x*y, x = x*x, x = exp(x)), or held by a name while the same function is called again, and one result never changes another. The traits of namespace is are true for exactly the types they name.",
["inputs","programs"],"all types, all operators and functions, all component bit patterns, some twenty ways of copying and three ways of using a result",
"Tests assign every result to a fresh variable; writing into a result while operands are still needed, or handing out shared storage, shows only when the result replaces an operand or outlives another call.",
["include/g3type.hpp","include/g3traits.hpp","include/g3_private.hpp","include/g3func.hpp","include/g3opsUni.hpp"],[("value types over std::array, functions returning by value","include/g3type.hpp, include/g3_private.hpp, include/g3func.hpp"),("is:: traits","include/g3traits.hpp")],["components of the copy, of the assigned operand, of held results"])
p("C28","Constructions built from the operators give the classical vector geometry",
"For all vectors a, b, c of moderate size, a*b holds a.b and (through the dual) the cross product, the trivector part of a*b*c is their determinant, and |a*b|=|a||b|. Projections and rejections written with products and inverse, reflections -n*v*n, two reflections as a rotation by twice the angle, division (a*b)*inverse(b)=a and ratios of volumes that solve for components along three directions all equal the classical formulas to rounding. The rotor sqrtG2 of the product of two directions turns the first into the second, logG2 of that product has their angle and plane, and a fraction of it turns that part of the way.",
["inputs","programs"],"all vectors and planes with components zero or 1e-40..1e40 (1e-20..1e20 for directions), including parallel, orthogonal, coplanar and equal ones",
"Tests check single functions on sample values; constructions chain several functions over several types, and their failures lie in special positions (parallel, orthogonal, axis aligned, nearly opposite) that few samples hit.",
["include/g3opsMul_Vector.hpp","include/g3opsMul_BiVector.hpp","include/g3opsMul_TriVector.hpp","include/g3opsMul_Spinor.hpp","include/g3opsMul_ImSpin.hpp","include/g3func.hpp","include/g3opsUni.hpp"],[("operator*, inverse, direction, dual, reverse, sqrtG2, logG2, exp used together","include/g3opsMul_*.hpp, include/g3func.hpp, include/g3opsUni.hpp")],["values of the constructions compared with vector formulas in long double"])
p("C29","Nothing depends on the choice of axes, handedness or unit of length",
"For every operator and function f of the library and every change of axes Q (rotation, permutation or mirroring of the axes), f of the operands seen in the new axes equals f of the operands, seen in the new axes (dual changing sign with the handedness), up to rounding and the conditioning of f. Multiplying the operands by a positive unit k multiplies the result by k to the degree of f (products, sq, magSq and ampSq two, sums, involutions, magnitude and amplitude one, cube three, direction zero, inverse minus one; sqrtG2 one half, logG2 adds ln k to the scalar part).",
["inputs"],"all operators and functions, all 48 signed permutations and random rotations and mirrorings, units 2^-60..2^60; components zero or 1e-30..1e30 (exp up to 3, log and root 1e-12..1e10), away from singular inverses and the cut of the logarithm",
"Tests use fixed components along fixed axes in fixed units; a slip in one component, or a threshold in absolute units, breaks the symmetry only for some placements and scales.",
["include/g3_private.hpp","include/g3func.hpp","include/g3opsUni.hpp"]+MUL[:-1]+ADD+SUB,[("component formulas of every operator and function","include/g3_private.hpp, include/g3ops*.hpp, include/g3func.hpp")],["results for original and transformed operands"])
p("C30","A value and its promotion to MultiVector are interchangeable",
"For every type T and value x, every function defined for both T and MultiVector gives the same on x and on MultiVector(x): involutions and dual exactly, magSq, magnitude, direction, ampSq, amplitude (up to the sign at the cut of the root), inverse, exp, sq and cube to rounding, isValid and operator== exactly, nearlyEquals the same decision. For every pair of types the product equals the product of the promoted values to rounding (exactly when exactly representable) and each supported sum equals the sum of the promoted values exactly.",
["inputs"],"all types and pairs; components zero or 1e-60..1e60 (products and comparisons 1e-100..1e100, exp up to size 28, comparisons also invalid components)",
"Each type has its own overload of each function; tests check overloads on separate examples, never that two overloads agree on the same value.",
["include/g3func.hpp","include/g3opsUni.hpp","include/g3compare.hpp","include/g3validity.hpp","include/g3type.hpp"]+MUL+ADD,[("one overload per type of each function; explicit MultiVector constructors","include/g3func.hpp, include/g3opsUni.hpp, include/g3compare.hpp, include/g3validity.hpp, include/g3type.hpp")],["results for the value and for its promotion"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s)
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],n)
print(len(P))
