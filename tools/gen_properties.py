#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = state
    P.append(d)
F, G, R, H, M = "float/float.go", "gadget/gadget.go", "gadget/rangecheck.go", "hint/hint.go", "math/math.go"
L3, L6, U, X = "loc2index32/loc2index32.go", "loc2index64/loc2index64.go", "util/util.go", "proximity/proximity.go"
SAMPLED = "The repository's tests run fixed vector files for binary32/binary64 (about 1 row in 100 of them); "

p("C01", "Allocating a float decodes every bit pattern to its exact value",
  "For every bit pattern of a supported format, allocating it in a circuit succeeds with the honest prover and yields exactly the sign, scale, significand and NaN/infinity flag of the IEEE-754 value it encodes: zeros of both signs, subnormals in normalised form, infinities, and one uniform representation for all NaNs.",
  ["inputs", "configurations"], "all bit patterns of the format, all supported exponent/mantissa widths, all range-table widths",
  SAMPLED + "they never visit other formats and cannot enumerate encodings.",
  [F, H, U], [("allocation from an encoded value", "float.Context.NewFloat"), ("decode and normalise hints", "hint.DecodeFloatHint, hint.NormalizeHint")], ["components of the allocated number"])
p("C02", "A prover cannot allocate an encoded float as a different number",
  "Whatever values a dishonest prover supplies for the auxiliary wires, an encoded value has at most one accepted decoding, the IEEE-754 one, and a field element that is not an encoding of the format has none.",
  ["inputs", "fault_sequences"], "all assignments a malicious prover may choose for hinted wires, over all encodings and over field elements outside the encoding range",
  "Tests only run the honest prover; a missing or weakened range constraint is invisible to them.",
  [F, G, R], [("bit-length checks on the decoded fields", "float.Context.NewFloat"), ("range checks", "gadget.CommitChecker.commit")], ["satisfiability of the emitted constraints"])
p("C03", "Compile-time constants equal the same value allocated at proving time",
  "A constant built from a bit pattern or from a machine float denotes the same number, with the same representation, as the same bit pattern allocated from a witness, for every bit pattern including NaNs, infinities, subnormals and signed zeros.",
  ["inputs", "configurations"], "all bit patterns of every supported format; lattices of binary32/binary64 patterns",
  SAMPLED + "the constant tests sample 1 row in 100.", [F, U], [("constant construction", "float.Context.NewConstant/NewF32Constant/NewF64Constant"), ("component computation", "util.ComponentsOf")])
p("C04", "Addition and subtraction are IEEE-754 correctly rounded",
  "For all operands of a supported format the honest prover can prove a sum or difference, and it is the round-to-nearest-even IEEE-754 result, including signed zeros, subnormals, overflow to infinity and NaN/infinity rules.",
  ["inputs", "configurations"], "all ordered operand pairs of small formats, boundary lattices of binary32/binary64 pairs",
  SAMPLED + "a pair space of 2^64 or 2^128 cannot be tested; alignment, cancellation and carry corners depend on joint operand shapes.",
  [F, H, G], [("aligned addition and normalisation", "float.Context.Add"), ("rounding", "float.Context.round"), ("overflow handling", "float.Context.fixOverflow")])
p("C05", "Multiplication is IEEE-754 correctly rounded",
  "For all operands of a supported format the honest prover can prove a product, and it is the round-to-nearest-even IEEE-754 result, including gradual underflow, overflow to infinity, signed zeros and NaN/infinity rules.",
  ["inputs", "configurations"], "all ordered operand pairs of small formats, boundary lattices of binary32/binary64 pairs",
  SAMPLED + "underflow ties and double-rounding corners depend on joint operand shapes.", [F, H, G], [("product, normalisation, subnormal shift", "float.Context.Mul"), ("rounding", "float.Context.round")])
p("C06", "Division is IEEE-754 correctly rounded",
  "For all operands of a supported format the honest prover can prove a quotient, and it is the round-to-nearest-even IEEE-754 result, including division by zero, by infinity, of infinities, gradual underflow and overflow.",
  ["inputs", "configurations"], "all ordered operand pairs of small formats, boundary lattices of binary32/binary64 pairs",
  SAMPLED + "sticky-bit and underflow corners depend on joint operand shapes.", [F, H, G], [("quotient and remainder", "float.Context.Div"), ("rounding", "float.Context.round")])
p("C07", "Square root is IEEE-754 correctly rounded",
  "For every operand of a supported format the honest prover can prove a square root, and it is the round-to-nearest-even IEEE-754 result: signed zero preserved, NaN for negative numbers, infinity for infinity, exact for subnormals.",
  ["inputs", "configurations"], "all operands of small and 16-bit formats, boundary lattices of binary32/binary64",
  SAMPLED + "the mantissa width used is marked in the source as found empirically.", [F, H, G], [("integer square root with remainder bounds", "float.Context.Sqrt")])
p("C08", "Comparisons follow IEEE-754 ordering",
  "Less, less-or-equal, greater and greater-or-equal return exactly the IEEE-754 truth value for every operand pair: unordered with NaN, signed zeros equal, infinities at the ends, subnormals ordered correctly.",
  ["inputs", "configurations"], "all ordered operand pairs of small formats, boundary lattices of binary32/binary64 pairs",
  SAMPLED + "the greater/greater-or-equal tests look for data files that do not exist and check nothing.", [F, G], [("ordering circuit", "float.Context.less and IsLt/IsLe/IsGt/IsGe")])
p("C09", "Truncate, floor and ceiling are exact for every value",
  "Truncation, floor and ceiling return the exact integer-valued result for every finite operand (signed zero preserved, negative fractions rounding to minus one or minus zero as appropriate) and pass NaN and infinities through, and are always provable.",
  ["inputs", "configurations"], "all operands of small and 16-bit formats, boundary lattices of binary32/binary64",
  SAMPLED + "carry into a new binade happens only for particular exponent/mantissa combinations.", [F, H, G], [("rounding to integers", "float.Context.Trunc/Floor/Ceil")])
p("C10", "Integer conversion returns the exact signed integer or is unprovable",
  "Converting an integer-valued number whose magnitude fits the supported width yields that integer (negative ones as field negatives); non-zero fractions of magnitude below one, NaN, infinities and values with too large an exponent cannot be proved at all. Converting a non-integer above one is outside the stated domain.",
  ["inputs", "configurations"], "all integer-valued operands of small formats, boundary lattices of binary32/binary64 with all exponents",
  "Tests convert a handful of values and never check that unsupported inputs are rejected.", [F, G], [("scaling by a looked-up power of two", "float.Context.ToInt")])
p("C11", "Absolute value, negation and selection are exact",
  "Absolute value clears only the sign, negation flips only the sign, and selection returns exactly one of its operands as directed, for every value including NaN, infinities and signed zeros, without altering their operands.",
  ["inputs", "configurations"], "all operand pairs of small formats, boundary lattices of binary32/binary64",
  SAMPLED + "selection has no test of its own.", [F], [("sign operations and select", "float.Context.Abs/Neg/Select")])
p("C12", "The equality assertion accepts exactly identical values",
  "Asserting equality of two numbers is provable exactly when they are bitwise the same number or both NaN; signed zeros, neighbours and NaN-versus-infinity are rejected.",
  ["inputs", "configurations"], "all ordered operand pairs of small formats, boundary lattices of binary32/binary64",
  "Tests only assert true equalities; an assertion weakened to accept unequal values passes them all.", [F], [("equality constraint", "float.Context.AssertIsEqual")])
p("C13", "The relaxed equality assertions accept exactly their stated tolerance",
  "The one-ULP assertion accepts identical values and neighbouring normal values of the same sign, also across a power of two, and never values further apart; the absolute-tolerance assertions accept exactly values of equal sign whose rounded difference does not exceed the tolerance, identical values, and pairs of NaN.",
  ["inputs", "configurations"], "all ordered operand pairs of small formats, boundary lattices and tolerance menus for binary32/binary64",
  "Tests only use these assertions on values that should pass.", [F], [("ULP comparison", "float.Context.AssertIsEqualOrULP"), ("tolerance comparison", "float.Context.AssertIsEqualOrCustomULP32/64")])
p("C14", "A prover cannot forge a sum or difference",
  "Whatever auxiliary values a dishonest prover supplies, an addition or subtraction of two well-formed numbers can only be proved with its IEEE-754 result, including the sign of an exact zero.",
  ["inputs", "fault_sequences"], "all prover choices for hinted wires, over all operand pairs of small formats and boundary lattices of binary32/binary64, for every range-table width",
  "Tests only run the honest prover; under-constrained wires never show.", [F, G, R], [("sign, normalisation and rounding constraints", "float.Context.Add"), ("range and power lookups", "gadget.IntGadget")])
p("C15", "A prover cannot forge a product, quotient or square root",
  "Whatever auxiliary values a dishonest prover supplies, a multiplication, division or square root of well-formed numbers can only be proved with its IEEE-754 result.",
  ["inputs", "fault_sequences"], "all prover choices for hinted wires, over all operands of small formats and boundary lattices of binary32/binary64, for every range-table width",
  "Tests only run the honest prover; under-constrained wires never show.", [F, G, R], [("remainder, msb, parity and rounding constraints", "float.Context.Mul/Div/Sqrt"), ("range and power lookups", "gadget.IntGadget")])
p("C16", "A prover cannot forge a comparison or satisfy a false equality",
  "Whatever auxiliary values a dishonest prover supplies, comparisons of well-formed numbers have only their IEEE-754 outcome, and the strict, one-ULP and tolerance assertions cannot be satisfied by values that violate them.",
  ["inputs", "fault_sequences"], "all prover choices for hinted wires, over all operand pairs of small formats and lattices of binary32/binary64",
  "Tests only run the honest prover.", [F, G], [("sign tests", "gadget.IntGadget.IsPositive"), ("ordering and equality", "float.Context.less, AssertIsEqual*")])
p("C17", "A prover cannot forge a rounding to integer or an integer conversion",
  "Whatever auxiliary values a dishonest prover supplies, truncation, floor, ceiling and integer conversion of well-formed numbers can only be proved with the exact result.",
  ["inputs", "fault_sequences"], "all prover choices for hinted wires, over all operands of small formats and lattices of binary32/binary64",
  "Tests only run the honest prover.", [F, G], [("quotient/remainder constraints", "float.Context.Trunc/Floor/ToInt")])
p("C18", "Range checks accept exactly the promised interval",
  "A bit-length check accepts every value below two to the length; in the tight modes it rejects every other field element of its promised domain, and in the loose mode it never accepts a value beyond the length rounded up to whole table limbs, for every length, table width, mix of checks in one circuit, curve and proof backend.",
  ["inputs", "configurations", "fault_sequences"], "all widths up to the bound, all table widths including automatic choice, all mode combinations, all limb decompositions a prover may supply",
  "gadget has no tests; through float only the honest prover and the automatic width are exercised.", [R, G], [("limb decomposition and table lookup", "gadget.CommitChecker.commit"), ("automatic width", "optimalWidth")])
p("C19", "Integer absolute value, sign, maximum and minimum are exact and unforgeable",
  "For every pair of integers within the stated bit length the absolute value, sign test, maximum, minimum and equality gadgets return the exact result, zero counting as positive, no other result can be proved, and differences beyond the padded length are rejected.",
  ["inputs", "fault_sequences", "configurations"], "all pairs in bounded ranges, all lengths and table widths, all prover choices",
  "gadget has no tests; only the honest prover is ever run.", [G, H], [("signed absolute value", "gadget.IntGadget.Abs/IsPositive/Max/Min/IsEq")])
p("C20", "Power-of-two lookups return exactly the requested power or fail",
  "A power-of-two lookup with a small integer exponent inside the table returns exactly that power, no other value can be proved for it, and a small integer exponent (of either sign) outside the table makes the circuit unprovable, for every table size, table width and number of lookups including none.",
  ["inputs", "fault_sequences", "configurations"], "all table sizes and widths up to the bound, all exponents in and around the table, all prover choices, zero to several lookups",
  "gadget has no tests; only the honest prover is ever run.", [G, H], [("packed exponent/power table", "gadget.IntGadget.QueryPowerOf2, gadget.PowersOfTwo.commit")])
p("C21", "Results do not depend on curve, proof system or range-table width",
  "The same float program on the same inputs has the same outcome, value or rejection, on every supported curve field, in both proof-system arithmetisations, for every range-table width including the automatic one, and under real constraint solvers.",
  ["configurations", "inputs"], "the product of curve fields, arithmetisations and table widths, over a program and operand menu",
  "Tests use one curve and one table-width setting.", [F, G, R, H], [("context parameters", "float.NewContext"), ("width choice per arithmetisation", "gadget.CommitChecker.getOptimalBasewidth")])
p("C22", "Chained operations stay well-formed and exact at every step",
  "Every result of a float operation is again a canonical number usable as an operand, so any sequence of operations in one circuit is provable and agrees with the same sequence of IEEE-754 operations at every step.",
  ["histories", "inputs"], "all operation sequences up to the depth over a seed set of values, with breadth-first closure over reachable values in small formats",
  "Tests apply one operation per circuit, always to freshly allocated operands.", [F, G], [("canonical component form of results", "float.FloatVar"), ("shared lookup tables across operations", "gadget.New")])
p("C23", "Operations neither alter operands nor interfere across contexts",
  "Operand numbers, shared limits and constants are unchanged by any operation, several contexts of different formats can coexist in one circuit, and the order in which independent operations are declared does not change any result.",
  ["histories", "configurations"], "all interleavings of operation sequences on one or two contexts up to the depth",
  "No test creates two contexts or reuses operands across operations in varying orders.", [F, G], [("context limits held as shared big integers", "float.Context"), ("deferred table commits", "gadget.NewCommitRangechecker")])
p("C24", "Hint functions are pure and safe to run concurrently",
  "Every hint computes the same outputs from the same inputs whatever the outputs held before, never modifies its inputs or the field modulus, leaks no state between calls, and gives the same answers when calls run concurrently under any schedule.",
  ["schedules", "inputs", "histories"], "all interleavings of two hint calls up to two preemptions, at statement granularity, and all ordered call pairs over an input menu",
  "The solver calls hints from parallel workers, but tests cannot enumerate schedules and compare only final proofs.", [H, R], [("hint bodies", "hint package and gadget.DecomposeHint")])
p("C25", "Polynomial evaluation follows its declared coefficient order and rounding",
  "Both evaluators return the Horner result with one IEEE-754 rounding per multiplication and addition, in their documented coefficient orders, for every coefficient vector and point, and leave the coefficients reusable.",
  ["inputs", "histories"], "all coefficient vectors up to a degree over a value menu times all points of the menu",
  "One polynomial and one point are tested, and that test fails at the pinned commit.", [M], [("Horner schemes", "math.Polynomial.Eval/EvalK")])
p("C26", "Arctangent is accurate and odd over its whole domain",
  "The single and double precision arctangents are odd, bounded by a quarter turn and within their approximation error of the true value, for arguments on both sides of one and across all magnitudes.",
  ["inputs"], "lattices of arguments over all exponents with dense grids on each side of the reduction boundary, both signs",
  "The data files sample the domain, and several hundred of their rows fail, so a regression hides among them.", [M], [("range reduction and minimax polynomial", "math.AtanRemez32/AtanRemez64")])
p("C27", "Two-argument arctangent lands in the right quadrant",
  "For every finite non-zero pair the two-argument arctangent is within its approximation error of the true angle, with the sign and quadrant determined by the signs of both arguments.",
  ["inputs"], "the product of sign and magnitude lattices of both arguments",
  "No reliable test covers all four quadrants.", [M], [("quadrant correction", "math.Atan2")])
p("C28", "Sine is accurate over zero to a half turn and odd in its sign",
  "The single and double precision sines are within their approximation error of the true value on the supported interval, symmetric about a quarter turn, and carry the argument's sign.",
  ["inputs"], "dense grids and boundary points of the supported interval, both signs",
  "Most rows of the corresponding test fail at the pinned commit, so a regression hides among them.", [M], [("folded Taylor series", "math.SinTaylor32/SinTaylor64")])
p("C29", "Hexagon coordinates are normalised exactly as H3 does",
  "Normalising any signed coordinate triple within the supported range yields the unique equivalent triple of non-negative coordinates with at least one zero, in both precision variants, and no other triple can be proved.",
  ["inputs", "fault_sequences"], "all signed triples in a cube, large-magnitude lattices, and all prover choices",
  "The repository's tests reach this only through a few hundred whole locations.", [L3, L6], [("normalisation", "loc2index32/loc2index64.NormalizeIJK")])
p("C30", "Plane points map to the hexagon that contains them",
  "Every point of the projection plane maps to the coordinates of the hexagon whose centre is nearest to it, as H3 does, in all four quadrants and on both precision variants, apart from points within rounding distance of a hexagon edge.",
  ["inputs"], "grids of plane points covering every branch region in several hexagons and all quadrants, and at large distances",
  "The tests reach this only through whole locations whose branch coverage is incidental.", [L3, L6], [("plane to axial conversion", "loc2index32/loc2index64.hex2dToCoordIJK")])
p("C31", "Every point on the sphere is assigned the nearest icosahedron face",
  "For every point of the sphere the face constants selected are those of the face whose centre is nearest, with its squared distance, for all twenty faces, apart from points equidistant within rounding.",
  ["inputs"], "grids over the sphere, every face centre and neighbourhoods of face boundaries",
  "The tests sample locations and do not observe the selected face.", [L3, L6, U], [("running minimum over faces", "closestFaceCalculations")])
p("C32", "Projected radius and resolution scale are accurate at all resolutions",
  "The projected radius equals the gnomonic radius in hexagon units within rounding error for every reachable squared distance and each of the sixteen resolutions, and resolutions beyond the supported width are rejected.",
  ["inputs", "configurations"], "grids of squared distances times all resolutions 0 to 15, and out-of-range resolutions",
  "The tests use few resolutions and observe only the final cell.", [L3, L6, U], [("radius and scale", "calculateR, scaleR")])
p("C33", "Planar coordinates have the right azimuth on every face",
  "The planar coordinates of a point have the given radius and the azimuth H3 prescribes for its face and resolution class, for every face, direction and resolution parity.",
  ["inputs", "configurations"], "grids of directions and distances around each of the twenty faces times both resolution classes",
  "The tests observe only the final cell, for locations that miss most faces.", [L3, L6, U], [("azimuth rotation", "calculateHex2d"), ("per-face azimuth tables", "util.Azimuth, util.Azimuth_32")])
p("C34", "A location is indexed to the same hexagon as H3",
  "For every latitude, longitude and resolution the composed pipeline yields the face-local hexagon coordinates that H3 computes, apart from points within the precision's rounding distance of a hexagon or face boundary.",
  ["inputs", "configurations"], "grid over the globe including all faces, times resolutions supported by the precision",
  "loc2index64 has no working test here; loc2index32's vectors sample a few hundred locations.", [L3, L6, M, U], [("pipeline stages", "loc2index32, loc2index64")])
p("C35", "A prover cannot steer any stage of the location pipeline",
  "Given its inputs, each stage of the location pipeline (radius, face choice, planar coordinates, hexagon lookup, normalisation) has exactly one provable output, whatever auxiliary values a dishonest prover supplies.",
  ["inputs", "fault_sequences"], "all prover choices at every hinted wire of each stage, over a menu of inputs covering each branch",
  "Tests only run the honest prover.", [L3, L6, F, G], [("composition of constrained operations", "loc2index32, loc2index64")])
p("C36", "Half-angle helper values are mutually consistent and accurate",
  "For every representable angle the helper hint returns, in canonical form and in this order, the tangent of the half angle, the sine of the angle, and the sine and cosine of the half angle, each accurate to a few roundings of its precision and with the right sign; for an angle that is not finite it returns NaNs.",
  ["inputs"], "lattices of angles over the full range in both precisions, including signed zero and range ends",
  "Only used inside whole-location tests at a few hundred points.", [H, U], [("trigonometric precomputation", "hint.PrecomputeHint32/64")])
p("C37", "Encoding to components and back is lossless",
  "Splitting an encoded number into components and reassembling it returns the original bits for every non-NaN pattern and a NaN for every NaN, and components that contradict each other (abnormal flag against exponent, zero against exponent, bits below the smallest subnormal) are refused rather than encoded.",
  ["inputs", "configurations"], "all patterns of small and 16-bit formats, binary32/binary64 lattices, all component tuples around validity in small formats",
  "Used as the oracle by other tests but not itself tested.", [U], [("component codec", "util.ComponentsOf/ValueOf and typed wrappers")])
p("C38", "Embedded geometry tables are consistent with the icosahedron",
  "The face centre, trigonometric, azimuth and scale tables of both precisions agree with each other, with an exact icosahedron in H3's orientation and with the H3 library's own constants, each single precision entry being its double precision value rounded.",
  ["inputs"], "every entry of every table and every pair of faces",
  "Nothing checks the tables; an error in one entry moves only locations near that face.", [U], [("constant tables", "util tables")])
p("C39", "Outputs of the external H3 tools are parsed faithfully or refused",
  "Whatever an external H3 tool prints or however it fails (cell and centre tools of any text, boundary tool of fixed-point decimals), its runner either returns exactly the numbers printed, with their signs, or reports an error; it is given exactly the location and resolution asked for.",
  ["fault_sequences", "inputs"], "all tool behaviours of a menu (missing, failing, empty, malformed, well-formed outputs of every sign) times input menus",
  "The tools are not installed here, so the two existing tests cannot even run.", [U, X], [("tool runners", "util.ExecuteLatLngToIJK, proximity executors")])
p("C40", "Textual encodings decode to exactly their bits",
  "Hexadecimal float text decodes to exactly the number with those bits or is refused when malformed or too wide, byte strings decode to their bytes in order, and unit conversions are exact to rounding.",
  ["inputs"], "all strings up to a length over a small alphabet plus boundary strings",
  "These helpers have no tests.", [U, X], [("text decoding", "util.HexToFloat/HexToFloat32/StrToIntSlice/ScaledIntToFloat64/RadiansToDegrees")])
p("C41", "Benchmark files hold one header and one row per verified proof",
  "Across any history of benchmark runs on a file, of either proof system and whether or not single runs fail, the file holds its header exactly once, keeps earlier rows, gains exactly one well-formed row, its fields in the order the header names, per run whose proof verified, and a failing run reports its error and adds no row.",
  ["histories", "fault_sequences"], "all run histories up to the depth over runs that succeed, runs with false witnesses, and unwritable files",
  "The benchmark helpers are never called by a passing test.", [U], [("record files", "util.BenchProofToFileGroth16/Plonk, BenchProofMemory*")])
p("C42", "Distances and cell files of the proximity tool are exact",
  "The great-circle distance is symmetric, zero for equal points and within rounding of the haversine formula, and a written cell file holds one line per cell whose hexadecimal fields decode to the cell's centre in the chosen precision, replacing earlier content; a file that could not be written completely is reported.",
  ["inputs", "histories"], "grids of coordinate pairs and all short histories of cell lists and precisions",
  "proximity has no tests.", [X], [("haversine and cell writer", "proximity")])

p("C43", "A prover cannot steer the elementary functions",
  "Given its arguments, each elementary function (polynomial evaluation, arctangent, two-argument arctangent, sine) has exactly one provable output, whatever auxiliary values a dishonest prover supplies.",
  ["inputs", "fault_sequences"], "argument lattices including infinities and NaN, and for each argument all assignments of the prover-chosen wires",
  "Tests only run the honest prover.", [M, F, G], [("composition of constrained operations", "math/math.go")])

p("C44", "Local coordinates of a location are those of its hexagon",
  "For every location, resolution and origin for which H3 defines local coordinates, the local IJ helper gives all locations of one hexagon the same coordinates, different hexagons different ones, and hexagonal grid distances from the origin that equal H3's.",
  ["inputs", "configurations"], "all cells of the disk around each origin of a menu times all sixteen resolutions, several locations in each cell",
  "The one existing test prints the coordinates of one location and checks nothing.", [U], [("local coordinates", "util.LatLngToIJ")])

p("C45", "The proximity program reports the distance to the nearest vertex or an error",
  "The proximity program asks for the cell of the prover's location at its resolution, then for the boundary of exactly that cell, and prints the great-circle distance in kilometres, to two decimals, from the verifier's location to the nearest of the vertices the boundary tool printed; if a tool fails at any of its calls, no cell index or no vertex is printed, it reports an error and prints no distance.",
  ["inputs", "fault_sequences"], "all lists of up to three vertices from a menu, longer cells in every rotation, every kind of failure of either tool at every one of its calls",
  "proximity has no tests and the tools are not installed.", [X], [("closest-distance program", "proximity.main")])

p("C46", "Announced lookup costs equal what the built circuit contains",
  "With an explicit range-table width and both tables in use, the lookup constraints of the built R1CS circuit number exactly the announced entry, query and finalisation costs, for every sequence of bit-length checks, power-of-two lookups, integer gadget calls and float operations.",
  ["inputs", "configurations", "histories"], "all sequences of calls up to a depth over lengths, modes, table widths and power-table sizes; pairs of float operations of three formats",
  "The one test that reads the counters prints them and compares them with nothing.", [G, R], [("cost counters", "gadget.IntGadget.LookupEntryConstraints/LookupQueryConstraints/LookupFinalizeConstraints, AssertBitLength, QueryPowerOf2")])

p("C47", "The same circuit code always builds the same circuit",
  "Building a circuit from this library yields the same constraint system every time, in both proof-system arithmetisations: whatever circuits were built or proved before in the process, and whatever other circuit is being built concurrently, so that keys made from one build fit the proofs of another.",
  ["schedules", "histories"], "all histories of two builds (three over a smaller menu) in fresh processes, all statement-level schedules of two builds with one preemption and, for small ones, two",
  "Tests build each circuit once, one at a time, and never compare two builds.", [F, G, R, M], [("context, gadget and table construction", "float.NewContext, gadget.New, NewPowersOfTwoTable, NewCommitRangechecker, commit")])

p("C48", "The published results table shows every recorded test outcome",
  "For every combination of outcomes recorded in the four test-run logs it reads, the table script prints for each resolution from one to fifteen and each of its nine test cases a cell that is red exactly if that run's case failed, at whichever level of its subtests.",
  ["histories"], "all outcome patterns of the nine cases of a resolution in every run and resolution, every single failure, every kind of failure next to every other",
  "No test runs the scripts; the committed logs hold only a few of the possible outcomes.", ["scripts/generate_latex_table_tests.py"], [("log reader and table writer", "read_test_results, read_test_results_P6, generate_latex_table")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for d in P: fh.write(json.dumps(d) + "\n")
print(len(P), "properties")
