prop("C01", "count-exact", "count answers the exact number of lattice points",
     "For every rational polytope given in any accepted input format (LattE H-representation with or without nonnegativity "
     "and linearity keywords or CDD H-representation, with integer or rational rows, V-representation of a full-dimensional "
     "polytope), `count` exits 0 and reports exactly the number of integer points of the polytope, in its output and in the "
     "file numOfLatticePoints. The answer does not depend on the input format, on redundant rows, on row order or scaling, on equations that "
     "are only implied, or on the size of the coefficients.",
     "every bounded rational polyhedron, of any dimension of its affine hull, in every accepted input representation",
     "The existing tests run some 600 fixed files; the claim is about every polytope and every way of writing it.",
     [L + "count.cpp", L + "ReadPolyhedron.cpp", L + "ReadLatteStyle.cpp", L + "preprocess.cpp", L + "vertices/cdd.cpp",
      L + "dual.cpp", L + "barvinok/barvinok.cpp", L + "latte_ntl.cpp", L + "genFunction/IntCombEnum.cpp",
      L + "CheckEmpty.cpp", L + "latte_ntl.cpp"],
     [("vertex cones, dualisation, signed decomposition into unimodular cones, residue computation", L + "barvinok"),
      ("reading and preprocessing of inputs (equations, redundancy, emptiness)", L + "preprocess.cpp")],
     ["standard output and numOfLatticePoints of count"],
     "sanitizer-instrumented execution of count on generated polytopes, monitored against a lattice point enumeration",
     COMMON_NOTE + SAN + "Polytopes of dimension 1-5 with up to 40000 points in their box.")

prop("C02", "count-algorithms", "All documented algorithms and engines of count agree",
     "The documented choices of `count` are choices of method only: decomposition in the primal or dual space, irrational or "
     "not, all-primal, exponential or polynomial specialisation, the maximal determinant, every triangulation, dualisation and "
     "vertex-cone engine, homogenisation, smith form and redundancy checks. With each of them, and with their combinations, "
     "`count` reports the same, exact number of lattice points.",
     "every rational polytope and every documented combination of method options",
     "The tests run a fixed list of flavours on fixed files; combinations and unusual polytopes (lower-dimensional, "
     "non-simple, non-integral vertices) are never met.",
     [L + "count.cpp", L + "barvinok/dec.cpp", L + "barvinok/barvinok.cpp", L + "triangulation/triangulate.cpp", L + "dual.cpp",
      L + "Irrational.cpp", L + "ExponentialSubst.cpp", L + "RudyResNTL.cpp",
      L + "triangulation/TriangulationWithTOPCOM.cpp", L + "triangulation/RegularTriangulation.cpp", L + "convert.cpp"],
     [("irrational primal decomposition", L + "Irrational.cpp"),
      ("exponential substitution", L + "ExponentialSubst.cpp"), ("residue substitution", L + "Residue.cpp")],
     ["numOfLatticePoints of count under each option"],
     "sanitizer-instrumented differential execution across method options, monitored against lattice point enumeration",
     COMMON_NOTE + SAN)

prop("C03", "count-large", "Counts beyond machine words and with huge coefficients are exact",
     "`count` computes in exact arithmetic throughout: for polytopes with coefficients, vertices or counts far beyond 64 bits the "
     "reported number of lattice points is still exact, whatever documented method is chosen.",
     "polytopes of arbitrary size; the count has no bound",
     "Enumeration is impossible at this size and the tests hold a few such files; overflow or truncation anywhere in the pipeline shows only there.",
     [L + "count.cpp", L + "barvinok/barvinok.cpp", L + "RudyResNTL.cpp", L + "genFunction/IntCombEnum.cpp", L + "ExponentialSubst.cpp",
      L + "ReadPolyhedron.cpp"],
     [("arbitrary precision integers and rationals in every step", L + "latte_ntl.h")],
     ["numOfLatticePoints of count"],
     "sanitizer-instrumented execution monitored against closed-form counts",
     COMMON_NOTE + SAN + "Families with closed-form counts (boxes, simplices, chains, cross-polytopes, products, transportation, "
     "triangles by floor sums, denumerants).")

prop("C04", "dilation", "count --dilation=t counts the lattice points of the t-th dilate",
     "For every rational polytope P and positive integer t, `count --dilation=t` reports exactly the number of integer points of tP, "
     "also for polytopes with equations, with non-integral vertices, and when P itself has no lattice point.",
     "every rational polytope and dilation factor below 2^31, in H-representation",
     "Two or three of the existing tests dilate anything.",
     [L + "count.cpp", L + "preprocess.cpp", L + "ReadPolyhedron.cpp", L + "vertices/cdd.cpp"],
     [("dilation of right-hand sides or of vertex cones", L + "ReadPolyhedron.cpp")],
     ["numOfLatticePoints of count --dilation"],
     "sanitizer-instrumented execution monitored against enumeration of the dilate",
     COMMON_NOTE + SAN)

prop("C05", "ehrhart-polynomial", "count --ehrhart-polynomial prints the Ehrhart polynomial",
     "For every integral polytope of dimension at least 1, `count --ehrhart-polynomial` prints a polynomial whose value at every non-negative "
     "integer t is the number of lattice points of the t-th dilate. For a polytope with a non-integral vertex it says so and "
     "prints no polynomial.",
     "every integral polytope, every dilate, every documented method option",
     "A polynomial is a claim about all dilates; no existing test reads an Ehrhart polynomial.",
     [L + "count.cpp", L + "ehrhart.cpp", L + "ExponentialEhrhart.cpp", L + "ExponentialSubst.cpp", L + "Residue.cpp"],
     [("weights of the exponential specialisation as a polynomial in t", L + "ExponentialEhrhart.cpp")],
     ["standard output of count --ehrhart-polynomial"],
     "sanitizer-instrumented execution; the printed polynomial is evaluated and monitored against enumerated dilates",
     COMMON_NOTE + SAN)

prop("C06", "ehrhart-series", "Ehrhart series and Taylor coefficients are those of the dilates",
     "For every rational polytope of dimension at least 1, the rational function printed by `count --ehrhart-series` has as its power "
     "series coefficients the numbers of lattice points of the dilates 0, 1, 2, ..., and `count --ehrhart-taylor=N` prints exactly the first N+1 of them. "
     "The terms which `count --simplified-ehrhart-series` hands to Maple sum to the same function, and the older program `ehrhart` gives the same answers.",
     "every rational polytope and every N; default and documented method options",
     "A series is a claim about all dilates; no existing test reads one.",
     [L + "count.cpp", L + "rational.cpp", L + "RudyResNTL.cpp", L + "genFunction/maple.cpp", L + "preprocess.cpp", L + "ehrhart.cpp"],
     [("cone over the polytope, its generating function specialised in all but the last variable", L + "count.cpp")],
     ["the .rat file and standard output of count --ehrhart-series / --ehrhart-taylor"],
     "sanitizer-instrumented execution; the printed rational function is expanded and monitored against enumerated dilates",
     COMMON_NOTE + SAN + "One known finding: no result when the affine hull has no lattice point.")

prop("C07", "generating-function", "The multivariate generating function enumerates the lattice points",
     "For every rational polytope, and every pointed rational polyhedron, the file written by `count --multivariate-generating-function` is "
     "a sum of rational functions equal to the sum of x^a over the lattice points a. This holds for unimodular and for non-unimodular "
     "decompositions (--maxdet, --no-decomposition), in the dual and the primal mode.",
     "every pointed rational polyhedron with or without equations, every documented decomposition option",
     "No existing test reads a generating function.",
     [L + "count.cpp", L + "genFunction/maple.cpp", L + "genFunction/piped.cpp", L + "RudyResNTL.cpp", L + "print.cpp",
      L + "preprocess.cpp"],
     [("one term per cone, sign times sum over parallelepiped points divided by product of (1 - ray)", L + "genFunction/maple.cpp")],
     ["the .rat file of count --multivariate-generating-function"],
     "sanitizer-instrumented execution; the written function is evaluated exactly at rational points (Laurent limit at poles) and monitored against enumeration",
     COMMON_NOTE + SAN)

prop("C08", "volume", "integrate --valuation=volume is the exact volume",
     "For every full-dimensional rational polytope, `integrate --valuation=volume` prints the exact rational volume and a decimal "
     "expansion that agrees with it, whichever documented method (triangulation, cone decomposition) is chosen and however the polytope is written.",
     "every full-dimensional rational polytope in every accepted representation",
     "No existing test runs integrate.",
     [L + "valuation/valuation.cpp", L + "valuation/PolytopeValuation.cpp", L + "valuation/Perturbation.cpp",
      L + "valuation/valuation.h"],
     [("volume by triangulation of the cone over the polytope", L + "valuation/PolytopeValuation.cpp"),
      ("volume by cone decomposition with perturbation", L + "valuation/PolytopeValuation.cpp")],
     ["standard output of integrate --valuation=volume"],
     "sanitizer-instrumented execution monitored against an independent exact volume",
     COMMON_NOTE + SAN)

prop("C09", "integrate", "integrate --valuation=integrate is the exact integral",
     "For every full-dimensional rational polytope and every polynomial given as monomials, powers of linear forms or products of powers of linear "
     "forms with rational coefficients, `integrate --valuation=integrate` prints the exact rational value of the integral, whichever documented method is chosen.",
     "every full-dimensional polytope, every integrand in the three documented formats, every method",
     "No existing test runs integrate.",
     [L + "valuation/valuation.cpp", L + "valuation/PolytopeValuation.cpp", L + "valuation/Perturbation.cpp", L + "integration/PolyTrie.cpp", L + "integration/newIntegration.cpp",
      L + "integration/residue.cpp", L + "integration/multiply.h", L + "integration/GeneralMonomialSum.h"],
     [("decomposition of monomials into powers of linear forms", L + "integration/PolyTrie.cpp"),
      ("Lawrence / Brion formulas with residues for irregular linear forms", L + "valuation/PolytopeValuation.cpp")],
     ["standard output of integrate --valuation=integrate"],
     "sanitizer-instrumented execution monitored against exact integration over an independent triangulation",
     COMMON_NOTE + SAN)

prop("C10", "optimize", "latte-maximize and latte-minimize find the integer optimum",
     "For every rational polytope of positive dimension in LattE H-representation and every integer cost vector, `latte-maximize` and `latte-minimize` report the "
     "exact maximum or minimum of the cost function over the lattice points. The digging method also reports a lattice point of the polytope attaining it, and "
     "the vertex, value and gap of the linear relaxation; the binary search reports the number of lattice points attaining it. Without a lattice point no optimum is reported.",
     "every polytope and cost vector; digging and binary search",
     "No existing test runs either program.",
     [L + "maximize.cpp", L + "minimize.cpp", L + "binarySearchIP.cpp", L + "IntegralHull.cpp", L + "ConeInfo.cpp", L + "cone.cpp", L + "preprocess.cpp"],
     [("digging for the leading term of the generating function", L + "maximize.cpp"), ("binary search by counting", L + "binarySearchIP.cpp")],
     ["standard output of latte-maximize and latte-minimize"],
     "sanitizer-instrumented execution monitored against enumeration of the lattice points",
     COMMON_NOTE + SAN)

prop("C11", "knapsack", "top-ehrhart-knapsack prints coefficients of the Ehrhart quasi-polynomial",
     "For every list of positive integers with greatest common divisor 1, the coefficients printed by `top-ehrhart-knapsack` are, for every right-hand side "
     "t, those of the quasi-polynomial counting the non-negative integer solutions of a.x = t. All coefficients together give the number of solutions.",
     "every knapsack list, every coefficient index, every t",
     "No existing test runs the program; a quasi-polynomial is a claim about all t.",
     [L + "top-knapsack/TopKnapsack.cpp"],
     [("poset of greatest common divisors, residues of the poles", L + "top-knapsack")],
     ["output file of top-ehrhart-knapsack"],
     "sanitizer-instrumented execution; the printed step polynomials are evaluated and monitored against an exact denumerant",
     COMMON_NOTE + SAN)

prop("C12", "format-conversion", "Converters and readers keep the polyhedron they are given",
     "`latte2ine` and `latte2ext` write, in CDD format, exactly the rows and the linearity set of the LattE matrix they read, with nonnegativity keywords as rows, "
     "and `ConvertCDDineToLatte` writes a LattE file with exactly the rows and linearity set of the CDD file. `count` on the converted file "
     "answers what it answers on the original.",
     "every well-formed LattE or CDD matrix, of any size and any size of its entries",
     "No existing test runs the converters.",
     [L + "latte2ine.cpp", L + "latte2ext.cpp", L + "ReadLatteStyle.cpp", L + "convert.cpp", L + "convertCDD_ine_to_latte.cpp", L + "ReadPolyhedron.cpp"],
     [("reading and writing of matrices with linearity and nonnegativity", L + "ReadLatteStyle.cpp")],
     ["standard output of latte2ine and latte2ext, output file of ConvertCDDineToLatte, numOfLatticePoints of count"],
     "sanitizer-instrumented execution; an independent parser compares every entry of what was written with what was generated",
     COMMON_NOTE + SAN)

prop("C13", "triangulation", "triangulate writes a triangulation of the cone",
     "For every pointed full-dimensional cone and every triangulation method, `triangulate` writes a set of simplicial cones spanned by rays of the "
     "given cone which cover it and whose interiors are disjoint. With --nonsimplicial-subdivision it writes a subdivision: cones over subsets of the rays "
     "which cover the cone with disjoint interiors. `triangulate-boundary` writes the simplices of a triangulation of the boundary, "
     "and `hilbert-from-rays --only-triangulate` a subdivision into cones over given rays, in 4ti2 mode the regular one given by prescribed heights.",
     "every pointed cone, every engine (cddlib, cdd, 4ti2, delone, topcom), every height parameter",
     "Heights are random: a fixed test sees few of the height vectors, and no test runs the program on its own.",
     [L + "triangulation/TriangulationWithTOPCOM.cpp", L + "triangulation/RegularTriangulation.cpp", L + "triangulation/RegularTriangulationWithCddlib.cpp",
      L + "triangulation/RegularTriangulationWith4ti2.cpp", L + "triangulation/triangulate.cpp", L + "barvinok/Triangulation.cpp",
      L + "triangulation/BoundaryTriangulation.cpp", L + "triangulation/triangulate-boundary.cpp",
      L + "normalize/normalize.cpp", L + "ReadSubcones.cpp"],
     [("lifting by random heights, lower facets, refinement of non-simplicial facets", L + "triangulation/RegularTriangulation.cpp")],
     ["the cone file written by triangulate"],
     "sanitizer-instrumented execution; an exact monitor checks rays, simpliciality, volume of a slice and the pairing of all interior facets",
     COMMON_NOTE + SAN)

prop("C14", "cone-pipeline", "Cone files carry the exact cones between the programs",
     "`polyhedron-to-cones` writes one cone per vertex with the vertex and the primitive extreme rays of the polytope at it; "
     "`count` fed with such a file, or with the homogenised cone of a polytope in primal or dual form, as a cone file, as generators or as a triangulation written "
     "by `triangulate`, reports the number of lattice points of the polytope.",
     "every polytope, every engine for vertex cones, every way of handing cones from one program to the next",
     "No existing test reads or writes cone files.",
     [L + "vertices/cdd.cpp", L + "latte_4ti2_zsolve.cpp", L + "VertexConesWith4ti2.cpp", L + "ReadSubcones.cpp", L + "print.cpp", L + "dual.cpp",
      L + "polyhedron-to-cones.cpp", L + "ReadPolyhedron.cpp", L + "barvinok/barvinok.cpp"],
     [("vertex and ray enumeration", L + "vertices/cdd.cpp"), ("signed decomposition", L + "barvinok/barvinok.cpp")],
     ["cone files, numOfLatticePoints"],
     "sanitizer-instrumented execution; written cones are compared with an exact vertex and edge enumeration",
     COMMON_NOTE + SAN)

prop("C15", "hilbert-basis", "hilbert-from-rays completes the generators to a Hilbert basis",
     "For every pointed cone given by rays, `hilbert-from-rays` (normalize) writes distinct integer vectors of the cone which contain, together with the given generators, the whole "
     "Hilbert basis, for every triangulation, subdivision and enumeration option. Without initial triangulation it writes exactly the Hilbert basis (nothing for a unimodular cone).",
     "every pointed rational cone, every option combination",
     "No existing test runs the program.",
     [L + "normalize/normalize.cpp", L + "normalize/ReductionTest.cpp", L + "normalize/normaliz_wrapper.cpp", L + "genFunction/piped.cpp", L + "genFunction/IntCombEnum.cpp"],
     [("enumeration of fundamental parallelepipeds of a triangulation and global reduction", L + "normalize/normalize.cpp")],
     ["the .hil output file"],
     "sanitizer-instrumented execution; the basis written is compared with an independent computation by parallelepipeds and reduction",
     COMMON_NOTE + SAN)

prop("C16", "invalid-input", "Invalid input is refused, never answered",
     "For input which is not a valid problem (missing, empty or truncated files, words where numbers belong, headers, keyword lines or indices that do not fit the data, "
     "unknown keywords or options, unbounded polyhedra, cost files, knapsack lists or cone files that do not fit), `count`, `integrate`, `latte-maximize`, `latte-minimize`, `ehrhart`, "
     "`latte2ine`, `latte2ext`, `ConvertCDDineToLatte`, `top-ehrhart-knapsack`, `triangulate` and `hilbert-from-rays` end with a nonzero status. They leave no answer in numOfLatticePoints, "
     "do not hang and access no memory out of bounds.",
     "every malformed or unsuitable input file and unknown option",
     "All existing tests use valid files.",
     [L + "CheckEmpty.cpp", L + "ReadLatteStyle.cpp", L + "ReadingFile.cpp", L + "ReadPolyhedron.cpp", L + "count.cpp", L + "maximize.cpp", L + "minimize.cpp",
      L + "latte2ine.cpp", L + "latte2ext.cpp", L + "ConvertCDDineToLatte.cpp", L + "top-knapsack/top-ehrhart-knapsack.cpp",
      L + "vertices/cdd.cpp", L + "LattException.cpp"],
     [("parsers of the input formats", L + "ReadLatteStyle.cpp")],
     ["exit status, numOfLatticePoints and sanitizer reports of each program on corrupted input"],
     "sanitizer-instrumented execution on valid inputs broken by one seeded corruption; the monitor demands a refusal and no memory error",
     COMMON_NOTE + SAN + "Deliberate aborts (uncaught LattException, NTL's own errors, assertions) count as refusals. What cddlib's own parser accepts, integrand files, "
     "and words after the matrix for the older programs are not part of the claim.")

prop("C17", "top-ehrhart", "The top Ehrhart coefficients: Maple gets exactly the problem posed",
     "For every full-dimensional rational polytope and every weight (none, polynomial, powers of linear forms), `integrate --valuation=top-ehrhart` hands Maple simple "
     "cones at the vertices which sum to the polytope modulo cones with lines, and powers of linear forms which sum to the weight. The call asks for the number of coefficients, "
     "kind of dilations and save file given by the options.",
     "every full-dimensional rational polytope, weight and option",
     "No existing test runs this valuation.",
     [L + "top-ehrhart/TopEhrhart.cpp", L + "valuation/valuation.cpp", L + "integration/PolyTrie.cpp", L + "integration/burstTrie.h"],
     [("triangulated tangent cones and decomposition into powers of linear forms", L + "top-ehrhart/TopEhrhart.cpp")],
     ["the Maple program handed over, recorded by a stand-in for Maple"],
     "sanitizer-instrumented execution; a stand-in records the Maple program, whose lists are monitored against exact exponential integrals and the weight",
     COMMON_NOTE + SAN + "What Maple computes from it is not part of the claim: Maple is not available.")

prop("C18", "uninitialised", "No program uses uninitialised or freed memory",
     "For every input, valid or not, the programs `count`, `integrate`, `latte-maximize`, `latte-minimize`, `ehrhart`, `top-ehrhart-knapsack`, `polyhedron-to-cones`, `triangulate`, "
     "`hilbert-from-rays`, `aggregate`, `test-todd` and the converters never base a decision, an address or output on uninitialised memory, and never access freed or foreign memory.",
     "every input and documented option",
     "An uninitialised value usually has the value the tests expect.",
     [L + "count.cpp", L + "maximize.cpp", L + "valuation/PolytopeValuation.cpp", L + "ReadPolyhedron.cpp", L + "barvinok/barvinok.cpp", L + "ConeInfo.cpp",
      L + "normalize/normalize.cpp", L + "cone.cpp", L + "ramon.cpp"],
     [("hand-written vectors, lists and heaps", L + "ramon.cpp")],
     ["memcheck's reports on every program execution"],
     "valgrind memcheck over the workloads of all other checks",
     COMMON_NOTE + "Reports wholly inside cddlib or 4ti2 are not judged.")

prop("C19", "isolation", "Answers depend on the input and the options alone",
     "For every input, files which earlier runs left in the working directory, the locale, the environment, the path of the working directory, an absolute path to the input and "
     "the contents of fresh memory change neither exit status, standard output nor the files written, apart from reported times. Input files stay as they are.",
     "every input, documented option and directory contents",
     "The tests run each input once, in a clean directory.",
     [L + "CheckEmpty.cpp", L + "ReadingFile.cpp", L + "binarySearchIP.cpp", L + "vertices/cdd.cpp", L + "dual.cpp", L + "latte_system.cpp", L + "count.cpp", L + "maximize.cpp"],
     [("temporary files with fixed names in the working directory", L + "vertices/cdd.cpp")],
     ["exit status, standard output and directory contents of repeated runs"],
     "every execution of the other checks' workloads is repeated in a littered directory under a hostile environment; the monitor compares the two",
     COMMON_NOTE + SAN + "Intermediate files handed to cddlib and performance statistics are not compared.")

prop("C20", "aggregation", "aggregate keeps the non-negative integer solutions",
     "For every system of equations and inequalities b - A x with non-negative integer b and A and every choice of its rows, `aggregate` replaces the chosen rows by one equation with "
     "a slack variable per chosen inequality which has, over the non-negative integers, exactly the solutions of the chosen rows. Each slack variable is restricted to be non-negative, "
     "and all other rows and linearity marks stay.",
     "every matrix and choice of rows",
     "No existing test runs the program; two defects kept it from working at all.",
     [L + "aggregation/aggregation.cpp", L + "ReadLatteStyle.cpp"],
     [("Kannan aggregation with multipliers lambda^(m+1) + lambda^i", L + "aggregation/aggregation.cpp")],
     ["the matrix written to standard output"],
     "sanitizer-instrumented execution; the monitor enumerates the solutions of the written equation and of the original rows in a box, slack values included",
     COMMON_NOTE + SAN)

prop("C21", "todd", "Todd polynomials are exact",
     "For all integers x_1, ..., x_d the values printed by `test-todd` are, in order of degree 0 to d, the exact rational coefficients of the power series in t of the product of "
     "f(x_i t) with f(t) = t/(1 - exp(t)).",
     "all lists of integers",
     "No existing test runs the program.",
     [L + "todd/todd-expansion.cpp", L + "todd/gmp_pow.cpp", L + "todd/test-todd.cpp"],
     [("exact Taylor arithmetic: exponential, reciprocal, product", L + "todd/todd-expansion.cpp")],
     ["standard output"],
     "sanitizer-instrumented execution; values compared with products of Bernoulli-number series",
     COMMON_NOTE + SAN)

prop("C22", "random-choices", "Answers hold whatever random numbers are drawn",
     "The answers of `count`, `ehrhart`, `integrate`, `latte-maximize`, `latte-minimize`, `top-ehrhart-knapsack`, `triangulate`, `polyhedron-to-cones` and `hilbert-from-rays` are the exact ones "
     "required by the other properties whatever values rand() returns: generic vectors, perturbations, lifting heights and hash functions which turn out badly are replaced or "
     "tolerated.",
     "every input, documented option and sequence of random numbers",
     "Without a seed the tests always draw the same numbers, and unlucky ones are rare.",
     [L + "barvinok/dec.cpp", L + "ExponentialSubst.cpp", L + "ExponentialEhrhart.cpp", L + "Residue.cpp", L + "RudyResNTL.cpp", L + "valuation/Perturbation.cpp",
      L + "valuation/PolytopeValuation.cpp", L + "ConeInfo.cpp", L + "latte_random.cpp", L + "triangulation/RegularTriangulation.cpp", L + "barvinok/Triangulation.cpp"],
     [("repeating the computation with another generic vector", L + "barvinok/dec.cpp")],
     ["answers and output files of the programs under injected random numbers"],
     "sanitizer-instrumented execution with a replaced rand(), over the workloads of the other checks and judged by their oracles",
     COMMON_NOTE + SAN + "Runs which unlucky numbers slow down beyond 20 s are cut off and counted. `count --nonsimplicial-subdivision` needs generic heights and keeps its own.")
