"""Single source of the property list and of what each check covers; gen.py writes properties.jsonl and MANIFEST.json from it."""
PROPS = {}     # claimed: run by check.py
ALL = []       # every property, in order
INC = "include/ode_num_int/"
def prop(id, title, statement, over, quant, why, anchors, mech, files=None, bounds="", outside="", assumptions=(), na=None, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, anchors=[INC + a for a in anchors], mech=[(m, INC + w) for m, w in mech],
             files=files or [], bounds=bounds, outside=outside, assumptions=list(assumptions), na=na, **kw)
    ALL.append(d)
    if files: PROPS[id] = d

T_ALG = "The three stable tests check one LU factorization of one fixed matrix and two constructors of the vector class; "
T_ODE = "No stable test runs an integrator; the examples only print results. "

prop("C01", "Vector algebra is elementwise through every view; norms mean what they say",
     "Every vector operation (sum, difference, scaling, copy, resize, swap, dot product) gives the elementwise mathematical result, whether applied to vectors, scaled views or sub-range views, and changes nothing but its target. Norms equal their mathematical definition, and a NaN anywhere in a vector makes its maximum norm NaN.",
     ["inputs"], "all element values (reals, and IEEE doubles including NaN for the norms), all sizes up to the bound, all sub-ranges",
     T_ALG + "no test touches views, aliasing or NaN.", ["la/VectorTemplate.h"],
     [("VectorTemplate, VectorProxy, Scaled/Block proxies", "la/VectorTemplate.h")],
     files=["c01_vector"], bounds="sizes 0..4, every block offset/length, every NaN placement up to 3 elements (IEEE-754 double theory); element values unbounded",
     outside="sizes above 4; rounding of sums (norm identities are over the reals, elementwise operations are exact in any arithmetic)")
prop("C02", "Sparse matrix algebra agrees with dense algebra for every sparsity pattern",
     "For every sparsity pattern, element access, iteration, copies between matrix kinds, scaled/transposed/block views, sums, matrix-vector and matrix-matrix products and norms give the same result as the dense matrix with zeros in the absent positions. Views write through to their source and reading them changes nothing.",
     ["inputs", "configurations"], "all patterns of all shapes within the bound, all element values",
     T_ALG + "they use one pattern and no views.", ["la/SparseMatrixTemplate.h"],
     [("SparseMatrixTemplate, SparseMatrixData, SparseMatrixFastData, proxies", "la/SparseMatrixTemplate.h")],
     files=["c02_sparse"], bounds="shapes 1x1, 2x2, 2x3, 1x3, 3x2 with every pattern; products up to 2x2*2x2 and 1x3*3x1; every block; element values unbounded",
     outside="larger shapes; rounding of products")
prop("C03", "The LU factorizer solves every system whose stencil it accepts",
     "For every matrix whose stencil is accepted and whose leading minors are non-zero, the solution returned satisfies A x = b, for the first and for further right-hand sides. A stencil is refused with an exception exactly when the matrix is not square or the stencil does not reach the diagonal.",
     ["inputs", "configurations"], "all sparsity patterns up to the bound, all entry values with non-zero pivots, all right-hand sides",
     "The stable test factorizes one 4-diagonal matrix of fixed values.", ["lu/LUFactorizer.h"],
     [("setMatrix/factorize/solve", "lu/LUFactorizer.h")],
     files=["c03_lu_solve"], bounds="every pattern for n<=3; n=4 with full diagonal and up to 4 (thorough 8) off-diagonal entries; 6 structured patterns for n=5; all entry values with non-zero pivots over the reals",
     outside="n>5; rounding error growth; structurally singular patterns (a pivot identically zero)", assumptions=["pivots are non-zero (the factorization does not pivot)"])
prop("C04", "Refreshing a factorizer is equivalent to building a new one",
     "Loading a new matrix into an existing factorizer - by the fast path or the full one, with the same or another size or stencil, before or after a factorization - leaves it in the same observable state as a factorizer freshly built from that matrix.",
     ["histories", "inputs"], "all earlier contents and uses, all new matrices within the bound",
     "The stable test builds each factorizer once.", ["lu/LUFactorizer.h"], [("setMatrix/setMatrixFast", "lu/LUFactorizer.h")],
     files=["c04_lu_fast"], bounds="old and new matrices up to 3x3, every pattern with full diagonal (n=3) or any valid pattern (other sizes), used or not in between; all values",
     outside="n>3; longer histories than two loads", assumptions=["pivots are non-zero"])
prop("C05", "The factorizer reproduces the matrix it holds",
     "Reading back elements, or the whole matrix, from the factorizer gives the matrix loaded, before factorization and after it and after any number of solves; the reported envelope covers every stored entry.",
     ["inputs", "histories"], "all patterns and values within the bound, before/after factorization",
     "The stable test prints norms for one matrix.", ["lu/LUFactorizer.h", "lu/util.h"], [("elementAt, luToMatrix", "lu/LUFactorizer.h")],
     files=["c05_lu_elements"], bounds="every pattern for n<=2, every pattern with full diagonal for n=3, n=4 with up to 3 (thorough 7) off-diagonal entries",
     outside="larger n; rounding", assumptions=["pivots are non-zero"])
prop("C06", "The Hart secant update satisfies the secant condition within the stencil",
     "After a secant update of a factorized matrix with step s and change y, the matrix held by the factorizer maps s to y exactly, keeps its stencil, and is unchanged if it already did.",
     ["inputs", "histories"], "all matrices, steps (with zero components as long as each row of the stencil can be corrected) and changes within the bound, factorized before or not",
     "No test calls the update.", ["lu/LUFactorizer.h"], [("secantUpdateHart", "lu/LUFactorizer.h")],
     files=["c06_lu_hart"], bounds="n=1, n=2 every pattern, n=3 every pattern with full diagonal; every placement of zero components in the step that leaves each row correctable; all values",
     outside="n>3; rounding", assumptions=["pivots are non-zero, before and after the update"])
exec(open(__file__.replace("props.py", "props_ode.py")).read())
