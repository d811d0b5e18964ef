#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
ALL=["denseMatrix.go","csrMatrix.go","cscMatrix.go","denseVector.go","sparseVector.go"]

p("C01","Element read-back: the last write wins and nothing else changes",
 "For every container (dense, CSR and CSC matrices, dense and sparse vectors) and element type, after any sequence of in-range writes (element set, read-modify-write update, vector element set) each cell reads back the value last written to it and every other cell keeps its value; never-written cells read as zero. An update hands its function exactly the cell's current value, once. Writing zero is the same as removing the element, and reading never changes what any later read returns.",
 ["histories","inputs"],"all starting contents, all sequences of writes, all coordinates and values",
 "Tests write a handful of fixed cells in a fixed order on 2x2 or 7-long objects; the binary search and the shifting of compressed storage depend on which cells are already stored, in every combination.",
 ALL,[("binary search in compressed storage","csrMatrix.go columnIndex, cscMatrix.go rowIndex, sparseVector.go index"),("insert/remove shifting","csrMatrix.go insert/remove, cscMatrix.go insert/remove, sparseVector.go insert/remove")],
 ["At","AtVec","Set","SetVec","Update"],
 [dict(name="values/cols/rowStart",meaning="compressed storage arrays",where="csrMatrix.go CSRMatrix"),dict(name="values/rows/colStart",meaning="compressed storage arrays",where="cscMatrix.go CSCMatrix"),dict(name="values/indices",meaning="sorted index/value pairs",where="sparseVector.go SparseVector")])
p("C02","Out-of-range coordinates are rejected and change nothing",
 "Reading, writing, updating, mask-testing an element or extracting a row or column with a coordinate outside the container's dimensions panics, for every container and element type, and leaves the container's contents unchanged. The same calls with in-range coordinates never panic.",
 ["inputs"],"all coordinates (any machine integer, negative included), all contents",
 "No existing test passes an out-of-range coordinate.",
 ALL,[("bounds checks ending in log.Panicf","all accessors")],["At","Set","Update","AtVec","SetVec","RowsAt","ColumnsAt","RowsAtToArray","Element"])
p("C03","Enumeration yields every element exactly once at its own coordinates",
 "Iterating a container to exhaustion ends, never panics, visits no coordinate twice and reports each visited cell's row, column and current value; every non-zero cell is visited. Sparse containers visit only non-zero cells and dense ones visit every cell, and the reported element count equals the number of visits.",
 ["inputs","histories"],"all contents and shapes, after any history of writes (including ones that remove elements)",
 "One test enumerates one fixed 3x3 matrix; empty leading/trailing rows and columns, and states left by removals, are not reached.",
 ALL,[("iterators","cSRMatrixIterator.next, cSCMatrixIterator.next, sparseVectorIterator.next, denseMatrixIterator.next, denseVectorIterator.next")],["Enumerate","HasNext","Next","Values"])
p("C04","Map replaces each stored element exactly once",
 "Running a container's map iterator to exhaustion calls the function exactly once for each element present at the start, with that element's coordinates and old value, and afterwards each such element equals what the function returned for it (zero included) while all others are unchanged. The iteration ends and never panics, whatever the function returns.",
 ["inputs"],"all contents, shapes and replacement values, including replacements by zero",
 "The only test maps with the identity function.",
 ALL,[("map iterators","cSRMatrixMap.Map, cSCMatrixMap.Map, sparseVectorMap.Map, denseMatrixMap.Map, denseVectorMap.Map")],["Map"])
p("C05","Rows, columns and copies are exact, independent snapshots",
 "Extracting row r, column c or a row array, or copying a container, gives an object of the right length and dimensions whose elements equal the source's at that moment. Later writes to the source never show in the extracted object or copy, and writes to the extracted object or copy never show in the source.",
 ["inputs","histories"],"all contents, row/column numbers, and all later writes on either side",
 "Tests extract row 0 and column 0 of one 2x2 matrix and never write after copying.",
 ALL,[("copying accessors","RowsAt, ColumnsAt, RowsAtToArray, Copy, CopyLogical")],["RowsAt","ColumnsAt","RowsAtToArray","Copy","CopyLogical"])
p("C06","Dimensions, construction, clearing and resizing",
 "A container built with given dimensions, or from an array, reports exactly those dimensions and size and holds exactly the array's values (zero when built empty), and no element operation changes the dimensions. Clearing makes every element zero, keeps the dimensions and leaves the container fully usable. Resizing a dense vector to n gives length n, keeps the elements below both lengths and zero-fills the rest.",
 ["inputs","histories"],"all dimensions, all array contents, clear/resize at any point of a history",
 "One 2x3 array is tested; clearing and resizing are not tested at all.",
 ALL,[("constructors, Clear, ReSize","New*, New*FromArray*, Clear, DenseVector.ReSize")],["Rows","Columns","Size","Length","Clear","ReSize"])
p("C07","Equality means same dimensions and same elements, in any storage format",
 "Two containers compare equal exactly when their dimensions match and all corresponding elements are equal, whatever the storage formats of the two sides and whatever the element type. Equality is symmetric and inequality is its exact negation; nil is equal only to nil.",
 ["inputs","configurations"],"all pairs of contents, of dimensions, of storage formats and of element types",
 "Tests compare full float64 objects without zero cells against one dense expectation, and only in one direction.",
 ["operators.go","matrixRegistry.go"]+ALL,[("Equal/NotEqual","operators.go Equal, NotEqual"),("choice of the side to iterate","operators.go Equal, matrixRegistry.go IsSparseMatrix")],["Equal","NotEqual"])
p("C08","Matrix product is the row-by-column dot product",
 "Multiplying a (r x k) by b (k x c) stores in every destination element (i,j) the wrapped sum over l of a(i,l)*b(l,j), for every combination of storage formats of a, b and destination; stale destination contents do not matter. The multiply method returns a result of dimensions r x c with those elements.",
 ["inputs","configurations"],"all contents, all shapes, all format combinations (matrices and vectors as operands)",
 "One fixed product of full matrices is tested; sparse patterns, wrap-around and format mixes are not.",
 ["operators.go"]+ALL,[("mxm loop","operators.go multiply, MatrixMatrixMultiply"),("Multiply methods","*.Multiply")],["MatrixMatrixMultiply","Multiply"])
p("C09","Matrix-vector products",
 "The matrix-vector and vector-matrix products of an (r x k) matrix and a k-long vector both store in each destination element i the wrapped sum over l of matrix(i,l)*vector(l), for dense and sparse vectors as operand and destination and every matrix format.",
 ["inputs","configurations"],"all contents, shapes and format combinations",
 "One 3x2 matrix with one dense vector is tested.",
 ["operators.go","denseVector.go","sparseVector.go"],[("vxm / mxv","operators.go VectorMatrixMultiply, MatrixVectorMultiply")],["VectorMatrixMultiply","MatrixVectorMultiply"])
p("C10","Addition and subtraction are element-wise in every format mix",
 "Adding (subtracting) two equally sized containers gives at every position the wrapped sum (difference first minus second) of the operands' elements, for every combination of storage formats of the operands and of a cleared destination, by method or by function. The result has the operands' dimensions.",
 ["inputs","configurations"],"all contents, shapes, element types and format combinations",
 "One 2x2 dense second operand is tested against first operands with no zero cell; cells stored on only one side are not covered.",
 ["operators.go"]+ALL,[("Add/Subtract","operators.go Add, Subtract; methods Add, Subtract")],["Add","Subtract"])
p("C11","Scalar product and negation act on every element",
 "Multiplying a container by a scalar gives alpha times each element, and negating gives minus each element, with the element type's wrap-around, in every storage format (also when results become zero; an infinite or not-a-number element stays subject to floating-point multiplication, so zero times infinity is not a number), returning a container of the same dimensions. The negation function stores the negated source into a cleared or same-content destination.",
 ["inputs","configurations"],"all contents, shapes, scalars (zero and wrap-around included), formats, element types",
 "Tests use alpha=2 on one 2x2 matrix; a scalar that turns elements into zero is never used.",
 ["operators.go"]+ALL,[("Scalar, Negative","operators.go Scalar, Negative over Map iterators")],["Scalar","Negative"])
p("C12","Transposition swaps coordinates and nothing else",
 "Transposing an (r x c) container, by method or by any of the functions that pick the result format, gives a (c x r) container whose element (j,i) equals the source's (i,j); transposing twice gives back the original contents.",
 ["inputs","configurations"],"all contents, shapes, source and result formats",
 "One full 2x3 matrix is tested.",
 ["operators.go"]+ALL,[("Transpose, TransposeToCSR, TransposeToCSC","operators.go")],["Transpose","TransposeToCSR","TransposeToCSC"])
p("C13","Element-wise multiply and merge, also in place",
 "Element-wise multiplication of two equally sized containers gives the product of the elements at every position; element-wise addition gives their merge: the second operand's element where it is non-zero, otherwise the first's. Both hold for every format combination with a cleared destination, and also when the destination is one of the two operands, or both.",
 ["inputs","configurations"],"all contents, shapes (square or not), formats, and destination aliasing",
 "Two fixed 7x7 0/1 matrices are tested; values other than 0/1, non-square shapes and sparse in-place targets are not.",
 ["operators.go"],[("elementWiseMultiply, elementWiseAdd","operators.go"),("breadth-first search relies on the in-place merge","breadthfirst/breadthFirst.go")],["ElementWiseMatrixMultiply","ElementWiseVectorMultiply","ElementWiseMatrixAdd","ElementWiseVectorAdd"])
p("C14","A mask protects exactly the cells it selects",
 "For every operation that takes a mask, destination cells whose mask element is true (non-zero positive when a container serves as mask) keep their previous value, all other cells get the value they would get without a mask, and a nil or empty mask protects nothing. The mask may be an operand or the destination itself. In reductions, masked elements do not contribute. A mask whose dimensions differ from the masked object's is rejected with a panic.",
 ["inputs","configurations"],"all mask contents and formats, all operand contents, all shapes including non-square",
 "No test passes a mask to any operation except indirectly through breadth-first search.",
 ["operators.go","mask.go"],[("mask tests before stores","operators.go every operation"),("EmptyMask and Element","mask.go; Element methods")],["mask argument of every operation","Element"])
p("C15","Apply maps the unary operator over the matrix",
 "Applying a unary operator to a container stores op(element) at the same coordinates of a cleared destination for every element present in the source (every cell of a dense one, every non-zero of a sparse one), and applying in place replaces each present element by op(element), also when the operator returns zero.",
 ["inputs","configurations"],"all contents, shapes, formats, operator results",
 "Apply has no test.",
 ["operators.go","unaryop/unaryOp.go"],[("Apply","operators.go Apply")],["Apply"])
p("C16","Reductions fold every element once and always deliver",
 "Reducing a container to a scalar returns the fold of the monoid's operation over its elements starting from the identity, and reducing a matrix to a vector does so per column; the default scalar reduction is the sum, the default vector reduction the maximum with zero. This holds for every goroutine interleaving: the call always returns, loses or repeats no element, never races on memory and leaves no goroutine behind.",
 ["inputs","schedules"],"all contents, shapes, formats, monoids, and all interleavings of the producer and folding goroutines",
 "Tests reduce one fixed matrix under whatever schedule the runtime picks.",
 ["operators.go","binaryop/monoID.go","default.go"],[("channel protocol","binaryop/monoID.go Reduce; operators.go ReduceMatrixToScalarWithMonoID")],["ReduceMatrixToScalar","ReduceVectorToScalar","ReduceMatrixToVector","MonoID.Reduce"])
p("C17","Cancellation at any moment: every operation still returns, nothing torn",
 "Whenever the context is cancelled - before the call or at any point during it - every operation that takes a context returns (no hang, no panic, no goroutine left behind). Functions that write into a destination argument (products, sums, differences, element-wise products and merges, transpositions, negation, application) leave each destination element at either its previous or its final value; a scalar product leaves each element of its result at the source's or the final value, a transposition returning a new matrix leaves each at zero or the final value; none of them ever modifies an operand that is not the destination. The reductions, Strassen multiplication, sorting and breadth-first search only have to return.",
 ["fault_sequences","inputs"],"all cancellation points, all contents, formats",
 "No test cancels a context.",
 ["operators.go","breadthfirst/breadthFirst.go","math/strassen/strassen.go","sort/bubble.go"],[("ctx.Done polling","operators.go every loop")],["every ctx-taking function"])
p("C18","Operands are never modified and results share nothing with them",
 "Operations that return a new container (add, subtract, multiply, scalar, negative, transpose, reductions, reduced form, symmetry tests, sorting, Strassen, breadth-first search) leave every operand exactly as it was, and operations that write into a destination leave every operand and mask that is not the destination exactly as it was. Later writes to the result never show in an operand, and later writes to an operand never show in the result.",
 ["inputs","histories"],"all operand contents and formats, all later writes on either side",
 "Tests look only at the result, never at the operands afterwards.",
 ["operators.go"]+ALL+["math/reduced/reduced.go","math/strassen/strassen.go","sort/bubble.go","breadthfirst/breadthFirst.go"],[("results built from copies","methods Add/Subtract/Negative/Scalar/Multiply/Transpose")],["operands after each call"])
p("C19","All storage formats behave identically under the same program",
 "Running the same program of operations (writes, updates, clears, maps, copies, sums, differences, scalar products, negations, transpositions, products) on a dense, a CSR and a CSC matrix, or on a dense and a sparse vector, started with equal contents, leaves them equal element by element after every step.",
 ["programs","inputs"],"all short programs over the operation set, all contents, coordinates and scalars",
 "Tests run each operation alone on each format; no test chains operations.",
 ALL+["operators.go"],[("common interface implemented five times","matrix.go, vector.go")],["At after each step"])
p("C20","Compressed matrices report where the element is stored",
 "The pointer-returning set and update of CSR (CSC) matrices behave as the plain ones, and when the written value is non-zero the returned pointer is the rank of that element among the stored elements in row-major (column-major) order.",
 ["inputs"],"all contents, coordinates, values",
 "The pointer-returning variants have no test.",
 ["csrMatrix.go","cscMatrix.go","matrix.go"],[("SetReturnPointer/UpdateReturnPointer","csrMatrix.go, cscMatrix.go")],["SetReturnPointer","UpdateReturnPointer"])
p("C21","Breadth-first search visits each vertex at its distance",
 "On a graph with non-negative edge weights (whose products along paths do not overflow), the vector shown to the callback at level d is positive exactly at the vertices at distance d from the source (edge j to i stored at row i, column j), so no vertex is reported twice; the search stops at the first level the callback accepts and returns that level's vector, or after having shown as many levels as there are vertices returns a zero vector. This holds for every storage format of the graph.",
 ["inputs","configurations"],"all graphs up to the bound, all sources, all stopping levels, all formats",
 "One 7-vertex dense graph from one source is tested.",
 ["breadthfirst/breadthFirst.go","operators.go"],[("masked frontier expansion","breadthfirst/breadthFirst.go Search")],["Search callback and result"])
p("C22","Strassen multiplication equals the ordinary product",
 "For any operands with matching inner dimension and any crossover point, Strassen multiplication returns a matrix of dimensions rows(a) x columns(b) equal to the ordinary product (with wrap-around arithmetic), whatever the storage formats and the order in which the concurrent sub-products finish; the sub-products never race on memory and no goroutine is left behind.",
 ["inputs","schedules","configurations"],"all contents, square, non-square and odd shapes, all crossover points, all completion orders",
 "One 4x4 product with crossover 2 is tested.",
 ["math/strassen/strassen.go"],[("split/combine and channel collection","math/strassen/strassen.go MultiplyCrossoverPoint")],["Multiply","MultiplyCrossoverPoint"])
p("C23","Reduced row echelon form",
 "For floating-point matrices, in exact arithmetic, the reduction returns a matrix of the same dimensions that is in reduced row echelon form (leading ones, zeros above and below them, leading columns increasing, zero rows last) and has the same row space as the input; it always terminates without panicking and gives the same result for every storage format.",
 ["inputs","configurations"],"all real matrices up to the bound (every rank and pivot pattern), all formats",
 "One 3x4 matrix of full rank is tested; zero pivots, row swaps and rank deficiency are not.",
 ["math/reduced/reduced.go"],[("Gauss-Jordan loop","math/reduced/reduced.go Reduced")],["Reduced"])
p("C24","Symmetry tests decide exactly",
 "The symmetric (skew-symmetric) test returns true exactly for square matrices with m(i,j)=m(j,i) (m(i,j)=-m(j,i)) for all i,j, in every storage format, and false for every non-square one.",
 ["inputs","configurations"],"all contents, shapes, formats",
 "Only positive 3x3 examples without zero pattern differences are tested.",
 ["math/symmetric/symmetric.go","math/skewsymmetric/skewSymmetric.go"],[("Transpose then Equal","symmetric.go, skewSymmetric.go")],["Symmetric","SkewSymmetric"])
p("C25","Bubble sorts order rows (columns) and lose nothing",
 "Sorting the rows (columns) of a dense rune matrix returns a matrix of the same dimensions whose rows (columns) are the input's rows (columns), each as many times as before, in non-decreasing lexicographic order.",
 ["inputs"],"all contents (valid code points), shapes, duplicates",
 "One 3x3 matrix per direction is tested.",
 ["sort/bubble.go","operators.go"],[("compare and swap","sort/bubble.go BubbleRow, BubbleColumns")],["BubbleRow","BubbleColumns"])
p("C26","Matrix comparison is lexicographic and consistent",
 "For equally shaped dense rune matrices of valid code points, comparison returns 0, -1 or +1 exactly as the row-major rune sequences compare lexicographically; it is antisymmetric and transitive, and less/greater agree with it. The string form is the row-major sequence of runes.",
 ["inputs"],"all contents (valid code points of every UTF-8 length), shapes",
 "Comparison is exercised only through two sort tests on ASCII letters.",
 ["operators.go"],[("Compare, Less, Greater, String","operators.go")],["Compare","Less","Greater","String"])
p("C27","Built-in operators compute their definitions and obey their laws",
 "Every built-in operator returns its documented function of its arguments for all values of every element type (with wrap-around for integers): addition, subtraction, multiplication, division, minimum, maximum, first, second, the comparisons, and the logical or, and, xor, inverse; the two operator packages agree. A monoid's identity is the value it was built with.",
 ["inputs"],"all argument values of every element type",
 "Tests evaluate each operator on one or two value pairs of one type.",
 ["operators/arithmetic.go","operators/boolean.go","operators/comparison.go","operators/other.go","binaryop/operators.go","binaryop/binaryOp.go","binaryop/binaryOpToBool.go","binaryop/monoID.go","unaryop/unaryOp.go","default.go"],[("operator closures","operators/*.go, binaryop/operators.go")],["Apply"])
p("C28","The mutex matrix is race-free and linearizable",
 "Concurrent calls of the mutex-wrapped matrix's operations (element reads, writes, updates, clears, copies, row/column extraction, element counts, sums, products, comparisons) never race on memory, never deadlock, and each behaves as if executed alone at one instant between its call and return; sequentially each returns what the wrapped matrix would return. Iterators are excluded: their caller holds the lock.",
 ["schedules","inputs","histories"],"all interleavings of concurrent operations, all contents, coordinates and values, every wrapped format",
 "The wrapper has no test, and a test would see one schedule.",
 ["mutexMatrix.go","csrMatrix.go","cscMatrix.go","sparseVector.go"],[("RWMutex around each operation","mutexMatrix.go"),("reads of compressed formats must not write","csrMatrix.go At/Element, cscMatrix.go At/Element, sparseVector.go At")],["MutexMatrix methods"])
p("C29","Sparse formats are recognised for every element type",
 "The sparsity test answers true for CSR matrices, CSC matrices and sparse vectors and false for dense matrices and vectors, for every element type; registering a further matrix type makes it recognised, and registering a type twice panics.",
 ["configurations"],"all containers and element types",
 "Only float64 is tested.",
 ["matrixRegistry.go"],[("registry keyed by type name","matrixRegistry.go RegisterMatrix, IsSparseMatrix")],["IsSparseMatrix","RegisterMatrix"])
p("C30","The graph context carries its mode and its parent",
 "A context built with a mode reports exactly that mode, a plain context reports blocking and absent, and the built context's deadline, cancellation, error and values are its parent's.",
 ["inputs"],"all modes, parents",
 "The context has no test.",
 ["context.go"],[("NewContext, BlockingMode","context.go")],["NewContext","BlockingMode"])
p("C31","Incompatible dimensions are rejected before anything is written",
 "Products, sums, differences, element-wise operations and Strassen multiplication called with operands whose dimensions are incompatible for the operation panic, and leave both operands and the destination unchanged; compatible dimensions, square or not, are accepted.",
 ["inputs","configurations"],"all shape combinations up to the bound, all contents and formats",
 "No test passes mismatched or (for element-wise operations) non-square operands.",
 ["operators.go","math/strassen/strassen.go"],[("dimension checks","operators.go, strassen.go")],["panic behaviour"])
p("C32","In place: the destination may be an operand",
 "Every function that writes into a destination accepts one of its operands (of the destination's dimensions), or both at once, as that destination: matrix product, matrix-vector and vector-matrix product, sum, difference, element-wise product and merge, application, negation, and transposition of a square matrix. Afterwards every cell the mask does not protect holds the operation's result computed from the operands' original elements (zero results included), every protected cell its original element - also when the mask is the destination itself -, and the operand that is not the destination is unchanged. The call returns.",
 ["inputs","configurations"],"all contents, shapes, storage formats, masks, and which operand is the destination",
 "No existing test passes an operand as destination except element-wise addition inside breadth-first search.",
 ["operators.go"],[("multiply, elementWiseMultiply, elementWiseAdd, Add, Subtract, Apply, Negative, Transpose","operators.go")],["destination argument of every operation"])
p("C33","Only the elements matter, not how they got there",
 "What an operation does with a container depends on its dimensions, format and current elements only: after any sequence of writes, removals, reads, complete or abandoned enumerations and maps, copies and clears, every operation on it (sums, differences, products, scalar product, negation, transposition, copies, row and column extraction, equality, counting, reduction, application, element-wise operations; as operand, as mask or as destination) gives the same result as on a container built afresh with the same elements.",
 ["inputs","histories"],"all short histories, all non-zero values, every storage format",
 "Tests use containers freshly built by a constructor or by writes in row order.",
 ALL+["operators.go"],[("insert/remove, iterators, map","csrMatrix.go, cscMatrix.go, sparseVector.go")],["every operation after a history"])
p("C34","A panicking caller function breaks nothing",
 "When the function given to an update, to a map iterator, to an application (also in place) or to a breadth-first search panics at any of its calls, the panic reaches the caller, the element being computed keeps its previous value, every other element has its previous or its final value, operands are unchanged, and the container - mutex-wrapped or not - stays fully usable: no lock stays held, later writes are read back and enumeration stays exact.",
 ["inputs","faults"],"every call at which the function fails, all contents, every format",
 "No test passes a function that fails.",
 ALL+["operators.go","breadthfirst/breadthFirst.go"],[("Update, UpdateReturnPointer, Map, Apply, Search","container files, operators.go")],["Update","Map","Apply","Search"])
p("C35","Reading, and work on separate containers, is safe concurrently",
 "Operations that only read a container (element reads, counts, row and column extraction, copies, enumeration, comparison, transposition, sums, differences, products, scalar products, negation, reductions, use as mask, operand or search graph, and for rune matrices string form, ordering and sorting) may run concurrently on the same container, and operations of any kind may run concurrently on containers that are not the same: they never race on memory, and each does what it does alone. The mutex-wrapped matrix's read lock and Strassen multiplication rely on it.",
 ["inputs","schedules"],"all pairs of reading operations, all interleavings, every format",
 "No test reads one container from two goroutines.",
 ALL+["operators.go","mutexMatrix.go"],[("At, Element, Values, RowsAt, ColumnsAt, Copy, Enumerate, Equal, ...","container files")],["every reading operation"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
