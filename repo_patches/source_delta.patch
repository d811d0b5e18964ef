From 319ca5e27109c1c6bf011538006e7b98975b2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 01/24] fix: sparse vector looks up every index by binary
 search

An index larger than the number of stored elements was taken to lie past the
last stored one, so elements were inserted out of order and lost.
---
 sparseVector.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..e37a73e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,9 +188,6 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
-		return length, length, nil
-	}
 
 	start := 0
 	end := length
-- 
2.43.0


From a4371766efd28f85e101f56a3d8d1d0f471d5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 02/24] fix: Add keeps the elements only one operand has

Only one operand was enumerated, so with a sparse operand the elements
present in the other one alone were missing from the sum.
---
 operators.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index aa18ffa..4f32387 100644
--- a/operators.go
+++ b/operators.go
@@ -189,13 +189,13 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 	}
 
 	var iterator Enumerate[T]
-	var source Matrix[T]
-	if IsSparseMatrix[T](s) {
+	var source, other Matrix[T]
+	if m == matrix || (s != matrix && IsSparseMatrix[T](s)) {
 		iterator = s.Enumerate()
-		source = m
+		source, other = m, s
 	} else {
 		iterator = m.Enumerate()
-		source = s
+		source, other = s, m
 	}
 
 	for iterator.HasNext() {
@@ -210,6 +210,23 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 			}
 		}
 	}
+
+	if !IsSparseMatrix[T](other) {
+		return
+	}
+
+	// elements of the source the iterator has not visited
+	for iterator := source.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, v := iterator.Next()
+			if other.At(r, c) == Default[T]() && !mask.Element(r, c) {
+				matrix.Set(r, c, v)
+			}
+		}
+	}
 }
 
 func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-- 
2.43.0


From 080449d590615d1d663b48435b4bfb99b2fc272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 03/24] fix: Subtract subtracts the second operand from the
 first

The destination's previous content was subtracted instead of m, and elements
present in m alone were not negated.
---
 operators.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 4f32387..7ae42a5 100644
--- a/operators.go
+++ b/operators.go
@@ -326,9 +326,24 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+				matrix.Set(r, c, value-m.At(r, c))
+			}
+		}
+	}
+
+	if !IsSparseMatrix[T](s) {
+		return
+	}
+
+	// elements only m has
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, value := iterator.Next()
+			if s.At(r, c) == Default[T]() && !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
 			}
 		}
 	}
-- 
2.43.0


From eeabc9ea0af584121289872d2b9a5e88da2a3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 04/24] fix: Equal compares every element of mixed storage
 formats

The sparse side was enumerated, so a dense matrix equalled a sparse one
whenever it agreed on the sparse one's non-zero elements.
---
 operators.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 7ae42a5..0c7de2f 100644
--- a/operators.go
+++ b/operators.go
@@ -554,9 +554,9 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 	var iterator Enumerate[T]
 	var matrix MatrixLogical[T]
 
-	// Check for a sparse matrix as we want to use its Enumerate operation
-	// Because the use of the At operation on a sparse matrix is expensive
-	if isSparseMatrixS {
+	// When only one of the matrices is sparse enumerate the other one, as a sparse
+	// matrix does not enumerate the zero elements
+	if isSparseMatrixM {
 		iterator = s.Enumerate()
 		matrix = m
 	} else {
-- 
2.43.0


From 415d1978fa25978954e637b1166bbc9044bb2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 05/24] fix: recognise sparse matrices of every element type

The registry key included the type arguments, so only float64 matrices were
recognised as sparse.
---
 matrixRegistry.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..66f45b6 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,6 +8,7 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
@@ -16,16 +17,27 @@ var sparseMatrixRegistry = make(map[string]reflect.Type)
 
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
-	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
-		log.Panicf("Already registered Matrix %q.", matrix.Name())
+	name := registryName(matrix)
+	if _, found := sparseMatrixRegistry[name]; found {
+		log.Panicf("Already registered Matrix %q.", name)
 	}
-	sparseMatrixRegistry[matrix.Name()] = matrix
+	sparseMatrixRegistry[name] = matrix
 
 }
 
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
+	_, found := sparseMatrixRegistry[registryName(t)]
 	return found
 }
+
+// registryName is the name of the type without its type arguments, a matrix is
+// registered for every element type
+func registryName(t reflect.Type) string {
+	name := t.Name()
+	if i := strings.IndexByte(name, '['); i >= 0 {
+		return name[:i]
+	}
+	return name
+}
-- 
2.43.0


From c1a111051838117daa9f4b87baaccfd78ee32cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 06/24] fix: mapping an element to zero does not derail the
 sparse iterators

Removing the current element shifted the ones after it, so the iterator
skipped elements or ran past the end.
---
 cscMatrix.go    | 4 ++++
 csrMatrix.go    | 4 ++++
 sparseVector.go | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..67d371f 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -407,6 +407,10 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		s.pointerStart--
+		s.pointerEnd--
+		s.last--
+		s.size--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..3dd8561 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -397,6 +397,10 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		s.pointerStart--
+		s.pointerEnd--
+		s.last--
+		s.size--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index e37a73e..8094e3e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -359,6 +359,8 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From 9a570c6977b3ba6af05621d2cc906692b1574dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 07/24] fix: Apply stores at the element's own coordinates and
 honours the mask

The result was stored transposed, and applying in place changed only the
masked elements.
---
 operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.go b/operators.go
index 0c7de2f..124f4f5 100644
--- a/operators.go
+++ b/operators.go
@@ -372,7 +372,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
@@ -391,7 +391,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From d9800ed2e6d796bca70079cd1ef759a5fbc32814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 08/24] fix: Negative negates its source

The function negated the destination's content and ignored the source.
---
 operators.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 124f4f5..5aa9398 100644
--- a/operators.go
+++ b/operators.go
@@ -411,18 +411,15 @@ func Negative[T constraints.Number](ctx context.Context, s Matrix[T], mask Mask,
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	for iterator := matrix.Map(); iterator.HasNext(); {
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
-			iterator.Map(func(r, c int, value T) T {
-				if !mask.Element(r, c) {
-					return -value
-				}
-
-				return value
-			})
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
+			}
 		}
 	}
 }
-- 
2.43.0


From ff3058453d7dc2649092ae98c80f53f700ae6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 09/24] fix: Transpose tests the mask at the destination's
 coordinates

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 5aa9398..6818997 100644
--- a/operators.go
+++ b/operators.go
@@ -447,7 +447,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From 61a023bc5d61b7ab5f2a475528bf738996463a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 10/24] fix: element-wise matrix operations require equal
 dimensions

The row count of one operand was compared with the column count of the other,
which rejected non-square operands and accepted incompatible ones.
---
 operators.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index 6818997..fe9d116 100644
--- a/operators.go
+++ b/operators.go
@@ -148,8 +148,12 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 //
 // eWiseMult
 func ElementWiseMatrixMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseMultiply(ctx, s, m, mask, matrix)
@@ -279,8 +283,12 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 //
 // eWiseMult
 func ElementWiseMatrixAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseAdd(ctx, s, m, mask, matrix)
-- 
2.43.0


From e4094bd4c5522846aae5068397f69f2d4f09cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 11/24] fix: element-wise multiplication stores the product

Elements were kept where both operands were equal and dropped otherwise, and in
place the elements the other operand does not store were left unchanged.
---
 operators.go | 50 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/operators.go b/operators.go
index fe9d116..af201f0 100644
--- a/operators.go
+++ b/operators.go
@@ -96,36 +96,32 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	target := func(r, c int, value T) {
-		v := source.At(r, c)
-		if value == v {
-			if !mask.Element(r, c) {
-				matrix.Set(r, c, value)
-			}
+	// when the matrix is the same object of s or m it is updated in place
+	if s == matrix || m == matrix {
+		source = s
+		if s == matrix {
+			source = m
 		}
-	}
 
-	// when the matrix is the same object of s or m we use the setSource func to self update
-	setSource := func(r, c int, value T) {
-		if !mask.Element(r, c) {
-			source.Update(r, c, func(v T) T {
-				if value != v {
-					return Default[T]()
-				}
-				return v
-			})
+		for iterator := matrix.Map(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				iterator.Map(func(r, c int, value T) T {
+					if !mask.Element(r, c) {
+						return value * source.At(r, c)
+					}
+
+					return value
+				})
+			}
 		}
+
+		return
 	}
 
-	if m == matrix {
-		target = setSource
-		iterator = s.Enumerate()
-		source = m
-	} else if s == matrix {
-		target = setSource
-		iterator = m.Enumerate()
-		source = s
-	} else if IsSparseMatrix[T](s) {
+	if IsSparseMatrix[T](s) {
 		iterator = s.Enumerate()
 		source = m
 	} else {
@@ -139,7 +135,9 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 			return
 		default:
 			r, c, value := iterator.Next()
-			target(r, c, value)
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, value*source.At(r, c))
+			}
 		}
 	}
 }
-- 
2.43.0


From 301c540b1fd2641867dc8026f7a24ee7fed47d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 12/24] fix: Scalar returns when its context is cancelled

The break only left the select, so the loop never ended.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index af201f0..7112eb0 100644
--- a/operators.go
+++ b/operators.go
@@ -594,7 +594,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From e54670d8d1c0614b9c202bafb4276eee8a4708d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 13/24] fix: reductions return when cancelled and leave no
 goroutine behind

The feeding goroutine returned without ending the fold, so a cancelled
reduction waited for ever; a rejected mask left the fold running.
---
 operators.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/operators.go b/operators.go
index 7112eb0..0478298 100644
--- a/operators.go
+++ b/operators.go
@@ -642,13 +642,6 @@ func ReduceMatrixToScalar[T constraints.Number](ctx context.Context, s MatrixLog
 // ReduceMatrixToScalarWithMonoID perform's a reduction on the Matrix
 // monoid used in the element-wise reduction operation
 func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {
-	done := make(chan struct{})
-	slice := make(chan T)
-	defer close(slice)
-	defer close(done)
-
-	out := monoID.Reduce(done, slice)
-
 	if mask == nil {
 		mask = NewEmptyMask(s.Rows(), s.Columns())
 	}
@@ -661,10 +654,18 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), s.Columns())
 	}
 
+	done := make(chan struct{})
+	slice := make(chan T)
+	defer close(slice)
+	defer close(done)
+
+	out := monoID.Reduce(done, slice)
+
 	go func() {
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
+				done <- struct{}{}
 				return
 			default:
 				r, c, value := iterator.Next()
-- 
2.43.0


From 0ac7f3964b7b25ce3dd3e60b05a442fb4359f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 14/24] fix: shrinking a dense vector keeps the requested
 length

---
 denseVector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index d68a835..7709d3c 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -91,8 +91,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 		arr := make([]T, length)
 		s.values = append(s.values, arr...)
 	} else if size < s.l {
-		length := s.l - size
-		s.values = append([]T(nil), s.values[:length]...)
+		s.values = append([]T(nil), s.values[:size]...)
 	}
 
 	s.l = len(s.values)
-- 
2.43.0


From 60a6aea3236566efbd8ce5e179d90b99813677dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 15/24] fix: the product of a vector and a matrix has the
 vector's rows

The result was allocated with the dimensions of the inner product.
---
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 7709d3c..0be80e9 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -222,7 +222,7 @@ func (s *DenseVectorNumber[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *DenseVectorNumber[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
diff --git a/sparseVector.go b/sparseVector.go
index 8094e3e..91a6c9c 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -233,7 +233,7 @@ func (s *SparseVector[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *SparseVector[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
-- 
2.43.0


From 955ba60510ae7da1aabe2761d7ccf572d7ca19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 16/24] fix: vectors reject columns out of range when reading

---
 denseVector.go  | 6 +++++-
 sparseVector.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 0be80e9..6aaedde 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -129,6 +129,10 @@ func (s *DenseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *DenseVector[T]) At(r, c int) (value T) {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r)
 }
 
@@ -350,5 +354,5 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 91a6c9c..ced4fe8 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -366,5 +366,5 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) > Default[T]()
 }
-- 
2.43.0


From 86c84296c63b2c2aff35253de09e446d6c84f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 17/24] fix: Strassen multiplies operands that do not divide
 into quadrants directly

Odd sizes lost the last row and column, non-square operands gave wrong
dimensions and a crossover point below one never ended.
---
 math/strassen/strassen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..5c13cdb 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,8 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	// only square matrices of even size divide into four sub-matrices
+	if n <= crossover || n < 2 || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From 3a5eabc9941831e85884450f7222380276a34a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 18/24] fix: reading an element of a sparse container does not
 write

At and Element wrote the value back, which is a data race between the
readers the mutex matrix admits together.
---
 cscMatrix.go    | 24 ++++++++++++++----------
 csrMatrix.go    | 24 ++++++++++++++----------
 sparseVector.go |  9 ++++-----
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 67d371f..3dae926 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,19 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -416,10 +425,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 3dd8561..09ed192 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,19 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -406,10 +415,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index ced4fe8..1111feb 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,11 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From bcb6581ca791491812c20e5910fe486f78da26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 19/24] fix: the mutex matrix clears under the write lock and
 counts under the read lock

---
 mutexMatrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..f1804e6 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -161,13 +161,16 @@ func (s *MutexMatrix[T]) Size() int {
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Values()
 }
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
-- 
2.43.0


From a79e19cc0051cd4767bf59c92522f0ae1d99b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 20/24] fix: a product can be stored in its second operand

---
 operators.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operators.go b/operators.go
index 0478298..471743c 100644
--- a/operators.go
+++ b/operators.go
@@ -33,6 +33,11 @@ func multiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// when the matrix is the same object as m its columns are still needed after they are updated
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	for r := 0; r < s.Rows(); r++ {
 		rows := s.RowsAt(r)
 
-- 
2.43.0


From 6e45332058a6c43cfa2a88dc50e0b10975188ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 21/24] fix: a difference can be stored in its first operand

---
 operators.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operators.go b/operators.go
index 471743c..28eb625 100644
--- a/operators.go
+++ b/operators.go
@@ -330,6 +330,11 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// when the matrix is the same object as s its elements are still needed after they are updated
+	if s == matrix {
+		s = s.Copy()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 98976308d7571d1684a16345dfad1f925c7fcb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 22/24] fix: a square matrix can be transposed in place

---
 operators.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/operators.go b/operators.go
index 28eb625..e62ff12 100644
--- a/operators.go
+++ b/operators.go
@@ -456,6 +456,25 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// when the matrix is the same object as s every element of it is replaced
+	if s == matrix {
+		source := s.CopyLogical()
+		for r := 0; r < source.Rows(); r++ {
+			for c := 0; c < source.Columns(); c++ {
+				select {
+				case <-ctx.Done():
+					return
+				default:
+					if !mask.Element(c, r) {
+						matrix.Set(c, r, source.At(r, c))
+					}
+				}
+			}
+		}
+
+		return
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 618e1c1cb1dfb38491cd2b06df677e91a262a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 23/24] fix: element-wise addition stores each element once

---
 operators.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index e62ff12..3da9b0e 100644
--- a/operators.go
+++ b/operators.go
@@ -256,7 +256,8 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 				return
 			default:
 				r, c, value := iterator.Next()
-				if value != Default[T]() {
+				// an element m has as well is stored below
+				if value != Default[T]() && m.At(r, c) == Default[T]() {
 					if !mask.Element(r, c) {
 						matrix.Set(r, c, value)
 					}
-- 
2.43.0


From f4204be6eda26f00f582545382eb8dd2ffe40b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 24/24] fix: a matrix can be added to itself in place

---
 operators.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operators.go b/operators.go
index 3da9b0e..3ee0968 100644
--- a/operators.go
+++ b/operators.go
@@ -195,6 +195,11 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// when the matrix is the same object as s and m one of them is enumerated while it is updated
+	if s == matrix && m == matrix {
+		s = s.Copy()
+	}
+
 	var iterator Enumerate[T]
 	var source, other Matrix[T]
 	if m == matrix || (s != matrix && IsSparseMatrix[T](s)) {
-- 
2.43.0

