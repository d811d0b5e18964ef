package props

import (
	"reflect"

	gb "github.com/rossmerr/graphblas"
)

// A caller's own matrix types: a dense one, and a sparse one it registers.
type userMatrix[T Num] struct{ gb.Matrix[T] }
type userSparse[T Num] struct{ *gb.CSRMatrix[T] }

var userRegistered bool

func newUserSparse[T Num](r, c int) gb.Matrix[T] {
	if !userRegistered {
		userRegistered = true
		gb.RegisterMatrix(reflect.TypeOf(userSparse[float64]{}))
	}
	return &userSparse[T]{gb.NewCSRMatrix[T](r, c)}
}

func init() {
	own := func(l []Job) []Job {
		for i := range l {
			l[i].Bound += " (udense, usparse: a caller's own matrix types)"
		}
		return l
	}
	arb := "arbitrary operands"
	users := []string{"udense", "usparse"}
	more("C07", func(thorough bool) []Job {
		var l []Job
		for _, u := range users {
			for _, k := range append(matKinds, users...) {
				l = append(l, mk("C07", "pair", "int8", []string{u, k}, false, "two containers with arbitrary contents", 2, 2, 2, 2), mk("C07", "pair", "int8", []string{k, u}, false, "two containers with arbitrary contents", 1, 3, 1, 3))
			}
		}
		return own(l)
	})
	more("C08", func(thorough bool) []Job {
		var l []Job
		for _, u := range users {
			for i, k := range matKinds {
				n := matKinds[(i+1)%3]
				l = append(l, mk("C08", "func", "int8", []string{u, k, n}, false, arb, 2, 2, 1), mk("C08", "func", "int8", []string{k, u, u}, false, arb, 1, 2, 2), mk("C08", "method", "int8", []string{k, u}, false, arb, 2, 1, 2))
			}
		}
		return own(l)
	})
	more("C10", func(thorough bool) []Job {
		var l []Job
		for _, op := range []string{"add", "sub"} {
			for _, u := range users {
				for i, k := range matKinds {
					n := matKinds[(i+1)%3]
					l = append(l, mk("C10", op, "int8", []string{u, k, n}, false, arb+", cleared destination", 2, 2), mk("C10", op, "int8", []string{k, u, u}, false, arb+", cleared destination", 1, 3), mk("C10", op+"-method", "int8", []string{k, u}, false, arb, 2, 2))
				}
			}
		}
		return own(l)
	})
	more("C11", func(thorough bool) []Job {
		var l []Job
		for _, u := range users {
			l = append(l, mk("C11", "scalar", "int8", []string{u}, false, "arbitrary contents and scalar", 2, 2), mk("C11", "negative", "int8", []string{u}, false, "arbitrary contents and scalar", 2, 2))
		}
		return own(l)
	})
	more("C12", func(thorough bool) []Job {
		var l []Job
		for _, u := range users {
			l = append(l, mk("C12", "", "int8", []string{u}, false, "arbitrary contents; method, method twice, to CSR, to CSC, and the function into each cleared format", 2, 3))
		}
		return own(l)
	})
	more("C13", func(thorough bool) []Job {
		var l []Job
		for _, op := range []string{"mult", "merge"} {
			for _, u := range users {
				for i, k := range matKinds {
					n := matKinds[(i+1)%3]
					l = append(l, mk("C13", op, "int8", []string{u, k, n}, false, arb+", cleared destination", 2, 2), mk("C13", op, "int8", []string{k, u, u}, false, arb+", cleared destination", 1, 3), mk("C13", op+"-inplace", "int8", []string{u, k}, false, arb+", destination is an operand", 2, 2))
				}
			}
		}
		return own(l)
	})
	more("C14", func(thorough bool) []Job {
		var l []Job
		for _, op := range destOps {
			a, b, d := opKinds(op)
			for i, u := range users {
				k := []string{a[i], b[i%len(b)], d[2*i%len(d)], u}
				if d[0] == "dvec" { // a mask of the user's only
					l = append(l, mk("C14", op, "int8", k, false, "arbitrary operands, destination contents and mask, compared with the unmasked run on the same destination contents", 2, 1, 1))
					continue
				}
				k[0], k[2] = u, users[1-i]
				if op == "mxm" {
					k[2] = u
				}
				l = append(l, mk("C14", op, "int8", k, false, "arbitrary operands, destination contents and mask, compared with the unmasked run on the same destination contents", 2, 1, 1), mk("C14", op, "int8", append(k[:3:3], "bool"), false, "arbitrary operands, destination contents and mask, compared with the unmasked run on the same destination contents", 1, 2, 2))
			}
		}
		return own(l)
	})
	more("C15", func(thorough bool) []Job {
		var l []Job
		for _, u := range users {
			l = append(l, mk("C15", "inplace", "int8", []string{u}, true, "arbitrary contents, arbitrary operator given by its results on the elements; in place", 2, 2), mk("C15", "into", "int8", []string{u, "csc"}, true, "arbitrary contents, arbitrary operator given by its results on the elements; cleared destination", 2, 2), mk("C15", "into", "int8", []string{"csr", u}, true, "arbitrary contents, arbitrary operator given by its results on the elements; cleared destination", 2, 2))
		}
		return own(l)
	})
	more("C16", func(thorough bool) []Job {
		var l []Job
		for _, u := range users {
			l = append(l, mk("C16", "add", "int8", []string{u}, false, "arbitrary contents and identity; all interleavings", 2, 1), mk("C16", "default-vector", "int8", []string{u}, false, "arbitrary contents; all interleavings", 1, 2))
		}
		return own(l)
	})
	more("C24", func(thorough bool) []Job {
		var l []Job
		for _, u := range users {
			l = append(l, mk("C24", "symmetric", "int8", []string{u}, false, "arbitrary contents", 3, 3), mk("C24", "skew", "int8", []string{u}, false, "arbitrary contents", 2, 2))
		}
		return own(l)
	})
}
