package props

// The operations with goroutines of their own, under the race detector: no memory is shared without synchronisation.
func init() {
	raced := func(j Job, preempt int) Job {
		j.Cfg.Race, j.Cfg.Preempt = true, preempt
		j.Name += "-race"
		j.Bound += "; race detection, "
		if preempt < 0 {
			j.Bound += "all interleavings"
		} else {
			j.Bound += "at most " + itoa(preempt) + " scheduling decisions off the default"
		}
		return j
	}
	more("C16", func(thorough bool) []Job {
		var l []Job
		what := "arbitrary contents and identity"
		for _, k := range allKinds {
			r, c := shape(k, 2, 2)
			l = append(l, raced(mk("C16", "add", "int8", []string{k}, false, what, 2, 1), -1), raced(mk("C16", "default-scalar", "int8", []string{k}, false, what, r, c), 1))
			if !isVec(k) {
				l = append(l, raced(mk("C16", "vector-max", "int8", []string{k}, false, what, 1, 2), -1), raced(mk("C16", "default-vector", "int8", []string{k}, false, what, 2, 2), 1))
			}
		}
		return l
	})
	more("C17", func(thorough bool) []Job {
		var l []Job
		p := 1
		if thorough {
			p = 2
		}
		for _, how := range []string{"poll", "async"} {
			w := "arbitrary operands; context cancelled from its k-th poll on, every k"
			if how == "async" {
				w = "arbitrary operands; context cancelled by another goroutine at any moment"
			}
			for _, k := range matKinds {
				l = append(l, raced(mk("C17", "reduce", "int8", []string{k, "-", "-", how}, false, w, 2, 1, 1), p),
					raced(mk("C17", "reduce-vector", "int8", []string{k, "-", "-", how}, false, w, 2, 1, 1), p),
					raced(mk("C17", "strassen", "int8", []string{k, "dense", "-", how}, false, w, 2, 1, 2), p),
					raced(mk("C17", "bfs", "uint8", []string{k, "-", "-", how}, false, w, 2, 1, 2), p))
			}
			for _, op := range destOps {
				l = append(l, raced(mk("C17", op, "int8", append(opCombos(op)[0], how), false, w, 1, 1, 1), 0))
			}
		}
		return l
	})
	more("C22", func(thorough bool) []Job {
		var l []Job
		for _, k := range combos(matKinds, 2) {
			for j, s := range [][2]int{{4, 2}, {4, 1}, {6, 3}} {
				if j > 0 && k[0] != k[1] && !thorough {
					continue
				}
				l = append(l, raced(mk("C22", "pat", "int16", k, false, "patterns of stored cells, one arbitrary value among constants in each operand (rows, inner, columns, crossover)", s[0], s[0], s[0], s[1]), 0))
			}
		}
		l = append(l, raced(mk("C22", "", "float64", []string{"dense", "dense"}, true, "arbitrary operands (rows, inner, columns, crossover)", 2, 2, 2, 1), 1))
		return l
	})
}
