package kit

// LinOp is an operation of a concurrent history, with when it was invoked and
// when it returned.
type LinOp struct {
	Inv, Res int64
	// Step applies the operation to a state. It returns false if the result
	// the operation had is not the one the state dictates.
	Step func(state interface{}) (next interface{}, ok bool)
}

// Linearizable decides whether the history has a one-at-a-time ordering that
// is consistent with real time and explains every result. final, if not nil,
// decides whether the state at the end is right. States must be comparable.
// At most 64 operations.
func Linearizable(init interface{}, ops []LinOp, final func(state interface{}) bool) bool {
	type node struct {
		done  uint64
		state interface{}
	}
	seen := map[node]bool{}
	all := uint64(1)<<uint(len(ops)) - 1
	var search func(done uint64, state interface{}) bool
	search = func(done uint64, state interface{}) bool {
		if done == all {
			return final == nil || final(state)
		}
		n := node{done, state}
		if seen[n] {
			return false
		}
		seen[n] = true
		// an operation may come next if no other pending one returned before
		// it was invoked
		first := int64(1) << 62
		for i, op := range ops {
			if done&(1<<uint(i)) == 0 && op.Res < first {
				first = op.Res
			}
		}
		for i, op := range ops {
			if done&(1<<uint(i)) != 0 || op.Inv > first {
				continue
			}
			if next, ok := op.Step(state); ok && search(done|1<<uint(i), next) {
				return true
			}
		}
		return false
	}
	return search(0, init)
}
