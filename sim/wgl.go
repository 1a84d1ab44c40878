package main

// Linearizability of a history against a state that fits a word.

type lop struct {
	inv, ret int64
	step     func(state uint64) (uint64, bool) // next state, and whether the recorded result fits
	rec      *Rec
}

type lkey struct {
	done  [4]uint64
	state uint64
}

// linearizable searches for an order of the operations that respects real time
// and explains every result. ok is false when the search was given up; stuck is
// then or on failure the longest explained prefix.
func linearizable(ops []lop, init uint64, limit int) (found, ok bool, stuck *Rec) {
	if len(ops) > 256 {
		return true, false, nil
	}
	seen := map[lkey]bool{}
	var k lkey
	k.state = init
	best, nbest := (*Rec)(nil), -1
	steps := 0
	var dfs func(k lkey, n int) bool
	dfs = func(k lkey, n int) bool {
		if n == len(ops) {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		steps++
		if steps > limit {
			return false
		}
		// An operation may come next if no other pending one returned before
		// it was invoked.
		first := int64(1) << 62
		for i := range ops {
			if k.done[i>>6]>>(i&63)&1 == 0 && ops[i].ret < first {
				first = ops[i].ret
			}
		}
		for i := range ops {
			if k.done[i>>6]>>(i&63)&1 == 1 || ops[i].inv > first {
				continue
			}
			st, fits := ops[i].step(k.state)
			if !fits {
				if n > nbest {
					nbest, best = n, ops[i].rec
				}
				continue
			}
			nk := k
			nk.done[i>>6] |= 1 << (i & 63)
			nk.state = st
			if dfs(nk, n+1) {
				return true
			}
		}
		return false
	}
	if dfs(k, 0) {
		return true, true, nil
	}
	if steps > limit {
		return true, false, best
	}
	return false, true, best
}
