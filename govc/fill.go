package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Fill templates: when an iteration stores into an array row at an index that moves with the iteration
// count, propose that all positions passed so far hold the value stored for them and that all others are
// as they were. The proposals are candidates like any other: kept only if they are proved inductive.

// substAll replaces free variables; ok is false when a variable made inside the loop body remains.
func (ex *Exec) substAll(t *Term, sub map[*Term]*Term, mark int, memo map[*Term]*Term) (*Term, bool) {
	ok := true
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, in := sub[t]; in {
			return r
		}
		if r, in := memo[t]; in {
			return r
		}
		if t.op == "var" && !t.bound && t.id > mark && strings.Contains(t.name, "!") {
			ok = false
		}
		if len(t.args) == 0 {
			return t
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = walk(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = ex.c.Rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	r := walk(t)
	return r, ok
}

type fillStore struct{ idx, val *Term }

// storesOn lists the stores that make nv from base, oldest first.
func storesOn(nv, base *Term) ([]fillStore, bool) {
	var r []fillStore
	for nv != base {
		if nv.op != "store" {
			return nil, false
		}
		r = append([]fillStore{{nv.args[1], nv.args[2]}}, r...)
		nv = nv.args[0]
	}
	return r, true
}

type fillRow struct {
	name string
	get  func(st *State) *Term
}

// fillCands proposes candidates for one row. paths are the states at the back edges with the conditions
// under which they are reached.
func (ex *Exec) fillCands(row fillRow, entry *Term, hst *State, paths []*State, pc0 int, sub map[*Term]*Term, m *Term, mark int, add func(*cand)) {
	c := ex.c
	hv := row.get(hst)
	if hv == entry {
		return
	}
	sb := map[*Term]*Term{}
	for k, v := range sub {
		sb[k] = v
	}
	sb[hv] = entry
	memo := map[*Term]*Term{}
	type ps struct {
		idx, val, cond *Term
		e              *Term
		d              *big.Int
	}
	var all []ps
	var d *big.Int
	var los []*Term
	condOK := true
	for _, p := range paths {
		st, ok := storesOn(row.get(p), hv)
		if !ok {
			debugf("    fill %s: not a chain of stores", row.name)
			return
		}
		cond := c.tTrue
		for _, t := range p.pc[min(pc0, len(p.pc)):] {
			if t.quant {
				continue
			}
			if x, ok := ex.substAll(t, sb, mark, memo); ok {
				cond = c.And(cond, x)
			} else {
				condOK = false
			}
		}
		for _, s := range st {
			i, ok := ex.substAll(s.idx, sb, mark, memo)
			if !ok {
				debugf("    fill %s: index varies", row.name)
				return
			}
			e, _ := ex.substAll(i, map[*Term]*Term{m: c.zero}, 1<<60, map[*Term]*Term{})
			e1, _ := ex.substAll(i, map[*Term]*Term{m: c.one}, 1<<60, map[*Term]*Term{})
			dd := c.Sub(e1, e)
			if !dd.isConst() || dd.c.Sign() == 0 || c.Sub(i, c.Add(e, c.MulK(m, dd.c))) != c.zero {
				return
			}
			if d != nil && d.Cmp(dd.c) != 0 {
				return
			}
			d = dd.c
			v, ok := ex.substAll(s.val, sb, mark, memo)
			if !ok {
				debugf("    fill %s: value varies", row.name)
				v = nil
			}
			los = append(los, e)
			all = append(all, ps{i, v, cond, e, dd.c})
		}
	}
	if d == nil {
		return
	}
	debugf("    fill %s: %d stores", row.name, len(all))
	// the range [lo,hi) of offsets touched by one iteration, relative to the first store
	lo, hi := big.NewInt(0), big.NewInt(0)
	for _, e := range los {
		k := c.Sub(e, los[0])
		if !k.isConst() {
			return
		}
		if k.c.Cmp(lo) < 0 {
			lo = k.c
		}
		if k.c.Cmp(hi) > 0 {
			hi = k.c
		}
	}
	first := c.Add(los[0], c.Big(lo))
	last := c.Add(los[0], c.Big(hi))
	x := c.BoundVar("x", SInt)
	add(&cand{name: "fill frame " + row.name, eval: func(st *State, fr *Frame, m *Term) *Term {
		r := row.get(st)
		var out *Term
		if d.Sign() > 0 {
			out = c.Or(c.Lt(x, first), c.Gt(x, c.Add(last, c.MulK(c.AddK(m, -1), d))))
		} else {
			out = c.Or(c.Gt(x, last), c.Lt(x, c.Add(first, c.MulK(c.AddK(m, -1), d))))
		}
		if r == entry {
			return c.tTrue
		}
		return c.And(c.Forall([]*Term{x}, c.Implies(out, c.Eq(c.Select(st.decide, r, x), c.Select(st.decide, entry, x)))))
	}})
	for k, s := range all {
		s := s
		if s.val == nil {
			continue
		}
		single := true
		for _, o := range all {
			single = single && (o.e != s.e || o.val == s.val)
		}
		j := c.BoundVar("j", SInt)
		mk := func(cond *Term) func(st *State, fr *Frame, mm *Term) *Term {
			return func(st *State, fr *Frame, mm *Term) *Term {
				r := row.get(st)
				if d.IsInt64() && d.Int64() == 1 {
					jj := c.Sub(j, s.e)
					v, _ := ex.substAll(s.val, map[*Term]*Term{m: jj}, 1<<60, map[*Term]*Term{})
					cd, _ := ex.substAll(cond, map[*Term]*Term{m: jj}, 1<<60, map[*Term]*Term{})
					return c.Forall([]*Term{j}, c.Implies(c.And(c.Le(s.e, j), c.Lt(j, c.Add(s.e, mm)), cd), c.Eq(c.Select(st.decide, r, j), v)))
				}
				v, _ := ex.substAll(s.val, map[*Term]*Term{m: j}, 1<<60, map[*Term]*Term{})
				cd, _ := ex.substAll(cond, map[*Term]*Term{m: j}, 1<<60, map[*Term]*Term{})
				return c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.zero, j), c.Lt(j, mm), cd), c.Eq(c.Select(st.decide, r, c.Add(s.e, c.MulK(j, d))), v)))
			}
		}
		if single {
			add(&cand{name: fmt.Sprintf("fill %s %d", row.name, k), user: true, eval: mk(c.tTrue)})
		} else if condOK {
			add(&cand{name: fmt.Sprintf("fill %s %d cond", row.name, k), user: true, eval: mk(s.cond)})
		}
	}
}
