package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	uses   []ssa.Value // values defined outside and used inside
}

type loopRun struct {
	lp    *Loop
	outer *loopRun
	m     *Term
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	r := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range r {
		seen := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					v := *op
					if v == nil || seen[v] {
						continue
					}
					seen[v] = true
					switch x := v.(type) {
					case *ssa.Parameter, *ssa.FreeVar:
						l.uses = append(l.uses, v)
					case ssa.Instruction:
						if !l.blocks[x.Block()] {
							l.uses = append(l.uses, v)
						}
					}
				}
			}
		}
	}
	return r
}

// enterHeader arrives at a loop header.
func (ex *Exec) enterHeader(st *State, fr *Frame, lp *Loop, prev *ssa.BasicBlock) []Outcome {
	h := lp.header
	if lp.blocks[prev] {
		if fr.cut[h] {
			return []Outcome{{kind: OBack, st: st, fr: fr, loop: h, from: prev}}
		}
		fr.iter[h]++
	} else {
		fr.iter[h] = 0
		delete(fr.cut, h)
	}
	lim := 40
	if st.spec {
		lim = 100
	}
	if fr.iter[h] < lim && ex.peelable(st, fr, lp, prev) {
		ex.phis(fr, h, prev)
		return ex.runFrom(st, fr, h, 0, prev)
	}
	if st.spec {
		unsup("unbounded loop inside a specification (%s)", fr.fn)
	}
	if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok && !lp.blocks[prev] {
		// an error that ends the loop: with and without one at first
		if ph := flagOf(iff.Cond); ph != nil && isErrorType(ph.Type()) && lp.isFlag(ph) {
			f := fr.clone()
			ex.phis(f, h, prev)
			t := ex.flagVal(f.env[ph])
			var edge ssa.Value
			for i, b := range h.Preds {
				if b == prev {
					edge = ph.Edges[i]
				}
			}
			if _, isConst := edge.(*ssa.Const); !t.isTrue() && !t.isFalse() && edge != nil && !isConst {
				set, unset := st.clone(), st
				set.assume(t)
				unset.assume(ex.c.Not(t))
				var outs []Outcome
				if ex.feasible(set) {
					outs = append(outs, ex.runFrom(set, f, h, 0, prev)...)
				}
				if ex.feasible(unset) {
					f := fr.clone()
					f.env[edge] = nilIface(ex.c)
					outs = append(outs, ex.cutLoop(unset, f, lp, prev)...)
				}
				return outs
			}
		}
	}
	return ex.cutLoop(st, fr, lp, prev)
}

// flagOf returns the variable a condition is, possibly negated.
func flagOf(v ssa.Value) *ssa.Phi {
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			return x
		case *ssa.UnOp:
			if x.Op != token.NOT {
				return nil
			}
			v = x.X
		case *ssa.BinOp:
			if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil && (x.Op == token.EQL || x.Op == token.NEQ) && isErrorType(x.X.Type()) {
				v = x.X
				continue
			}
			return nil
		default:
			return nil
		}
	}
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// flagVal is the value of a flag: a boolean, or whether an error is set.
func (ex *Exec) flagVal(v Val) *Term {
	if e, ok := v.(*IfaceV); ok {
		return ex.c.Not(ex.c.Eq(e.tag, ex.c.zero))
	}
	return termOf(v)
}

// isFlag reports whether ph is a boolean variable of the loop which has a constant value at first and which may end it,
// or an error that may end it.
func (lp *Loop) isFlag(ph *ssa.Phi) bool {
	if ph == nil || ph.Block() != lp.header {
		return false
	}
	if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		for i, e := range ph.Edges {
			if _, ok := e.(*ssa.Const); !ok && !lp.blocks[lp.header.Preds[i]] {
				return false
			}
		}
	} else if !isErrorType(ph.Type()) {
		return false
	}
	for b := range lp.blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && flagOf(iff.Cond) == ph && lp.blocks[b.Succs[0]] != lp.blocks[b.Succs[1]] {
			return true
		}
	}
	return false
}

// peelable reports whether the loop condition is a constant for the coming iteration.
func (ex *Exec) peelable(st *State, fr *Frame, lp *Loop, prev *ssa.BasicBlock) bool {
	h := lp.header
	hasCall := false
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Extract, *ssa.DebugRef, *ssa.Field, *ssa.IndexAddr:
			if u, ok := x.(*ssa.UnOp); ok && u.Op.String() == "<-" {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				if f := x.Call.StaticCallee(); f == nil || len(f.Blocks) > 8 {
					return false
				}
				hasCall = true
			}
		default:
			return false
		}
	}
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	if lp.blocks[h.Succs[0]] == lp.blocks[h.Succs[1]] {
		return false // the header's condition does not decide about leaving the loop
	}
	if ph := flagOf(h.Instrs[len(h.Instrs)-1].(*ssa.If).Cond); !st.spec && lp.isFlag(ph) {
		if !isErrorType(ph.Type()) {
			return false // the condition is what the body says last
		}
		f := fr.clone()
		ex.phis(f, h, prev)
		if ex.flagVal(f.env[ph]).isFalse() {
			return false
		}
	}
	s0, f0 := st.clone(), fr.clone()
	ex.suppress++
	if !hasCall {
		ex.noInc++
	}
	defer func() {
		ex.suppress--
		if !hasCall {
			ex.noInc--
		}
	}()
	ex.phis(f0, h, prev)
	type sf struct {
		s *State
		f *Frame
	}
	cur := []sf{{s0, f0}}
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if x, ok := in.(*ssa.If); ok {
			for _, p := range cur {
				c := termOf(ex.val(p.f, x.Cond))
				if !c.isTrue() && !c.isFalse() || c != termOf(ex.val(cur[0].f, x.Cond)) {
					return false
				}
				// a long counting loop is cut at once
				if b, ok := x.Cond.(*ssa.BinOp); ok && p.f.iter[h] == 0 && !p.s.spec {
					if u, ok := ex.val(p.f, b.X).(*Term); ok && u.isConst() {
						if v, ok := ex.val(p.f, b.Y).(*Term); ok && v.isConst() && new(big.Int).Abs(new(big.Int).Sub(u.c, v.c)).Cmp(big.NewInt(40)) > 0 {
							return false
						}
					}
				}
			}
			return len(cur) > 0
		}
		var next []sf
		for _, p := range cur {
			outs, simple := ex.step(p.s, p.f, in)
			if simple {
				if p.s.dead {
					continue
				}
				next = append(next, p)
				continue
			}
			for _, o := range outs {
				if o.kind != OReturn {
					return false
				}
				f := p.f
				if len(outs) > 1 {
					f = f.clone()
				}
				if v, ok := in.(ssa.Value); ok {
					f.env[v] = o.val
				}
				next = append(next, sf{o.st, f})
			}
		}
		cur = next
		if len(cur) > 6 {
			return false
		}
	}
	return false
}

type havoc struct {
	whole    bool
	split    bool
	rows     []*Term
	wholeVar *Term
	splitVar *Term
	rowVars  []*Term
}

type cand struct {
	leaf  string // what it gives the value of, if it does
	val   *Term
	fixed bool // the value has been put in place
	name  string
	eval  func(st *State, fr *Frame, m *Term) *Term
	user  bool
}

type phiMode int

const (
	phiFixed phiMode = iota
	phiInduct
	phiHavoc
)

type phiInfo struct {
	ph    *ssa.Phi
	mode  phiMode
	entry Val
	delta *big.Int
	cur   Val // havocked value
}

type invTempl struct {
	fn    *FuncV
	types []types.Type
	fr    *Frame
}

// keyVar makes the fresh variable that replaces a heap key's content.
func (ex *Exec) keyVar(key string, drop int) *Term {
	ki := ex.keyLeaf[key]
	s := ki.l.sort
	for i := 0; i < ki.dim-drop; i++ {
		s = arrOf(s)
	}
	lo, hi := ki.l.lo, ki.l.hi
	if ki.l.sort != SInt {
		lo, hi = nil, nil
	}
	return ex.c.Fresh("h:"+key, s, lo, hi)
}

func (ex *Exec) invariantTerm(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "var" && t.id > mark && strings.Contains(t.name, "!") {
			return false
		}
		for _, a := range t.args {
			if !walk(a) {
				return false
			}
		}
		return true
	}
	return walk(t)
}

// stability note: an index is loop-invariant when it mentions no variable created inside the loop.

func (ex *Exec) cutLoop(st0 *State, fr0 *Frame, lp *Loop, prev *ssa.BasicBlock) (outs []Outcome) {
	if !ex.noFlags[lp.header] {
		s, f, sup, noInc := st0.clone(), fr0.clone(), ex.suppress, ex.noInc
		defer func() {
			if r := recover(); r != nil {
				if rl, ok := r.(retryLoop); !ok || rl.lp != lp {
					panic(r)
				}
				ex.suppress, ex.noInc = sup, noInc
				outs = ex.cutLoop1(s, f, lp, prev)
			}
		}()
	}
	return ex.cutLoop1(st0, fr0, lp, prev)
}

func (ex *Exec) cutLoop1(st0 *State, fr0 *Frame, lp *Loop, prev *ssa.BasicBlock) []Outcome {
	c := ex.c
	h := lp.header
	t0 := time.Now()
	ex.loops++
	ex.phis(fr0, h, prev)
	m := c.Fresh("m", SInt, big.NewInt(0), maxIter)
	mark := c.n
	cells0 := ex.cells
	var phis []*phiInfo
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pi := &phiInfo{ph: ph, entry: fr0.env[ph]}
		if d := inductDelta(lp, ph); d != nil {
			pi.mode = phiInduct
			pi.delta = d
		}
		phis = append(phis, pi)
	}
	mod := map[string]*havoc{}
	nextMod := false
	nextVar := (*Term)(nil)
	entryNext := st0.nextID
	var cands []*cand
	have := map[string]bool{}
	where := ex.pos(nil, h.Instrs[0].Pos())
	if h.Instrs[0].Pos() == 0 {
		where = fr0.pos
	}

	oldVal := func(key string) *Term {
		ki, ok := ex.keyLeaf[key]
		if !ok {
			panic("no leaf info for " + key)
		}
		if t, ok := st0.heap[key]; ok {
			return t
		}
		if strings.HasPrefix(key, "C|") {
			return ex.zeroLeaf(ki.l)
		}
		return ex.heapArr(st0, key, ki.l, ki.dim)
	}

	mk := func(withCands bool) (*State, *Frame) {
		st, fr := st0.clone(), fr0.clone()
		fr.cut[h] = true
		fr.expl = &loopRun{lp, fr0.expl, m}
		st.inLoop = true
		if nextMod {
			if nextVar == nil {
				nextVar = c.Fresh("next", SInt, big.NewInt(allocBase), nil)
			}
			st.nextID = nextVar
			st.assume(c.Le(entryNext, nextVar))
		}
		keys := make([]string, 0, len(mod))
		for k := range mod {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			hv := mod[k]
			if hv.whole {
				if hv.wholeVar == nil {
					hv.wholeVar = ex.keyVar(k, 0)
				}
				st.heap[k] = hv.wholeVar
				if ki := ex.keyLeaf[k]; ki.dim == 0 && ki.l.kind == 'r' && ki.l.sort == SInt {
					st.assume(c.Lt(hv.wholeVar, st.nextID)) // what a variable refers to exists before the iteration
				}
				continue
			}
			v := oldVal(k)
			if hv.split {
				if hv.splitVar == nil {
					hv.splitVar = ex.keyVar(k, 0)
				}
				v = c.Split(v, hv.splitVar, entryNext)
			}
			for i, r := range hv.rows {
				if i >= len(hv.rowVars) {
					hv.rowVars = append(hv.rowVars, ex.keyVar(k, 1))
				}
				v = c.Store(v, r, hv.rowVars[i])
				if ki := ex.keyLeaf[k]; ki.dim == 1 && ki.l.kind == 'r' && ki.l.sort == SInt && hv.rowVars[i].sort == SInt {
					st.assume(c.Lt(hv.rowVars[i], st.nextID))
				}
			}
			st.heap[k] = v
		}
		for _, p := range phis {
			switch p.mode {
			case phiFixed:
				fr.env[p.ph] = p.entry
			case phiInduct:
				fr.env[p.ph] = c.Add(termOf(p.entry), c.MulK(m, p.delta))
			case phiHavoc:
				if p.cur == nil {
					p.cur = ex.freshVal(st, "phi:"+p.ph.Comment, p.ph.Type())
				}
				fr.env[p.ph] = p.cur
				ex.assumeValid(st, p.ph.Type(), p.cur)
			}
		}
		if withCands {
			for _, cd := range cands {
				st.assume(cd.eval(st, fr, m))
			}
		}
		return st, fr
	}
	phiAt := func(o Outcome) *Frame { // frame at the next header visit
		f := o.fr.clone()
		ex.phis(f, h, o.from)
		return f
	}

	safe := func(f func() *Term) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					debugf("  loop %s: candidate not evaluable: %v", where, u)
					t = nil
					return
				}
				panic(r)
			}
		}()
		return f()
	}
	addCand := func(cd *cand) {
		if have[cd.name] {
			return
		}
		have[cd.name] = true
		// must hold on entry, and be evaluable
		t := safe(func() *Term { return cd.eval(st0, fr0, c.zero) })
		if t == nil || !ex.proveQuick(st0, t) {
			if cd.user {
				debugf("  loop %s: candidate %s fails on entry: %v", where, cd.name, t)
			}
			return
		}
		s, f := mk(false)
		if safe(func() *Term { return cd.eval(s, f, m) }) == nil {
			return
		}
		cands = append(cands, cd)
	}
	leafCands := func(name string, l Leaf, get func(st *State, fr *Frame) *Term) {
		entry := safe(func() *Term { return get(st0, fr0) })
		if entry == nil {
			return
		}
		if l.sort == SInt && l.kind != 'r' {
			addCand(&cand{name: name + ">=entry", eval: func(st *State, fr *Frame, m *Term) *Term { return c.Ge(get(st, fr), entry) }})
			addCand(&cand{name: name + "<=entry", eval: func(st *State, fr *Frame, m *Term) *Term { return c.Le(get(st, fr), entry) }})
		}
		if l.kind == 'r' {
			addCand(&cand{name: name + " entry or new", eval: func(st *State, fr *Frame, m *Term) *Term {
				v := get(st, fr)
				return c.Or(c.Eq(v, entry), c.Le(entryNext, v))
			}})
		}
		addCand(&cand{name: name + "==entry", leaf: name, val: entry, eval: func(st *State, fr *Frame, m *Term) *Term { return c.Eq(get(st, fr), entry) }})
	}
	phiLeafGetter := func(p *phiInfo, i int) func(st *State, fr *Frame) *Term {
		return func(st *State, fr *Frame) *Term { return ex.flat(st, p.ph.Type(), fr.env[p.ph])[i] }
	}
	// auto candidates for one havocked phi or key
	genPhi := func(p *phiInfo) {
		for i, l := range leaves(p.ph.Type()) {
			leafCands("phi "+p.ph.Name()+l.path, l, phiLeafGetter(p, i))
		}
	}
	deltaCand := func(name string, get func(st *State, fr *Frame) *Term, d *big.Int) {
		entry := safe(func() *Term { return get(st0, fr0) })
		if entry == nil {
			return
		}
		addCand(&cand{name: fmt.Sprintf("%s==entry+%s*m", name, d), leaf: name, val: c.Add(entry, c.MulK(m, d)), eval: func(st *State, fr *Frame, m *Term) *Term {
			return c.Eq(get(st, fr), c.Add(entry, c.MulK(m, d)))
		}})
	}
	keyGetter := func(k string, row *Term) func(st *State, fr *Frame) *Term {
		ki := ex.keyLeaf[k]
		return func(st *State, fr *Frame) *Term {
			var a *Term
			if t, ok := st.heap[k]; ok {
				a = t
			} else if strings.HasPrefix(k, "C|") {
				a = ex.zeroLeaf(ki.l)
			} else {
				a = ex.heapArr(st, k, ki.l, ki.dim)
			}
			if row != nil {
				return c.Select(st.decide, a, row)
			}
			return a
		}
	}
	genKey := func(k string) {
		ki := ex.keyLeaf[k]
		hv := mod[k]
		if ki.dim == 0 {
			leafCands(k, ki.l, keyGetter(k, nil))
		}
		if ki.dim == 1 && !hv.whole {
			for _, r := range hv.rows {
				leafCands(fmt.Sprintf("%s[%d]", k, r.id), ki.l, keyGetter(k, r))
			}
		}
	}
	// exit-condition candidates are derived from comparisons in the header
	genCond := func() {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			return
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return
		}
		evalCond := func(st *State, fr *Frame) *Term {
			ex.suppress++
			ex.noInc++
			defer func() { ex.suppress--; ex.noInc-- }()
			s, f := st.clone(), fr.clone()
			s.spec = true
			for _, in := range h.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if in == ssa.Instruction(iff) {
					break
				}
				outs, simple := ex.step(s, f, in)
				if !simple {
					if len(outs) != 1 {
						unsup("header")
					}
					s = outs[0].st
					if v, ok := in.(ssa.Value); ok {
						f.env[v] = outs[0].val
					}
				}
			}
			return termOf(ex.val(f, bo))
		}
		for _, k := range []int64{1, 2} {
			k := k
			addCand(&cand{name: fmt.Sprintf("cond+%d", k), eval: func(st *State, fr *Frame, m *Term) *Term {
				t := evalCond(st, fr)
				if t.op == ">=0" {
					return c.geZero(c.AddK(t.args[0], k))
				}
				return c.tTrue
			}})
			addCand(&cand{name: fmt.Sprintf("m=0 or cond+%d", k), eval: func(st *State, fr *Frame, m *Term) *Term {
				t := evalCond(st, fr)
				if t.op == ">=0" {
					return c.Or(c.Eq(m, c.zero), c.geZero(c.AddK(t.args[0], k)))
				}
				return c.tTrue
			}})
		}
	}
	genPairs := func() {
		type ag struct {
			name string
			get  func(st *State, fr *Frame) *Term
		}
		var as []ag
		for _, p := range phis {
			if p.mode == phiHavoc {
				for i, l := range leaves(p.ph.Type()) {
					if strings.HasSuffix(l.path, ".a") && l.kind == 'r' {
						as = append(as, ag{"phi " + p.ph.Name() + l.path, phiLeafGetter(p, i)})
					}
				}
			}
		}
		keys := sortedKeys(mod)
		for _, k := range keys {
			ki := ex.keyLeaf[k]
			if ki.l.kind != 'r' || !strings.HasSuffix(k, ".a") {
				continue
			}
			if ki.dim == 0 {
				as = append(as, ag{k, keyGetter(k, nil)})
			}
			if ki.dim == 1 && !mod[k].whole {
				for _, r := range mod[k].rows {
					as = append(as, ag{fmt.Sprintf("%s[%d]", k, r.id), keyGetter(k, r)})
				}
			}
		}
		if len(as) > 8 {
			as = as[:8]
		}
		// a flag records whether something has changed
		type lg struct {
			ag
			entry *Term
		}
		var flags, counts []lg
		addLeaf := func(name string, l Leaf, get func(st *State, fr *Frame) *Term) {
			if l.sort != SBool && (l.sort != SInt || l.kind != 0 && l.kind != 'w') {
				return
			}
			entry := safe(func() *Term { return get(st0, fr0) })
			if entry == nil {
				return
			}
			if l.sort == SBool {
				flags = append(flags, lg{ag{name, get}, entry})
			} else {
				counts = append(counts, lg{ag{name, get}, entry})
			}
		}
		for _, p := range phis {
			if p.mode == phiHavoc {
				for i, l := range leaves(p.ph.Type()) {
					addLeaf("phi "+p.ph.Name()+l.path, l, phiLeafGetter(p, i))
				}
			}
		}
		for _, k := range keys {
			ki := ex.keyLeaf[k]
			if ki.dim == 0 {
				addLeaf(k, ki.l, keyGetter(k, nil))
			}
			if ki.dim == 1 && !mod[k].whole {
				for _, r := range mod[k].rows {
					addLeaf(fmt.Sprintf("%s[%d]", k, r.id), ki.l, keyGetter(k, r))
				}
			}
		}
		if len(flags) <= 4 && len(counts) <= 12 {
			for _, b := range flags {
				for _, x := range counts {
					b, x := b, x
					addCand(&cand{name: b.name + " tells " + x.name, eval: func(st *State, fr *Frame, m *Term) *Term {
						return c.Eq(c.Eq(b.get(st, fr), b.entry), c.Eq(x.get(st, fr), x.entry))
					}})
				}
			}
		}
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				x, y := as[i], as[j]
				addCand(&cand{name: x.name + " # " + y.name, eval: func(st *State, fr *Frame, m *Term) *Term {
					u, v := x.get(st, fr), y.get(st, fr)
					return c.Or(c.Not(c.Eq(u, v)), c.Eq(u, c.zero))
				}})
			}
		}
	}
	genUser := func() {
		for ti, tp := range st0.invs {
			tp := tp
			var choices [][]argChoice
			for _, pt := range tp.types {
				choices = append(choices, ex.argChoices(lp, phis, mod, fr0, pt, m, cells0))
			}
			n := 0
			var rec func(i int, cur []argChoice)
			rec = func(i int, cur []argChoice) {
				if n > 80 {
					return
				}
				if i == len(choices) {
					n++
					cc := append([]argChoice{}, cur...)
					nm := fmt.Sprintf("inv%d", ti)
					for _, x := range cc {
						nm += "," + x.name
					}
					addCand(&cand{name: nm, user: true, eval: func(st *State, fr *Frame, m *Term) *Term {
						var args []Val
						for _, x := range cc {
							args = append(args, x.get(st, fr, m))
						}
						return termOf(ex.evalSpec(st, tp.fr, tp.fn, args))
					}})
					return
				}
				for _, ch := range choices[i] {
					rec(i+1, append(cur, ch))
				}
			}
			rec(0, nil)
		}
	}

	// closed forms of what the loop changes, as far as they are known
	genFill := func(outs []Outcome) {
		hst, hfr := mk(true)
		sub := map[*Term]*Term{}
		kept := map[string]*cand{}
		for _, cd := range cands {
			kept[cd.name] = cd
		}
		closed := func(name string, cur, entry *Term, d *big.Int) {
			if cur == entry || cur.op != "var" {
				return
			}
			sub[cur] = entry
			if d != nil && kept[fmt.Sprintf("%s==entry+%s*m", name, d)] != nil {
				sub[cur] = c.Add(entry, c.MulK(m, d))
			}
		}
		var back []*State
		var bfr []*Frame
		for _, o := range outs {
			if o.kind == OBack && o.loop == h {
				back = append(back, o.st)
				bfr = append(bfr, phiAt(o))
			}
		}
		if len(back) == 0 || len(back) > 6 {
			return
		}
		for _, k := range sortedKeys(mod) {
			ki := ex.keyLeaf[k]
			if ki.dim == 0 {
				g := keyGetter(k, nil)
				closed(k, g(hst, nil), g(st0, nil), guessDelta(c, g(back[0], nil), g(hst, nil)))
			} else if ki.dim == 1 && !mod[k].whole {
				for _, r := range mod[k].rows {
					g := keyGetter(k, r)
					var d *big.Int
					if ki.l.sort == SInt {
						d = guessDelta(c, g(back[0], nil), g(hst, nil))
					}
					closed(fmt.Sprintf("%s[%d]", k, r.id), g(hst, nil), g(st0, nil), d)
				}
			}
		}
		for _, p := range phis {
			if p.mode == phiHavoc {
				for i, l := range leaves(p.ph.Type()) {
					g := phiLeafGetter(p, i)
					var d *big.Int
					if l.sort == SInt {
						d = guessDelta(c, g(back[0], bfr[0]), g(hst, hfr))
					}
					closed("phi "+p.ph.Name()+l.path, g(hst, hfr), g(st0, fr0), d)
				}
			}
		}
		for _, k := range sortedKeys(mod) {
			ki := ex.keyLeaf[k]
			hv := mod[k]
			if ki.dim == 2 && !hv.whole {
				for _, r := range hv.rows {
					g := keyGetter(k, r)
					row := fillRow{fmt.Sprintf("%s[%d]", k, r.id), func(st *State) *Term { return g(st, nil) }}
					ex.fillCands(row, g(st0, nil), hst, back, len(hst.pc), sub, m, mark, addCand)
				}
			}
		}
	}

	// what changes by the same amount, what is the same, and what changes by an amount fixed before the loop
	genLinear := func(outs []Outcome) {
		type vg struct {
			name    string
			l       Leaf
			get     func(st *State, fr *Frame) *Term
			e, head *Term
			back    []*Term
			d       []*Term
			eqOnly  bool
		}
		var vs []*vg
		hst, hfr := mk(true)
		var bst []*State
		var bfr []*Frame
		for _, o := range outs {
			if o.kind == OBack && o.loop == h {
				bst = append(bst, o.st)
				bfr = append(bfr, phiAt(o))
			}
		}
		if len(bst) == 0 || len(bst) > 12 {
			return
		}
		add := func(name string, l Leaf, get func(st *State, fr *Frame) *Term) {
			if l.sort != SInt && l.sort != SStr || len(vs) > 60 {
				return
			}
			x := &vg{name: name, l: l, get: get}
			x.e = safe(func() *Term { return get(st0, fr0) })
			x.head = safe(func() *Term { return get(hst, hfr) })
			if x.e == nil || x.head == nil {
				return
			}
			x.eqOnly = l.sort != SInt || l.kind != 0 && l.kind != 'w'
			same := true
			for i := range bst {
				i := i
				b := safe(func() *Term { return get(bst[i], bfr[i]) })
				if b == nil {
					return
				}
				x.back = append(x.back, b)
				if !x.eqOnly {
					x.d = append(x.d, c.Sub(b, x.head))
				}
				same = same && b == x.head
			}
			if !same {
				vs = append(vs, x)
			}
		}
		for _, p := range phis {
			if p.mode == phiHavoc {
				for i, l := range leaves(p.ph.Type()) {
					add("phi "+p.ph.Name()+l.path, l, phiLeafGetter(p, i))
				}
			}
		}
		for _, k := range sortedKeys(mod) {
			ki := ex.keyLeaf[k]
			if ki.dim == 0 {
				add(k, ki.l, keyGetter(k, nil))
			}
			if ki.dim == 1 && !mod[k].whole {
				for _, r := range mod[k].rows {
					add(fmt.Sprintf("%s[%d]", k, r.id), ki.l, keyGetter(k, r))
				}
			}
		}
		for _, x := range vs {
			if x.eqOnly {
				continue
			}
			if min, max := deltaRange(x.d); min != nil && min.Cmp(max) != 0 {
				x := x
				addCand(&cand{name: fmt.Sprintf("%s<=entry+%s*m", x.name, max), eval: func(st *State, fr *Frame, m *Term) *Term {
					return c.Le(x.get(st, fr), c.Add(x.e, c.MulK(m, max)))
				}})
				addCand(&cand{name: fmt.Sprintf("%s>=entry+%s*m", x.name, min), eval: func(st *State, fr *Frame, m *Term) *Term {
					return c.Le(c.Add(x.e, c.MulK(m, min)), x.get(st, fr))
				}})
			}
			d, all := unwrapDelta(c, x.back[0], x.head), true
			for i, e := range x.d {
				all = all && (e == d || unwrapDelta(c, x.back[i], x.head) == d)
			}
			if all && d != nil && d != x.d[0] && x.l.lo != nil && x.l.hi != nil && !d.isConst() && ex.invariantTerm(d, mark) {
				x, d := x, d
				lo, n := c.Big(x.l.lo), c.Big(new(big.Int).Add(new(big.Int).Sub(x.l.hi, x.l.lo), big.NewInt(1)))
				addCand(&cand{name: fmt.Sprintf("%s==entry+m*(%d) wrapped", x.name, d.id), eval: func(st *State, fr *Frame, m *Term) *Term {
					return c.Eq(x.get(st, fr), c.Add(c.ModE(c.Sub(c.Add(x.e, c.Mul(m, d)), lo), n), lo))
				}})
			}
			d, all = x.d[0], true
			for _, e := range x.d {
				all = all && e == d
			}
			if all && !d.isConst() && ex.invariantTerm(d, mark) {
				x, d := x, d
				addCand(&cand{name: fmt.Sprintf("%s==entry+m*(%d)", x.name, d.id), eval: func(st *State, fr *Frame, m *Term) *Term {
					return c.Eq(x.get(st, fr), c.Add(x.e, c.Mul(m, d)))
				}})
			}
		}
		for i, x := range vs {
			for _, y := range vs[i+1:] {
				x, y := x, y
				if x.l.sort != y.l.sort || x.l.kind != y.l.kind {
					continue
				}
				if x.e == y.e {
					same := true
					for i := range bst {
						same = same && x.back[i] == y.back[i]
					}
					if same {
						addCand(&cand{name: x.name + "==" + y.name, eval: func(st *State, fr *Frame, m *Term) *Term {
							return c.Eq(x.get(st, fr), y.get(st, fr))
						}})
						continue
					}
				}
				if x.eqOnly || y.eqOnly {
					continue
				}
				up, down, fixed := true, true, true
				for i := range bst {
					up = up && x.d[i] == y.d[i]
					down = down && c.Add(x.d[i], y.d[i]) == c.zero
					fixed = fixed && x.d[i].isConst() && x.d[i] == x.d[0]
				}
				if fixed {
					continue // closed forms say it
				}
				if up {
					addCand(&cand{name: x.name + "-" + y.name, eval: func(st *State, fr *Frame, m *Term) *Term {
						return c.Eq(c.Sub(x.get(st, fr), y.get(st, fr)), c.Sub(x.e, y.e))
					}})
				}
				if down {
					addCand(&cand{name: x.name + "+" + y.name, eval: func(st *State, fr *Frame, m *Term) *Term {
						return c.Eq(c.Add(x.get(st, fr), y.get(st, fr)), c.Add(x.e, y.e))
					}})
				}
			}
		}
	}

	// reset of the paths explored
	explore := func(st *State, fr *Frame) []Outcome {
		outs := ex.runFrom(st, fr, h, 0, prev)
		for _, p := range phis {
			if p.mode == phiFixed && !ex.noFlags[lp.header] && lp.isFlag(p.ph) && (!isErrorType(p.ph.Type()) || ex.flagVal(p.entry).isFalse()) {
				outs = ex.leaveByFlag(outs, lp, p, prev)
			}
		}
		return outs
	}
	filter := func(kind string) {
		_ = kind
	}
	_ = filter
	gen := func() {
		for _, p := range phis {
			if p.mode == phiHavoc {
				genPhi(p)
			}
		}
		for _, k := range sortedKeys(mod) {
			genKey(k)
		}
		genCond()
		genPairs()
		genUser()
	}
	// refine puts the closed forms found in place of what is changed, and starts over with what is changed in memory:
	// with them more may be known of what is written
	refine := func() bool {
		known := map[string]*cand{}
		for _, cd := range cands {
			if cd.leaf != "" {
				known[cd.leaf] = cd
			}
		}
		any := false
		for _, p := range phis {
			if _, isSlice := p.cur.(*SliceV); p.mode != phiHavoc || !isSlice {
				continue
			}
			fl := append([]*Term{}, ex.flat(st0, p.ph.Type(), p.cur)...)
			hit := false
			for i, l := range leaves(p.ph.Type()) {
				if cd := known["phi "+p.ph.Name()+l.path]; cd != nil {
					fl[i] = cd.val
					cd.fixed, hit = true, true
				}
			}
			if hit {
				p.cur = ex.build(p.ph.Type(), fl)
				any = true
			}
		}
		for k, hv := range mod {
			ki := ex.keyLeaf[k]
			if ki.dim == 0 {
				if cd := known[k]; cd != nil && ki.l.sort == SInt {
					hv.wholeVar = cd.val
					cd.fixed, any = true, true
				}
			}
		}
		if !any {
			return false
		}
		for k := range mod {
			if ex.keyLeaf[k].dim >= 1 {
				delete(mod, k)
			}
		}
		nextMod, nextVar = false, nil
		have = map[string]bool{}
		for _, cd := range cands {
			have[cd.name] = true
		}
		return true
	}
	refined := false
	stable := false
	for round := 0; round < 60; round++ {
		ex.checkTime()
		st, fr := mk(true)
		ex.suppress++
		outs := explore(st, fr)
		ex.suppress--
		changed := false
		hst, hfr := mk(true)
		for _, o := range outs {
			if o.kind != OBack || o.loop != h {
				continue
			}
			if len(o.st.spawned) != len(st0.spawned) {
				unsup("goroutine started in a loop")
			}
			f := phiAt(o)
			// cells of the enclosing code promoted inside the body
			for cell := range o.st.promoted {
				if cell <= cells0 && !st0.promoted[cell] {
					ex.promoteByID(st0, cell)
					changed = true
				}
			}
			if changed {
				break
			}
			if o.st.nextID != hst.nextID && !nextMod {
				nextMod = true
				changed = true
			}
			for _, p := range phis {
				bv := f.env[p.ph]
				switch p.mode {
				case phiFixed:
					if !ex.sameVal(o.st, p.ph.Type(), bv, p.entry) {
						p.mode = phiHavoc
						changed = true
						ex.forcePtr(st0, p.entry)
						ex.forcePtr(o.st, bv)
					}
				case phiInduct:
					want := c.Add(termOf(p.entry), c.MulK(c.AddK(m, 1), p.delta))
					if !ex.proveQuick(o.st, c.Eq(termOf(bv), want)) {
						p.mode = phiHavoc
						changed = true
					}
				}
			}
			for k, nv := range o.st.heap {
				ki, ok := ex.keyLeaf[k]
				if !ok {
					panic("no leaf info for " + k)
				}
				if strings.HasPrefix(k, "C|") {
					var id int
					fmt.Sscanf(k, "C|%d|", &id)
					if id > cells0 {
						continue
					}
				}
				var ov *Term
				if t, ok := hst.heap[k]; ok {
					ov = t
				} else {
					ov = oldVal(k)
				}
				if nv == ov {
					continue
				}
				hv := mod[k]
				if hv == nil {
					hv = &havoc{}
					mod[k] = hv
					changed = true
				}
				if hv.whole {
					continue
				}
				if ki.dim == 0 {
					hv.whole = true
					changed = true
					continue
				}
				x := nv
				for x != ov && x.op == "store" && !ex.sameBase(x, ov) {
					i := x.args[1]
					in := false
					for _, r := range hv.rows {
						in = in || r == i
					}
					if !in {
						switch {
						case hv.split && ex.proveQuick(o.st, c.Le(entryNext, i)):
						case ex.invariantTerm(i, mark):
							hv.rows = append(hv.rows, i)
							changed = true
						case ex.proveQuick(o.st, c.Le(entryNext, i)):
							hv.split = true
							changed = true
						default:
							hv.whole = true
							changed = true
						}
					}
					if hv.whole {
						break
					}
					x = x.args[0]
				}
				// the remaining base must be the header's array, possibly with the header's own stores cancelled by
				// the ones seen above
				if !hv.whole && x != ov && ex.sameBase(x, ov) {
					for y := ov; y != x; y = y.args[0] {
						in := false
						for _, r := range hv.rows {
							in = in || r == y.args[1]
						}
						if !in {
							hv.rows = append(hv.rows, y.args[1])
							changed = true
						}
					}
				}
				if !hv.whole && x != ov && !ex.sameBase(x, ov) {
					hv.whole = true
					changed = true
				}
			}
			// delta candidates for changed scalars
			for _, k := range sortedKeys(mod) {
				ki := ex.keyLeaf[k]
				if ki.l.sort != SInt || ki.l.kind != 0 && ki.l.kind != 'w' {
					continue
				}
				if ki.dim == 0 {
					g := keyGetter(k, nil)
					if d := guessDelta(c, g(o.st, nil), g(hst, nil)); d != nil {
						deltaCand(k, g, d)
					}
				} else if ki.dim == 1 && !mod[k].whole {
					for _, r := range mod[k].rows {
						g := keyGetter(k, r)
						if d := guessDelta(c, g(o.st, nil), g(hst, nil)); d != nil {
							deltaCand(fmt.Sprintf("%s[%d]", k, r.id), g, d)
						}
					}
				}
			}
			for _, p := range phis {
				if p.mode == phiHavoc {
					for i, l := range leaves(p.ph.Type()) {
						if l.sort == SInt && l.kind == 0 {
							g := phiLeafGetter(p, i)
							if d := guessDelta(c, g(o.st, f), g(hst, hfr)); d != nil {
								deltaCand("phi "+p.ph.Name()+l.path, g, d)
							}
						}
					}
				}
			}
		}
		if changed {
			continue
		}
		nc := len(cands)
		genLinear(outs)
		if round < 50 {
			gen()
		}
		if len(cands) > nc {
			continue
		}
		// Houdini: drop candidates that the body does not preserve
		var keep []*cand
		type job struct {
			cd *cand
			st *State
			t  *Term
		}
		ok := make([]bool, len(cands))
		var jobs []job
		var idx []int
		for i, cd := range cands {
			ok[i] = true
			for _, o := range outs {
				if o.kind != OBack || o.loop != h {
					continue
				}
				f := phiAt(o)
				cd := cd
				o := o
				t := safe(func() *Term { return cd.eval(o.st, f, c.AddK(m, 1)) })
				if t == nil {
					ok[i] = false
					continue
				}
				if v, known := o.st.decide(t); known && v {
					continue
				}
				jobs = append(jobs, job{cd, o.st, t})
				idx = append(idx, i)
			}
		}
		res := make([]bool, len(jobs))
		qs := make([]string, len(jobs))
		for j, jb := range jobs {
			if !ok[idx[j]] {
				continue
			}
			if !jb.t.quant && ex.inc.unsat(ex.relevant(jb.st.pc, c.Not(jb.t))) {
				res[j] = true
				continue
			}
			hasQ := jb.t.quant || len(c.recs) > 0
			for _, p := range jb.st.pc {
				hasQ = hasQ || p.quant
			}
			if !hasQ {
				ok[idx[j]] = false
				if jb.cd.user && dumpDir != "" {
					debugf("  loop %s: candidate %s not preserved", where, jb.cd.name)
					dumpQuery("cand-"+jb.cd.name, c.query(jb.st.pc, jb.t, nil))
				}
				continue
			}
			qs[j] = c.query(jb.st.pc, jb.t, nil)
		}
		parallel(len(jobs), func(j int) {
			if qs[j] == "" {
				return
			}
			tmo := 700 * time.Millisecond
			if jobs[j].cd.user {
				tmo = ex.loopTmo()
			}
			r := quickSolve(qs[j], tmo)
			res[j] = r
		})
		for j := range jobs {
			if !res[j] {
				ok[idx[j]] = false
				if jobs[j].cd.user {
					debugf("  loop %s: candidate %s not preserved", where, jobs[j].cd.name)
					if dumpDir != "" && qs[j] != "" {
						dumpQuery("cand-"+jobs[j].cd.name, qs[j])
					}
				}
			}
		}
		for i, cd := range cands {
			if ok[i] {
				keep = append(keep, cd)
			} else if cd.fixed { // cannot happen: the candidates were inductive for more states
				for _, p := range phis {
					p.cur = nil
				}
				for _, hv := range mod {
					hv.wholeVar = nil
				}
				for _, cd := range cands {
					cd.fixed = false
				}
			}
		}
		if len(keep) < len(cands) {
			cands = keep
			continue
		}
		nc = len(cands)
		genFill(outs)
		if len(cands) > nc {
			continue
		}
		if !refined {
			refined = true
			coarse := false
			for k, hv := range mod {
				if ex.keyLeaf[k].dim >= 1 && (hv.whole || hv.split) {
					coarse = true
				}
			}
			if coarse && refine() {
				debugf("  loop %s: refined", where)
				continue
			}
		}
		stable = true
		if ex.suppress == 0 {
			ex.loopInv += len(cands)
			ex.nOblig += 2 * len(cands)
			ex.trivial += 2 * len(cands)
			for _, cd := range cands {
				if cd.user {
					debugf("  loop %s keeps %s", where, cd.name)
				}
			}
		}
		break
	}
	if !stable {
		unsup("loop invariant inference did not stabilise")
	}
	ex.loopT += time.Since(t0)
	debugf("loop %s %s depth %d suppress %d: %d candidates kept, %.2fs, pc %d", fr0.fn.Name(), where, fr0.depth, ex.suppress, len(cands), time.Since(t0).Seconds(), len(st0.pc))
	st, fr := mk(true)
	outs := explore(st, fr)
	var res []Outcome
	for _, o := range outs {
		switch {
		case o.kind == OBack && o.loop == h:
			ex.loopBackHook(o)
		case o.kind == OLoopExit && o.fr.fn == fr0.fn && o.fr.expl != nil && o.fr.expl.lp == lp:
			f := o.fr
			f.expl = fr0.expl
			delete(f.cut, h)
			res = append(res, ex.jump(o.st, f, o.from, o.to)...)
		default:
			res = append(res, o)
		}
	}
	return res
}

// leaveByFlag goes on where the body has changed a flag that ends the loop: what is known at the end of the last
// iteration is then known after the loop.
func (ex *Exec) leaveByFlag(outs []Outcome, lp *Loop, p *phiInfo, prev *ssa.BasicBlock) []Outcome {
	h := lp.header
	v0 := ex.flagVal(p.entry)
	var res []Outcome
	for _, o := range outs {
		if o.kind != OBack || o.loop != h {
			res = append(res, o)
			continue
		}
		f := o.fr.clone()
		ex.phis(f, h, o.from)
		t := ex.flagVal(f.env[p.ph])
		if t == v0 {
			res = append(res, o)
			continue
		}
		edge := p.ph.Edges[0]
		for i, b := range h.Preds {
			if b == o.from {
				edge = p.ph.Edges[i]
			}
		}
		changed := ex.c.Not(ex.c.Eq(t, v0))
		stay, leave := o.st, o.st.clone()
		leave.assume(changed)
		if ex.feasible(leave) {
			if _, ok := p.entry.(*IfaceV); !ok {
				f.env[p.ph] = ex.c.Not(v0)
			}
			for _, o := range ex.runFrom(leave, f, h, 0, prev) {
				if o.kind == OBack && o.loop == h {
					ex.noFlags[lp.header] = true
					panic(retryLoop{lp})
				}
				res = append(res, o)
			}
		}
		if t == ex.c.Not(v0) {
			continue
		}
		stay.assume(ex.c.Not(changed))
		if !ex.feasible(stay) {
			continue
		}
		o.fr = o.fr.clone()
		if _, isConst := edge.(*ssa.Const); !isConst {
			o.fr.env[edge] = p.entry
		}
		res = append(res, o)
	}
	return res
}

type retryLoop struct{ lp *Loop }

func (ex *Exec) loopBackHook(o Outcome) {}

func (ex *Exec) loopTmo() time.Duration {
	if s := ex.contract.dir["looptimeout"]; s != "" {
		var n int
		fmt.Sscanf(s, "%d", &n)
		return time.Duration(n) * time.Second
	}
	return 2 * time.Second
}

type argChoice struct {
	name string
	get  func(st *State, fr *Frame, m *Term) Val
}

// argChoices lists the values of type t visible at a loop header.
func (ex *Exec) argChoices(lp *Loop, phis []*phiInfo, mod map[string]*havoc, fr0 *Frame, t types.Type, m *Term, cells0 int) []argChoice {
	var r []argChoice
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Int {
		r = append(r, argChoice{"m", func(st *State, fr *Frame, m *Term) Val { return m }})
		k := 0
		for f := fr0; f != nil; f = f.up {
			for o := f.expl; o != nil; o = o.outer {
				mm := o.m
				k++
				r = append(r, argChoice{fmt.Sprintf("m^%d", k), func(st *State, fr *Frame, m *Term) Val { return mm }})
			}
		}
	}
	for _, p := range phis {
		if types.Identical(p.ph.Type(), t) {
			ph := p.ph
			r = append(r, argChoice{"phi " + ph.Name(), func(st *State, fr *Frame, m *Term) Val { return fr.env[ph] }})
		}
	}
	for _, v := range lp.uses {
		v := v
		if types.Identical(v.Type(), t) {
			r = append(r, argChoice{v.Name(), func(st *State, fr *Frame, m *Term) Val { return ex.val(fr, v) }})
		}
		if pt, ok := types.Unalias(v.Type()).Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
			if _, isAlloc := v.(*ssa.Alloc); isAlloc || isFree(v) {
				r = append(r, argChoice{"*" + v.Name(), func(st *State, fr *Frame, m *Term) Val {
					s := st.clone()
					s.spec = true
					return ex.load(s, ex.val(fr, v).(*PtrV))
				}})
			}
		}
		if _, ok := types.Unalias(v.Type()).Underlying().(*types.Signature); ok {
			// what a function called in the loop captures
			var caught func(name string, get func(st *State, fr *Frame) Val, depth int)
			caught = func(name string, get func(st *State, fr *Frame) Val, depth int) {
				f, ok := get(nil, fr0).(*FuncV)
				if !ok || f.fn == nil || depth > 2 {
					return
				}
				for i, fv := range f.fn.FreeVars {
					if i >= len(f.binds) {
						break
					}
					i := i
					bind := func(st *State, fr *Frame) Val { return get(st, fr).(*FuncV).binds[i] }
					if pt, ok := types.Unalias(fv.Type()).Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
						if p, ok := f.binds[i].(*PtrV); ok && p.cell > 0 {
							r = append(r, argChoice{fmt.Sprintf("*%s.%s", name, fv.Name()), func(st *State, fr *Frame, m *Term) Val {
								s := st.clone()
								s.spec = true
								return ex.load(s, bind(st, fr).(*PtrV))
							}})
						}
					}
				}
			}
			if val, ok := fr0.env[v]; ok {
				if _, ok := val.(*FuncV); ok {
					caught(v.Name(), func(st *State, fr *Frame) Val { return fr.env[v] }, 0)
				}
			}
		}
	}
	return r
}

func isFree(v ssa.Value) bool { _, ok := v.(*ssa.FreeVar); return ok }

func sortedKeys(m map[string]*havoc) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// sameBase: x is ov with some of the outermost stores removed.
func (ex *Exec) sameBase(x, ov *Term) bool {
	for ov.op == "store" {
		ov = ov.args[0]
		if x == ov {
			return true
		}
	}
	return false
}

func (ex *Exec) sameVal(st *State, t types.Type, a, b Val) bool {
	if a == b {
		return true
	}
	pa, ok1 := a.(*PtrV)
	pb, ok2 := b.(*PtrV)
	if ok1 && ok2 {
		x, y := *pa, *pb
		x.nonnil, y.nonnil = false, false
		if x == y {
			return true
		}
		if x.cell > 0 || y.cell > 0 || x.arr != nil || y.arr != nil || x.glob != "" || y.glob != "" {
			return false
		}
		return x.path == y.path && x.ref == y.ref
	}
	fa, ok1 := a.(*FuncV)
	fb, ok2 := b.(*FuncV)
	if ok1 && ok2 {
		return fa == fb || (fa.fn != nil && fa.fn == fb.fn && len(fa.binds) == 0)
	}
	x, y := ex.flat(st, t, a), ex.flat(st, t, b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// forcePtr gives local cells a heap identity before their address is merged.
func (ex *Exec) forcePtr(st *State, v Val) {
	if p, ok := v.(*PtrV); ok && p.cell > 0 && p.path == "" {
		ex.ptrLeaf(st, p)
	}
}

func (ex *Exec) promoteByID(st *State, cell int) {
	p := ex.cellPtr[cell]
	if p == nil {
		unsup("promotion of unknown cell")
	}
	ex.promote(st, p)
}

func inductDelta(lp *Loop, ph *ssa.Phi) *big.Int {
	b, ok := types.Unalias(ph.Type()).Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	var d *big.Int
	for i, p := range lp.header.Preds {
		if !lp.blocks[p] {
			continue
		}
		bo, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(ph) {
			return nil
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return nil
		}
		n, ok := new(big.Int).SetString(k.Value.ExactString(), 10)
		if !ok {
			return nil
		}
		switch bo.Op.String() {
		case "+":
		case "-":
			n.Neg(n)
		default:
			return nil
		}
		if d != nil && d.Cmp(n) != 0 {
			return nil
		}
		d = n
	}
	return d
}

// deltaRange gives the least and the largest of some constants.
func deltaRange(ds []*Term) (min, max *big.Int) {
	for _, d := range ds {
		if !d.isConst() || d.c.BitLen() > 40 {
			return nil, nil
		}
		if min == nil || d.c.Cmp(min) < 0 {
			min = d.c
		}
		if max == nil || d.c.Cmp(max) > 0 {
			max = d.c
		}
	}
	return
}

// unwrapDelta is the difference between n and o, n being o plus something reduced to the range of its type.
func unwrapDelta(c *Ctx, n, o *Term) *Term {
	switch n.op {
	case "ite":
		if n.args[1].op == "ite" {
			return unwrapDelta(c, n.args[1], o)
		}
		d := c.Sub(n.args[1], n.args[2])
		if d.isConst() && new(big.Int).And(d.c, big.NewInt(0xff)).Sign() == 0 {
			return c.Sub(n.args[1], o)
		}
		return nil
	}
	return c.Sub(n, o)
}

func guessDelta(c *Ctx, n, o *Term) *big.Int {
	var try func(t *Term, depth int) *big.Int
	try = func(t *Term, depth int) *big.Int {
		d := c.Sub(t, o)
		if d.isConst() && d.c.BitLen() < 40 && d.c.Sign() != 0 {
			return d.c
		}
		if t.op == "ite" && depth < 4 {
			if r := try(t.args[1], depth+1); r != nil {
				return r
			}
			return try(t.args[2], depth+1)
		}
		return nil
	}
	return try(n, 0)
}

// proveQuick decides a goal with small effort.
func (ex *Exec) proveQuick(st *State, t *Term) bool {
	if v, ok := st.decide(t); ok {
		return v
	}
	if t.bound {
		return false
	}
	if !t.quant {
		if ex.inc.unsat(ex.relevant(st.pc, ex.c.Not(t))) {
			return true
		}
		q := len(ex.c.recs) > 0
		for _, p := range st.pc {
			q = q || p.quant
		}
		if !q {
			return false
		}
	}
	return quickSolve(ex.c.query(st.pc, t, nil), time.Second)
}
