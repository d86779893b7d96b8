package main

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// State is one symbolic machine state (one path).
type State struct {
	ex       *Exec
	heap     map[string]*Term
	pc       []*Term
	pcs      map[*Term]bool
	bnd      map[int]*big.Int // lower bounds of linear forms (keyed by the id of the form without constant)
	nextID   *Term
	promoted map[int]bool
	spec     bool
	facts    *[]*Term // references read by a specification are allocated: facts to keep
	factBase int
	dead     bool
	spawned  []spawn
	iters    []*mapIter
	inMon    int
	guards   []guard
	onLock   []lockHook
	invs     []*invTempl
	vols     []*PtrV
	deferGo  bool
	inGo     bool // in a goroutine: those it starts run after it
	inLoop   bool // inside a loop, where they run at once
	externs  map[string]*FuncV
}

type spawn struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

func (ex *Exec) newState() *State {
	return &State{ex: ex, heap: map[string]*Term{}, pcs: map[*Term]bool{}, bnd: map[int]*big.Int{}, nextID: ex.c.Int(allocBase), promoted: map[int]bool{}}
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pcs = make(map[*Term]bool, len(st.pcs)+8)
	for k, v := range st.pcs {
		n.pcs[k] = v
	}
	n.bnd = make(map[int]*big.Int, len(st.bnd)+8)
	for k, v := range st.bnd {
		n.bnd[k] = v
	}
	n.spawned = st.spawned[:len(st.spawned):len(st.spawned)]
	n.iters = st.iters[:len(st.iters):len(st.iters)]
	n.guards = st.guards[:len(st.guards):len(st.guards)]
	n.onLock = st.onLock[:len(st.onLock):len(st.onLock)]
	n.invs = st.invs[:len(st.invs):len(st.invs)]
	n.vols = st.vols[:len(st.vols):len(st.vols)]
	return &n
}

// splitK separates a linear term into (constant, id of the rest, the rest).
func (ex *Exec) splitK(t *Term) (*big.Int, *Term) {
	l := ex.c.linOf(t)
	if l.k.Sign() == 0 {
		return l.k, t
	}
	return l.k, ex.c.Sub(t, ex.c.Big(l.k))
}

func (st *State) addBound(t *Term) { // t >= 0
	k, r := st.ex.splitK(t)
	lo := new(big.Int).Neg(k)
	if o, ok := st.bnd[r.id]; !ok || lo.Cmp(o) > 0 {
		st.bnd[r.id] = lo
	}
}

// lower bound of a term from the path condition
func (st *State) lower(t *Term) *big.Int {
	k, r := st.ex.splitK(t)
	var b *big.Int
	if o, ok := st.bnd[r.id]; ok {
		b = o
	}
	if r.lo != nil && (b == nil || r.lo.Cmp(b) > 0) {
		b = r.lo
	}
	if b == nil {
		return nil
	}
	return new(big.Int).Add(b, k)
}

func (st *State) upper(t *Term) *big.Int {
	l := st.lower(st.ex.c.Neg(t))
	if l == nil {
		return nil
	}
	return l.Neg(l)
}

func (st *State) decide(t *Term) (bool, bool) {
	c := st.ex.c
	if t.isTrue() {
		return true, true
	}
	if t.isFalse() {
		return false, true
	}
	if st.pcs[t] {
		return true, true
	}
	switch t.op {
	case ">=0":
		if l := st.lower(t.args[0]); l != nil && l.Sign() >= 0 {
			return true, true
		}
		if u := st.upper(t.args[0]); u != nil && u.Sign() < 0 {
			return false, true
		}
	case "=0":
		l, u := st.lower(t.args[0]), st.upper(t.args[0])
		if (l != nil && l.Sign() > 0) || (u != nil && u.Sign() < 0) {
			return false, true
		}
		if l != nil && u != nil && l.Sign() == 0 && u.Sign() == 0 {
			return true, true
		}
	case "not":
		v, ok := st.decide(t.args[0])
		return !v, ok
	case "and":
		all := true
		for _, a := range t.args {
			v, ok := st.decide(a)
			if ok && !v {
				return false, true
			}
			all = all && ok
		}
		return true, all
	case "or":
		all := true
		for _, a := range t.args {
			v, ok := st.decide(a)
			if ok && v {
				return true, true
			}
			all = all && ok
		}
		return false, all
	}
	if st.pcs[c.Not(t)] {
		return false, true
	}
	return false, false
}

func (st *State) assume(t *Term) {
	if t.isTrue() || st.pcs[t] {
		return
	}
	if t.isFalse() {
		st.dead = true
		st.pc = append(st.pc, t)
		st.pcs[t] = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	if !t.quant {
		if v, ok := st.decide(t); ok {
			if v {
				return
			}
			st.dead = true
		}
	}
	if t.op == "or" {
		// unit propagation
		var rest []*Term
		for _, a := range t.args {
			if v, ok := st.decide(a); ok && !v {
				continue
			}
			rest = append(rest, a)
		}
		if len(rest) < len(t.args) {
			st.assume(st.ex.c.Or(rest...))
			return
		}
	}
	st.pc = append(st.pc, t)
	st.pcs[t] = true
	switch t.op {
	case ">=0":
		st.addBound(t.args[0])
	case "=0":
		st.addBound(t.args[0])
		st.addBound(st.ex.c.Neg(t.args[0]))
	}
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	binds  []Val
	defers []deferred
	expl   *loopRun // loop being explored (innermost), in this frame
	iter   map[*ssa.BasicBlock]int
	cut    map[*ssa.BasicBlock]bool
	depth  int
	up     *Frame
	pos    string
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.iter = map[*ssa.BasicBlock]int{}
	for k, v := range fr.iter {
		n.iter[k] = v
	}
	n.cut = map[*ssa.BasicBlock]bool{}
	for k, v := range fr.cut {
		n.cut[k] = v
	}
	return &n
}

type OutKind int

const (
	OReturn OutKind = iota
	OBack
	OLoopExit
	OExit
)

// Outcome is the end of a path through a function (or a loop body).
type Outcome struct {
	kind OutKind
	st   *State
	fr   *Frame
	val  Val
	loop *ssa.BasicBlock // OBack
	from *ssa.BasicBlock // OBack, OLoopExit
	to   *ssa.BasicBlock // OLoopExit
}
