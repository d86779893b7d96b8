package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var leafMu sync.Mutex

// Oblig is one proof obligation.
type Oblig struct {
	name   string
	kind   string
	pos    string
	ass    []*Term
	goal   *Term
	res    string // discharged how: simplifier, solver name, or "" when failed
	time   time.Duration
	status string // ok, sat, unknown
	out    string
	ctx    *Exec
}

// Exec verifies one contract.
type Exec struct {
	noFlags  map[*ssa.BasicBlock]bool // loops whose flags are not special
	c        *Ctx
	prog     *Program
	contract *Contract
	closures []*FuncV
	cells    int
	types    []types.Type
	addrs    []*PtrV
	boxes    map[*Term]*Term
	inc      *Inc
	obls     []*Oblig
	trivial  int
	nOblig   int
	suppress int
	assumed  map[string]bool       // trusted models and assumptions used
	inlined  map[string]bool       // functions verified by inlining their body
	impls    map[string]types.Type // interface type -> the stand-in implementation
	params   []paramInfo
	requires bool
	ensures  map[string]bool
	covers   map[string]bool
	loopInv  int
	loopT    time.Duration
	loops    int
	started  time.Time
	deadline time.Time
	errGlobs map[string]int
	errVals  map[[2]*Term]bool // interface values converted from the type error
	snaps    int
	paths    int
	axDone   map[string]bool
	funcIDs  map[string]*FuncV
	recN     int
	freeTick int
	keyLeaf  map[string]keyInfo
	cellPtr  map[int]*PtrV
	noInc    int
}

type paramInfo struct {
	name string
	typ  types.Type
	val  Val
}

type guard struct {
	mu    *PtrV
	field *PtrV
	name  string
}

type lockHook struct {
	mu *PtrV
	fn *FuncV
}

func newExec(p *Program, ct *Contract) *Exec {
	ex := &Exec{noFlags: map[*ssa.BasicBlock]bool{}, c: newCtx(), prog: p, contract: ct, boxes: map[*Term]*Term{}, assumed: map[string]bool{}, inlined: map[string]bool{},
		impls: map[string]types.Type{}, ensures: map[string]bool{}, covers: map[string]bool{}, errGlobs: map[string]int{}, errVals: map[[2]*Term]bool{}, started: time.Now(), axDone: map[string]bool{}, funcIDs: map[string]*FuncV{}, keyLeaf: map[string]keyInfo{}, cellPtr: map[int]*PtrV{}}
	ex.c.strTheory = ct.dir["strings"] != ""
	ex.c.fpTheory = ct.dir["floats"] != ""
	ex.c.fpReal, ex.c.fpQuant = ct.dir["reals"] != "", ct.dir["reals"] == "quant"
	ex.inc = newInc(ex.c)
	return ex
}

func (ex *Exec) note(f string, a ...interface{}) { ex.assumed[fmt.Sprintf(f, a...)] = true }

// ---- solver-backed facts ----

func (ex *Exec) holds(st *State, t *Term) bool {
	if v, ok := st.decide(t); ok {
		return v
	}
	if st.spec || t.quant || t.bound || ex.noInc > 0 {
		return false
	}
	return ex.inc.unsat(ex.relevant(st.pc, ex.c.Not(t)))
}

// relevant adds the negated goal to the path condition.
func (ex *Exec) relevant(pc []*Term, t *Term) []*Term {
	return append(append(make([]*Term, 0, len(pc)+1), pc...), t)
}

func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	if st.spec || ex.noInc > 0 {
		return true
	}
	return !ex.inc.unsat(st.pc)
}

// ---- obligations ----

func (ex *Exec) pos(fr *Frame, p token.Pos) string {
	if !p.IsValid() && fr != nil {
		return fr.pos
	}
	ps := ex.prog.fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, ex.prog.repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (ex *Exec) oblige(st *State, fr *Frame, kind, name string, p token.Pos, goal *Term) {
	if st.spec {
		return
	}
	if ex.suppress > 0 {
		st.assume(goal)
		return
	}
	where := ex.pos(fr, p)
	full := name
	if fr != nil && kind != "ensures" && kind != "assert" {
		full = fmt.Sprintf("%s in %s", name, fr.fn.RelString(nil))
	}
	ex.nOblig++
	if v, ok := st.decide(goal); ok && v {
		ex.trivial++
		return
	}
	o := &Oblig{name: full, kind: kind, pos: where, ass: st.pc[:len(st.pc):len(st.pc)], goal: goal, ctx: ex}
	ex.obls = append(ex.obls, o)
	st.assume(goal)
}

// ---- values ----

func (ex *Exec) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return &PtrV{glob: ex.globName(x), root: deref(x.Type()), elem: deref(x.Type())}
	case *ssa.Function:
		return ex.fnVal(x)
	case *ssa.Builtin:
		return &FuncV{bi: x}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (ex *Exec) fnVal(x *ssa.Function) *FuncV {
	k := x.String()
	if f, ok := ex.funcIDs[k]; ok {
		return f
	}
	f := &FuncV{fn: x}
	ex.funcIDs[k] = f
	return f
}

func (ex *Exec) globName(x *ssa.Global) string {
	return x.Pkg.Pkg.Path() + "." + x.Name()
}

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ex *Exec) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return ex.zeroVal(t)
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.c.Bool(constant.BoolVal(x.Value))
		case u.Info()&types.IsInteger != 0:
			b, ok := new(big.Int).SetString(constant.ToInt(x.Value).ExactString(), 10)
			if !ok {
				unsup("int constant %s", x)
			}
			return ex.c.Big(b)
		case u.Info()&types.IsString != 0:
			return ex.c.Str(constant.StringVal(x.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(x.Value))
			if u.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return ex.fpConst(f)
		}
	case *types.TypeParam:
	}
	unsup("constant %s", x)
	return nil
}

func termOf(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("expected scalar, got %T", v)})
	}
	return t
}

// ---- running ----

// callFn runs fn to completion and returns all ends.
func (ex *Exec) runFn(st *State, up *Frame, fn *ssa.Function, args []Val, binds []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	d := 0
	n := 0
	for f := up; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
		d++
	}
	if n > 2 || d > 80 {
		unsup("recursion in %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds, iter: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]bool{}, depth: d, up: up}
	if up != nil {
		fr.pos = up.pos
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	if ex.suppress == 0 && !ex.isContractFn(fn) {
		ex.inlined[fn.RelString(nil)] = true
	}
	return ex.run(st, fr, fn.Blocks[0], nil)
}

func (ex *Exec) checkTime() {
	ex.freeTick++
	if ex.freeTick%64 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		unsup("time budget of the contract exhausted")
	}
}

// run enters block b coming from prev.
func (ex *Exec) run(st *State, fr *Frame, b, prev *ssa.BasicBlock) []Outcome {
	ex.checkTime()
	if st.dead {
		return nil
	}
	if lp := ex.prog.loopAt(fr.fn, b); lp != nil && prev != nil {
		return ex.enterHeader(st, fr, lp, prev)
	}
	ex.phis(fr, b, prev)
	return ex.runFrom(st, fr, b, 0, prev)
}

func (ex *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.val(fr, ph.Edges[idx]))
		ps = append(ps, ph)
	}
	for i, ph := range ps {
		fr.env[ph] = vals[i]
	}
}

func (ex *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) []Outcome {
	if fr.expl != nil && !fr.expl.lp.blocks[to] {
		return []Outcome{{kind: OLoopExit, st: st, fr: fr, from: from, to: to}}
	}
	return ex.run(st, fr, to, from)
}

func (ex *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, i int, prev *ssa.BasicBlock) []Outcome {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return nil
		}
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			fr.pos = ex.pos(nil, p)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return ex.jump(st, fr, b, b.Succs[0])
		case *ssa.If:
			return ex.branch(st, fr, b, termOf(ex.val(fr, x.Cond)))
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
			case 1:
				v = ex.val(fr, x.Results[0])
			default:
				tv := &TupleV{}
				for _, r := range x.Results {
					tv.f = append(tv.f, ex.val(fr, r))
				}
				v = tv
			}
			return []Outcome{{kind: OReturn, st: st, fr: fr, val: v}}
		case *ssa.Panic:
			ex.oblige(st, fr, "panic", "no panic", x.Pos(), ex.c.tFalse)
			st.dead = true
			return nil
		default:
			outs, simple := ex.step(st, fr, in)
			if simple {
				continue
			}
			// the instruction produced zero or more successor states
			if len(outs) == 1 && outs[0].kind == OReturn {
				st = outs[0].st
				if v, ok := in.(ssa.Value); ok {
					fr.env[v] = outs[0].val
				}
				continue
			}
			var res []Outcome
			for k, o := range outs {
				if o.kind != OReturn {
					res = append(res, o)
					continue
				}
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				if v, ok := in.(ssa.Value); ok {
					f.env[v] = o.val
				}
				res = append(res, ex.runFrom(o.st, f, b, i+1, prev)...)
			}
			return res
		}
	}
	panic("block without terminator")
}

func (ex *Exec) branch(st *State, fr *Frame, b *ssa.BasicBlock, cond *Term) []Outcome {
	v, known := st.decide(cond)
	if !known && !st.spec && !cond.quant && !cond.bound && ex.noInc == 0 {
		if ex.inc.unsat(ex.relevant(st.pc, cond)) {
			v, known = false, true
		} else if ex.inc.unsat(ex.relevant(st.pc, ex.c.Not(cond))) {
			v, known = true, true
		}
		if known {
			// remember the solver's answer
			if v {
				st.assume(cond)
			} else {
				st.assume(ex.c.Not(cond))
			}
		}
	}
	if known {
		if v {
			return ex.jump(st, fr, b, b.Succs[0])
		}
		return ex.jump(st, fr, b, b.Succs[1])
	}
	ex.paths++
	if ex.paths > 200000 {
		unsup("too many paths")
	}
	s2, f2 := st.clone(), fr.clone()
	st.assume(cond)
	s2.assume(ex.c.Not(cond))
	outs := ex.jump(st, fr, b, b.Succs[0])
	return append(outs, ex.jump(s2, f2, b, b.Succs[1])...)
}

// fork splits on a condition inside an instruction; each continuation returns outcomes.
func (ex *Exec) split(st *State, cond *Term, yes, no func(st *State) []Outcome) []Outcome {
	v, known := st.decide(cond)
	if !known && !st.spec && !cond.quant && !cond.bound && ex.noInc == 0 {
		if ex.inc.unsat(ex.relevant(st.pc, cond)) {
			v, known = false, true
			st.assume(ex.c.Not(cond))
		} else if ex.inc.unsat(ex.relevant(st.pc, ex.c.Not(cond))) {
			v, known = true, true
			st.assume(cond)
		}
	}
	if known {
		if v {
			return yes(st)
		}
		return no(st)
	}
	s2 := st.clone()
	st.assume(cond)
	s2.assume(ex.c.Not(cond))
	var r []Outcome
	if !st.dead {
		r = append(r, yes(st)...)
	}
	if !s2.dead {
		r = append(r, no(s2)...)
	}
	return r
}

func ret(st *State, v Val) []Outcome { return []Outcome{{kind: OReturn, st: st, val: v}} }

// evalSpec evaluates a pure function value in specification mode and merges its paths.
func (ex *Exec) evalSpec(st *State, fr *Frame, f *FuncV, args []Val) Val {
	s := st.clone()
	s.spec = true
	base := len(s.pc)
	var facts []*Term
	s.facts, s.factBase = &facts, base
	outs := ex.callFunc(s, fr, f, args, nil)
	var live []Outcome
	for _, o := range outs {
		if o.kind == OReturn && !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		if !ex.feasible(st) {
			st.dead = true
			return ex.zeroVal(f.sig().Results().At(0).Type())
		}
		unsup("specification function %s has no result", f.fn)
	}
	rt := f.sig().Results()
	var t types.Type = rt
	if rt.Len() == 1 {
		t = rt.At(0).Type()
	}
	res := live[len(live)-1].val
	for i := len(live) - 2; i >= 0; i-- {
		// path condition relative to the common prefix
		cond := ex.c.And(live[i].st.pc[base:]...)
		res = ex.mergeVal(s, t, cond, live[i].val, res)
	}
	for _, f := range facts {
		st.keepFact(f)
	}
	return res
}

func (f *FuncV) sig() *types.Signature {
	return f.fn.Signature
}

// step executes one instruction. simple=true means st and fr were updated in place.
func (ex *Exec) step(st *State, fr *Frame, in ssa.Instruction) (outs []Outcome, simple bool) {
	c := ex.c
	switch x := in.(type) {
	case *ssa.Alloc:
		fr.env[x] = ex.alloc(st, deref(x.Type()))
		return nil, true
	case *ssa.BinOp:
		v := ex.binop(st, fr, x)
		fr.env[x] = v
		return nil, true
	case *ssa.UnOp:
		return ex.unop(st, fr, x)
	case *ssa.Store:
		p := ex.ptr(st, fr, ex.val(fr, x.Addr), x.Pos())
		ex.checkGuard(st, fr, p, true, x.Pos())
		ex.store(st, p, ex.val(fr, x.Val))
		return nil, true
	case *ssa.FieldAddr:
		p := ex.ptr(st, fr, ex.val(fr, x.X), x.Pos())
		fr.env[x] = ex.fieldPtr(p, x.Field)
		return nil, true
	case *ssa.Field:
		s := ex.val(fr, x.X).(*StructV)
		if len(s.f) <= x.Field {
			unsup("field of opaque struct %s", s.t)
		}
		fr.env[x] = s.f[x.Field]
		return nil, true
	case *ssa.IndexAddr:
		fr.env[x] = ex.indexAddr(st, fr, x)
		return nil, true
	case *ssa.Index:
		fr.env[x] = ex.index(st, fr, x)
		return nil, true
	case *ssa.Slice:
		fr.env[x] = ex.slice(st, fr, x)
		return nil, true
	case *ssa.MakeSlice:
		n, k := termOf(ex.val(fr, x.Len)), termOf(ex.val(fr, x.Cap))
		ex.oblige(st, fr, "panic", "make: length in range", x.Pos(), c.And(c.geZero(n), c.Le(n, k)))
		fr.env[x] = ex.makeSlice(st, types.Unalias(x.Type()).Underlying().(*types.Slice).Elem(), n, k)
		return nil, true
	case *ssa.MakeMap:
		r := ex.newRef(st)
		ex.initMap(st, x.Type(), r)
		fr.env[x] = r
		return nil, true
	case *ssa.MakeChan:
		fr.env[x] = ex.makeChan(st, x.Type(), termOf(ex.val(fr, x.Size)))
		return nil, true
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, ex.val(fr, b))
		}
		fr.env[x] = f
		return nil, true
	case *ssa.MakeInterface:
		fr.env[x] = ex.makeIface(st, x.X.Type(), ex.val(fr, x.X))
		return nil, true
	case *ssa.ChangeInterface:
		fr.env[x] = ex.val(fr, x.X)
		if iv, ok := fr.env[x].(*IfaceV); ok && types.Identical(x.X.Type(), types.Universe.Lookup("error").Type()) {
			// an error is formatted as its text
			if t := ex.typeOfID(iv.tag); t == nil || types.Identical(t, ex.errType()) {
				ex.errVals[[2]*Term{iv.tag, iv.pay}] = true
			}
		}
		return nil, true
	case *ssa.ChangeType:
		v := ex.val(fr, x.X)
		switch y := v.(type) {
		case *StructV:
			v = &StructV{x.Type(), y.f}
		case *PtrV:
			if y.cell > 0 || y.arr != nil || y.glob != "" || y.path != "" {
				q := *y
				v = &q
			} else {
				e := deref(x.Type())
				v = &PtrV{ref: y.ref, root: e, elem: e}
			}
		}
		fr.env[x] = v
		return nil, true
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, fr, x.X.Type(), x.Type(), ex.val(fr, x.X))
		return nil, true
	case *ssa.TypeAssert:
		return ex.typeAssert(st, fr, x)
	case *ssa.Extract:
		fr.env[x] = ex.val(fr, x.Tuple).(*TupleV).f[x.Index]
		return nil, true
	case *ssa.Lookup:
		return ex.lookup(st, fr, x)
	case *ssa.MapUpdate:
		m := termOf(ex.val(fr, x.Map))
		ex.oblige(st, fr, "panic", "assignment to entry in nil map", x.Pos(), c.Not(c.Eq(m, c.zero)))
		ex.mapSet(st, x.Map.Type(), m, ex.val(fr, x.Key), ex.val(fr, x.Value))
		return nil, true
	case *ssa.Range:
		return ex.rangeStart(st, fr, x)
	case *ssa.Next:
		return ex.rangeNext(st, fr, x)
	case *ssa.Call:
		return ex.callCommon(st, fr, &x.Call, x.Pos(), x), false
	case *ssa.Defer:
		fv, args := ex.callee(st, fr, &x.Call, x.Pos())
		fr.defers = append(fr.defers, deferred{fn: fv, args: args, call: &x.Call})
		return nil, true
	case *ssa.RunDefers:
		return ex.runDefers(st, fr), false
	case *ssa.Go:
		fv, args := ex.callee(st, fr, &x.Call, x.Pos())
		if st.deferGo {
			st.spawned = append(st.spawned, spawn{fv, args, &x.Call})
			return nil, true
		}
		if st.inGo && !st.inLoop {
			st.spawned = append(st.spawned, spawn{fv, args, &x.Call})
			return nil, true
		}
		inGo, inLoop, spawned := st.inGo, st.inLoop, st.spawned
		st.inGo, st.inLoop, st.spawned = true, false, nil
		ex.note("goroutine started at %s runs to completion at its start (its effects commute with the starter)", fr.pos)
		outs := ex.callAny(st, fr, fv, args, &x.Call)
		for again := true; again; {
			again = false
			var next []Outcome
			for _, o := range outs {
				if o.kind == OReturn && len(o.st.spawned) > 0 {
					next = append(next, ex.runSpawned(o.st, fr)...)
					again = true
				} else {
					next = append(next, o)
				}
			}
			outs = next
		}
		for i := range outs {
			if outs[i].kind == OReturn {
				outs[i].val = nil
			}
			outs[i].st.inGo, outs[i].st.inLoop, outs[i].st.spawned = inGo, inLoop, spawned
		}
		return outs, false
	case *ssa.Send:
		return ex.flushed(st, fr, func(st *State) []Outcome {
			return ex.send(st, fr, x.Chan.Type(), termOf(ex.val(fr, x.Chan)), ex.val(fr, x.X), x.Pos())
		}), false
	case *ssa.Select:
		return ex.flushed(st, fr, func(st *State) []Outcome { return ex.sel(st, fr, x) }), false
	case *ssa.SliceToArrayPointer:
		unsup("slice to array conversion")
	}
	unsup("instruction %T", in)
	return nil, false
}

// flushed runs the goroutines started by this goroutine before it may have to wait for them.
func (ex *Exec) flushed(st *State, fr *Frame, do func(st *State) []Outcome) []Outcome {
	if st.deferGo || !st.inGo || len(st.spawned) == 0 {
		return do(st)
	}
	var outs []Outcome
	for _, o := range ex.runSpawned(st, fr) {
		if o.kind != OReturn {
			outs = append(outs, o)
			continue
		}
		outs = append(outs, ex.flushed(o.st, fr, do)...)
	}
	return outs
}

func (ex *Exec) runDefers(st *State, fr *Frame) []Outcome {
	ds := fr.defers
	fr.defers = nil
	outs := ret(st, nil)
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []Outcome
		for _, o := range outs {
			if o.kind != OReturn {
				next = append(next, o)
				continue
			}
			next = append(next, ex.callAny(o.st, fr, d.fn, d.args, d.call)...)
		}
		outs = next
	}
	for i := range outs {
		outs[i].val = nil
	}
	return outs
}

// alloc allocates a variable of type t.
func (ex *Exec) alloc(st *State, t types.Type) *PtrV {
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		id := ex.newRef(st)
		ex.zeroRow(st, a.Elem(), id)
		return &PtrV{arr: id, idx: ex.c.zero, root: a.Elem(), elem: t, ao: true}
	}
	return ex.newCell(st, t)
}

func (ex *Exec) zeroRow(st *State, elem types.Type, id *Term) {
	for _, l := range leaves(elem) {
		k := memKey(elem, l.path)
		st.heap[k] = ex.c.Store(ex.heapArr(st, k, l, 2), id, ex.c.ConstRow(ex.zeroLeaf(l)))
	}
}

func (ex *Exec) makeSlice(st *State, elem types.Type, n, k *Term) *SliceV {
	id := ex.newRef(st)
	ex.zeroRow(st, elem, id)
	return &SliceV{id, ex.c.zero, n, k, elem}
}

// ptr checks a pointer for nil before use.
func (ex *Exec) ptr(st *State, fr *Frame, v Val, pos token.Pos) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		unsup("address is %T", v)
	}
	if p.glob != "" || p.arr != nil || p.cell > 0 {
		return p
	}
	if p.path == "" || !p.nonnil {
		ex.oblige(st, fr, "panic", "no nil dereference", pos, ex.c.Not(ex.c.Eq(p.ref, ex.c.zero)))
		if st.dead {
			return p
		}
		q := *p
		q.nonnil = true
		return &q
	}
	return p
}

func (ex *Exec) checkGuard(st *State, fr *Frame, p *PtrV, write bool, pos token.Pos) {
	if len(st.guards) == 0 || st.spec || st.inMon > 0 || ex.suppress > 0 || ex.isContractFn(fr.fn) {
		return
	}
	for _, g := range st.guards {
		if !strings.HasPrefix(p.path, g.field.path) && !strings.HasPrefix(g.field.path, p.path) {
			continue
		}
		if p.arr != nil || p.glob != g.field.glob || typeKey(p.root) != typeKey(g.field.root) {
			continue
		}
		same := ex.c.tTrue
		if p.glob == "" {
			same = ex.ptrEq(st, &PtrV{ref: p.ref}, &PtrV{ref: g.field.ref})
		}
		if same.isFalse() {
			continue
		}
		lk := ex.lockState(st, g.mu)
		ok := ex.c.Not(ex.c.Eq(lk, ex.c.zero))
		what := "read"
		if write {
			ok = ex.c.Eq(lk, ex.c.Int(-1))
			what = "written"
		}
		ex.oblige(st, fr, "guard", g.name+" is only "+what+" under its lock", pos, ex.c.Or(ex.c.Not(same), ok))
	}
}

// isContractFn tells code of a contract from code under contract.
func (ex *Exec) isContractFn(fn *ssa.Function) bool {
	f := filepath.Base(ex.prog.fset.Position(fn.Pos()).Filename)
	return strings.HasPrefix(f, "zz_")
}

// volatileRead gives a variable other goroutines write a new value before it is read.
func (ex *Exec) volatileRead(st *State, fr *Frame, p *PtrV) {
	if len(st.vols) == 0 || st.spec || ex.isContractFn(fr.fn) {
		return
	}
	for _, v := range st.vols {
		if p.path != v.path || p.arr != nil || typeKey(p.root) != typeKey(v.root) {
			continue
		}
		if !ex.ptrEq(st, &PtrV{ref: p.ref}, &PtrV{ref: v.ref}).isTrue() {
			continue
		}
		ex.store(st, p, ex.freshVal(st, "volatile", p.elem))
	}
}

func (ex *Exec) indexAddr(st *State, fr *Frame, x *ssa.IndexAddr) Val {
	c := ex.c
	i := termOf(ex.val(fr, x.Index))
	switch b := ex.val(fr, x.X).(type) {
	case *SliceV:
		ex.oblige(st, fr, "panic", "index in range", x.Pos(), c.And(c.geZero(i), c.Lt(i, b.l)))
		return &PtrV{arr: b.a, idx: c.Add(b.o, i), root: b.elem, elem: b.elem}
	case *PtrV:
		at := types.Unalias(b.elem).Underlying().(*types.Array)
		ex.oblige(st, fr, "panic", "index in range", x.Pos(), c.And(c.geZero(i), c.Lt(i, c.Int(at.Len()))))
		if b.ao {
			return &PtrV{arr: b.arr, idx: c.Add(b.idx, i), root: b.root, elem: at.Elem()}
		}
		q := *ex.ptr(st, fr, b, x.Pos())
		if !i.isConst() {
			unsup("symbolic index into embedded array")
		}
		q.path += fmt.Sprintf("[%d]", i.c.Int64())
		q.elem = at.Elem()
		return &q
	}
	unsup("IndexAddr")
	return nil
}

func (ex *Exec) index(st *State, fr *Frame, x *ssa.Index) Val {
	c := ex.c
	i := termOf(ex.val(fr, x.Index))
	switch b := ex.val(fr, x.X).(type) {
	case *ArrV:
		at := types.Unalias(b.t).Underlying().(*types.Array)
		ex.oblige(st, fr, "panic", "index in range", x.Pos(), c.And(c.geZero(i), c.Lt(i, c.Int(at.Len()))))
		if i.isConst() {
			return b.f[i.c.Int64()]
		}
		v := b.f[len(b.f)-1]
		for k := len(b.f) - 2; k >= 0; k-- {
			v = ex.mergeVal(st, at.Elem(), c.Eq(i, c.Int(int64(k))), b.f[k], v)
		}
		return v
	case *Term: // string
		ex.oblige(st, fr, "panic", "index in range", x.Pos(), c.And(c.geZero(i), c.Lt(i, ex.strLen(st, b))))
		return ex.strAt(st, b, i)
	}
	unsup("Index")
	return nil
}

func (ex *Exec) slice(st *State, fr *Frame, x *ssa.Slice) Val {
	c := ex.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return termOf(ex.val(fr, v))
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.zero
	}
	switch b := ex.val(fr, x.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = b.l
		}
		cp := b.c
		if max != nil {
			ex.oblige(st, fr, "panic", "slice bounds", x.Pos(), c.And(c.Le(hi, max), c.Le(max, b.c)))
			cp = max
		}
		ex.oblige(st, fr, "panic", "slice bounds", x.Pos(), c.And(c.geZero(lo), c.Le(lo, hi), c.Le(hi, cp)))
		return &SliceV{b.a, c.Add(b.o, lo), c.Sub(hi, lo), c.Sub(cp, lo), b.elem}
	case *PtrV:
		if !b.ao {
			unsup("slice of embedded array")
		}
		n := c.Int(types.Unalias(b.elem).Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			cp = max
		}
		ex.oblige(st, fr, "panic", "slice bounds", x.Pos(), c.And(c.geZero(lo), c.Le(lo, hi), c.Le(hi, cp), c.Le(cp, n)))
		return &SliceV{b.arr, c.Add(b.idx, lo), c.Sub(hi, lo), c.Sub(cp, lo), b.root}
	case *Term: // string
		n := ex.strLen(st, b)
		if hi == nil {
			hi = n
		}
		ex.oblige(st, fr, "panic", "slice bounds", x.Pos(), c.And(c.geZero(lo), c.Le(lo, hi), c.Le(hi, n)))
		return ex.strSub(st, b, lo, hi)
	}
	unsup("slice")
	return nil
}

func (ex *Exec) unop(st *State, fr *Frame, x *ssa.UnOp) ([]Outcome, bool) {
	c := ex.c
	v := ex.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p := ex.ptr(st, fr, v, x.Pos())
		if st.dead {
			return nil, false
		}
		if p.glob != "" {
			if gv, ok := ex.globalConst(st, p); ok {
				fr.env[x] = gv
				return nil, true
			}
		}
		ex.checkGuard(st, fr, p, false, x.Pos())
		ex.volatileRead(st, fr, p)
		fr.env[x] = ex.load(st, p)
		return nil, true
	case token.NOT:
		fr.env[x] = c.Not(termOf(v))
		return nil, true
	case token.SUB:
		t := termOf(v)
		if t.sort == SF64 {
			fr.env[x] = ex.fpNeg(st, t)
			return nil, true
		}
		fr.env[x] = ex.wrap(st, c.Neg(t), x.Type())
		return nil, true
	case token.XOR:
		t := termOf(v)
		b := types.Unalias(x.Type()).Underlying().(*types.Basic)
		if b.Info()&types.IsUnsigned != 0 {
			_, hi, _ := intRange(b)
			fr.env[x] = c.Sub(c.Big(hi), t)
		} else {
			fr.env[x] = c.AddK(c.Neg(t), -1)
		}
		return nil, true
	case token.ARROW:
		return ex.flushed(st, fr, func(st *State) []Outcome { return ex.recv(st, fr, x.X.Type(), termOf(v), x.CommaOk, x.Pos()) }), false
	}
	unsup("unop %s", x.Op)
	return nil, false
}

// wrap reduces a mathematical integer to the range of a Go integer type.
func (ex *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	b, ok := types.Unalias(typ).Underlying().(*types.Basic)
	if !ok {
		unsup("wrap %s", typ)
	}
	lo, hi, ok := intRange(b)
	if !ok {
		unsup("wrap %s", typ)
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if st.spec {
		return t // arithmetic in specifications is mathematical
	}
	c := ex.c
	geLo, leHi := c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))
	if ex.holds(st, geLo) {
		if ex.holds(st, leHi) {
			st.assume(geLo)
			st.assume(leHi)
			return t
		}
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if t.lo != nil && t.hi != nil && t.lo.Cmp(new(big.Int).Sub(lo, m)) >= 0 && t.hi.Cmp(new(big.Int).Add(hi, m)) <= 0 {
		return c.Ite(geLo, c.Ite(leHi, t, c.Sub(t, c.Big(m))), c.Add(t, c.Big(m)))
	}
	return c.Add(c.ModE(c.Sub(t, c.Big(lo)), c.Big(m)), c.Big(lo))
}

func (ex *Exec) sign(st *State, t *Term) int { // 1: >=0 known, -1: <0 known
	if v, ok := st.decide(ex.c.geZero(t)); ok {
		if v {
			return 1
		}
		return -1
	}
	if ex.holds(st, ex.c.geZero(t)) {
		st.assume(ex.c.geZero(t))
		return 1
	}
	return 0
}

func (ex *Exec) divT(st *State, a, b *Term) *Term {
	c := ex.c
	sa, sb := ex.sign(st, a), ex.sign(st, b)
	pp := func() *Term { return c.DivE(a, b) }
	np := func() *Term { return c.Neg(c.DivE(c.Neg(a), b)) }
	pn := func() *Term { return c.Neg(c.DivE(a, c.Neg(b))) }
	nn := func() *Term { return c.DivE(c.Neg(a), c.Neg(b)) }
	pos := func() *Term { // b > 0
		switch sa {
		case 1:
			return pp()
		case -1:
			return np()
		}
		return c.Ite(c.geZero(a), pp(), np())
	}
	neg := func() *Term {
		switch sa {
		case 1:
			return pn()
		case -1:
			return nn()
		}
		return c.Ite(c.geZero(a), pn(), nn())
	}
	switch sb {
	case 1:
		return pos()
	case -1:
		return neg()
	}
	return c.Ite(c.geZero(b), pos(), neg())
}

func (ex *Exec) remT(st *State, a, b *Term) *Term {
	c := ex.c
	sa, sb := ex.sign(st, a), ex.sign(st, b)
	absb := b
	if sb == -1 {
		absb = c.Neg(b)
	} else if sb == 0 {
		absb = c.Ite(c.geZero(b), b, c.Neg(b))
	}
	switch sa {
	case 1:
		return c.ModE(a, absb)
	case -1:
		return c.Neg(c.ModE(c.Neg(a), absb))
	}
	return c.Ite(c.geZero(a), c.ModE(a, absb), c.Neg(c.ModE(c.Neg(a), absb)))
}

func (ex *Exec) binop(st *State, fr *Frame, x *ssa.BinOp) Val {
	a, b := ex.val(fr, x.X), ex.val(fr, x.Y)
	return ex.binopV(st, fr, x.Op, x.X.Type(), x.Y.Type(), x.Type(), a, b, x.Pos())
}

func (ex *Exec) binopV(st *State, fr *Frame, op token.Token, xt, yt, rt types.Type, a, b Val, pos token.Pos) Val {
	c := ex.c
	switch op {
	case token.EQL, token.NEQ:
		r := ex.eqVals(st, xt, yt, a, b)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	ta, tb := termOf(a), termOf(b)
	bt, _ := types.Unalias(xt).Underlying().(*types.Basic)
	if bt == nil {
		unsup("binop %s on %s", op, xt)
	}
	switch {
	case bt.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return ex.strConcat(st, ta, tb)
		case token.LSS:
			return ex.strLess(st, ta, tb)
		case token.GTR:
			return ex.strLess(st, tb, ta)
		case token.LEQ:
			return c.Not(ex.strLess(st, tb, ta))
		case token.GEQ:
			return c.Not(ex.strLess(st, ta, tb))
		}
	case bt.Info()&types.IsFloat != 0:
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return ex.fpArith(st, op, ta, tb, rt)
		case token.LSS:
			return ex.fpCmp("fp.lt", ta, tb)
		case token.GTR:
			return ex.fpCmp("fp.lt", tb, ta)
		case token.LEQ:
			return ex.fpCmp("fp.leq", ta, tb)
		case token.GEQ:
			return ex.fpCmp("fp.leq", tb, ta)
		}
	case bt.Info()&types.IsInteger != 0:
		switch op {
		case token.ADD:
			return ex.wrap(st, c.Add(ta, tb), rt)
		case token.SUB:
			return ex.wrap(st, c.Sub(ta, tb), rt)
		case token.MUL:
			return ex.wrap(st, c.Mul(ta, tb), rt)
		case token.QUO, token.REM:
			ex.oblige(st, fr, "panic", "no division by zero", pos, c.Not(c.Eq(tb, c.zero)))
			if st.dead {
				return c.zero
			}
			if op == token.QUO {
				return ex.wrap(st, ex.divT(st, ta, tb), rt)
			}
			return ex.remT(st, ta, tb)
		case token.LSS:
			return c.Lt(ta, tb)
		case token.GTR:
			return c.Gt(ta, tb)
		case token.LEQ:
			return c.Le(ta, tb)
		case token.GEQ:
			return c.Ge(ta, tb)
		case token.SHL, token.SHR:
			if tb.isConst() {
				n := tb.c.Int64()
				if tb.c.Sign() < 0 || n > 200 {
					n = 200
				}
				if op == token.SHL {
					return ex.wrap(st, c.MulK(ta, pow2(int(n))), rt)
				}
				return c.DivE(ta, c.Big(pow2(int(n))))
			}
		case token.AND:
			if ta.isConst() {
				ta, tb = tb, ta
			}
			if tb.isConst() && tb.c.Sign() >= 0 {
				m := new(big.Int).Add(tb.c, big.NewInt(1))
				if new(big.Int).And(m, tb.c).Sign() == 0 {
					return c.ModE(ta, c.Big(m))
				}
			}
		case token.OR, token.XOR, token.AND_NOT:
			if ta.isConst() && tb.isConst() {
				r := new(big.Int)
				switch op {
				case token.OR:
					r.Or(ta.c, tb.c)
				case token.XOR:
					r.Xor(ta.c, tb.c)
				default:
					r.AndNot(ta.c, tb.c)
				}
				return c.Big(r)
			}
			if ta.isConst() && ta.c.Sign() == 0 {
				if op != token.AND_NOT {
					return tb
				}
			}
			if tb.isConst() && tb.c.Sign() == 0 {
				return ta
			}
			if op == token.OR {
				if r := ex.disjointOr(ta, tb); r != nil {
					return r
				}
			}
		}
		lo, hi, _ := intRange(types.Unalias(rt).Underlying().(*types.Basic))
		ex.note("bit operation %s at %s is treated as returning any value", op, fr.pos)
		return c.Fresh("bits", SInt, lo, hi)
	}
	unsup("binop %s on %s", op, xt)
	return nil
}

// disjointOr recognises a|b where a < 2^k and 2^k divides b.
func (ex *Exec) disjointOr(a, b *Term) *Term {
	try := func(a, b *Term) *Term {
		if a.lo == nil || a.hi == nil || a.lo.Sign() < 0 {
			return nil
		}
		m := pow2(a.hi.BitLen())
		l := ex.c.linOf(b)
		if new(big.Int).Mod(l.k, m).Sign() != 0 {
			return nil
		}
		for _, v := range l.cs {
			if new(big.Int).Mod(v, m).Sign() != 0 {
				return nil
			}
		}
		return ex.c.Add(a, b)
	}
	if r := try(a, b); r != nil {
		return r
	}
	return try(b, a)
}

func (ex *Exec) eqVals(st *State, xt, yt types.Type, a, b Val) *Term {
	_, ai := types.Unalias(xt).Underlying().(*types.Interface)
	_, bi := types.Unalias(yt).Underlying().(*types.Interface)
	if ai && !bi {
		if iv, ok := b.(*IfaceV); !ok {
			b = ex.makeIface(st, yt, b)
		} else {
			b = iv
		}
	} else if bi && !ai {
		a = ex.makeIface(st, xt, a)
	}
	if t, ok := a.(*Term); ok && t.sort == SF64 {
		if t == b.(*Term) && !ex.c.fpTheory {
			return ex.c.Not(ex.isNaN(t))
		}
		return ex.fpCmp("fp.eq", t, b.(*Term))
	}
	return ex.valEq(st, xt, a, b)
}

func (ex *Exec) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) ([]Outcome, bool) {
	c := ex.c
	v := ex.val(fr, x.X).(*IfaceV)
	finish := func(ok *Term, val Val) {
		if x.CommaOk {
			fr.env[x] = &TupleV{[]Val{val, ok}}
			return
		}
		ex.oblige(st, fr, "panic", "type assertion", x.Pos(), ok)
		fr.env[x] = val
	}
	if it, isI := types.Unalias(x.AssertedType).Underlying().(*types.Interface); isI {
		ok := c.tFalse
		if v.tag.isConst() {
			if t := ex.typeOfID(v.tag); t != nil {
				ok = c.Bool(types.Implements(t, it))
			} else if v.tag.c.Sign() != 0 {
				ok = c.App("implements:"+typeKey(x.AssertedType), SBool, v.tag)
			}
		} else {
			ok = c.And(c.Not(c.Eq(v.tag, c.zero)), c.App("implements:"+typeKey(x.AssertedType), SBool, v.tag))
			for i, t := range ex.types {
				e := c.Eq(v.tag, c.Int(int64(i+1)))
				ok = c.And(ok, c.Implies(e, c.Bool(types.Implements(t, it))))
			}
		}
		if x.CommaOk {
			return ex.split(st, ok, func(s *State) []Outcome {
				return ret(s, &TupleV{[]Val{v, c.tTrue}})
			}, func(s *State) []Outcome {
				return ret(s, &TupleV{[]Val{&IfaceV{c.zero, c.zero}, c.tFalse}})
			}), false
		}
		finish(ok, v)
		return nil, true
	}
	ok := c.Eq(v.tag, ex.typeID(x.AssertedType))
	if x.CommaOk {
		return ex.split(st, ok, func(s *State) []Outcome {
			return ret(s, &TupleV{[]Val{ex.unbox(s, x.AssertedType, v), c.tTrue}})
		}, func(s *State) []Outcome {
			return ret(s, &TupleV{[]Val{ex.zeroVal(x.AssertedType), c.tFalse}})
		}), false
	}
	finish(ok, nil)
	if !st.dead {
		fr.env[x] = ex.unbox(st, x.AssertedType, v)
	}
	return nil, true
}

// ---- calls ----

func (ex *Exec) callee(st *State, fr *Frame, cc *ssa.CallCommon, pos token.Pos) (Val, []Val) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, a))
	}
	if cc.IsInvoke() {
		return &invokeV{ex.val(fr, cc.Value).(*IfaceV), cc.Method, cc.Value.Type()}, args
	}
	return ex.val(fr, cc.Value), args
}

type invokeV struct {
	iv *IfaceV
	m  *types.Func
	it types.Type
}

func (ex *Exec) callCommon(st *State, fr *Frame, cc *ssa.CallCommon, pos token.Pos, in *ssa.Call) []Outcome {
	fv, args := ex.callee(st, fr, cc, pos)
	return ex.callAny(st, fr, fv, args, cc)
}

func (ex *Exec) callAny(st *State, fr *Frame, fv Val, args []Val, cc *ssa.CallCommon) []Outcome {
	switch f := fv.(type) {
	case *FuncV:
		return ex.callFunc(st, fr, f, args, cc)
	case *invokeV:
		return ex.invoke(st, fr, f, args, cc)
	}
	unsup("call of %T", fv)
	return nil
}

func (ex *Exec) callFunc(st *State, fr *Frame, f *FuncV, args []Val, cc *ssa.CallCommon) []Outcome {
	if f.bi != nil {
		return ex.builtin(st, fr, f.bi, args, cc)
	}
	if f.model != "" {
		return ex.callModelValue(st, fr, f, args)
	}
	if f.fn == nil {
		id := f.id
		if id == nil {
			unsup("call of unknown function")
		}
		if id.isConst() {
			ex.oblige(st, fr, "panic", "call of nil function", token.NoPos, ex.c.Bool(id.c.Sign() != 0))
			if id.c.Sign() == 0 {
				st.dead = true
				return nil
			}
			unsup("call of unknown function value")
		}
		// resolve by cases over the known closures
		return ex.callSymbolic(st, fr, id, args, cc)
	}
	if f.fn.Synthetic == "package initializer" {
		return ret(st, nil) // other packages: InitPackage runs them by name
	}
	if outs, ok := ex.intrinsic(st, fr, f.fn, f.binds, args, cc); ok {
		return outs
	}
	if outs, ok := ex.modelCall(st, fr, f.fn, args, cc); ok {
		return outs
	}
	if len(f.fn.Blocks) == 0 {
		return ex.unknownCall(st, fr, f.fn.String(), f.fn.Signature, args)
	}
	outs := ex.runFn(st, fr, f.fn, args, f.binds)
	if st.spec && len(outs) > 1 {
		outs = ex.mergeOuts(st, outs, f.fn.Signature)
	}
	return outs
}

// mergeOuts joins the paths of a call made inside a specification.
func (ex *Exec) mergeOuts(st *State, outs []Outcome, sig *types.Signature) []Outcome {
	return outs
}

func (ex *Exec) callSymbolic(st *State, fr *Frame, id *Term, args []Val, cc *ssa.CallCommon) []Outcome {
	cands := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "ite" {
			walk(t.args[1])
			walk(t.args[2])
			return
		}
		if t.isConst() {
			cands[int(t.c.Int64())] = true
			return
		}
		unsup("call of unknown function value %s", t.name)
	}
	walk(id)
	var ids []int
	for k := range cands {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	var outs []Outcome
	for _, k := range ids {
		s := st.clone()
		s.assume(ex.c.Eq(id, ex.c.Int(int64(k))))
		if !ex.feasible(s) {
			continue
		}
		if k == 0 {
			ex.oblige(s, fr, "panic", "call of nil function", token.NoPos, ex.c.tFalse)
			continue
		}
		outs = append(outs, ex.callFunc(s, fr, ex.closures[k-1], args, cc)...)
	}
	return outs
}

// unknownCall over-approximates a call to code without a contract.
func (ex *Exec) unknownCall(st *State, fr *Frame, name string, sig *types.Signature, args []Val) []Outcome {
	ex.note("call to %s: result unconstrained, no effect on the program's own state", name)
	return ret(st, ex.freshResult(st, name, sig))
}

func (ex *Exec) freshResult(st *State, name string, sig *types.Signature) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return ex.freshVal(st, "ret:"+name, r.At(0).Type())
	}
	t := &TupleV{}
	for i := 0; i < r.Len(); i++ {
		t.f = append(t.f, ex.freshVal(st, fmt.Sprintf("ret%d:%s", i, name), r.At(i).Type()))
	}
	return t
}

func (ex *Exec) invoke(st *State, fr *Frame, f *invokeV, args []Val, cc *ssa.CallCommon) []Outcome {
	c := ex.c
	nonNil := c.Not(c.Eq(f.iv.tag, c.zero))
	if _, ok := ex.impls[typeKey(f.it)]; ok {
		nonNil = c.Not(c.Eq(f.iv.pay, c.zero))
	}
	ex.oblige(st, fr, "panic", "method call on nil interface ("+f.m.Name()+")", token.NoPos, nonNil)
	if st.dead {
		return nil
	}
	if outs, ok := ex.modelInvoke(st, fr, f, args, cc); ok {
		return outs
	}
	tag := f.iv.tag
	if !tag.isConst() {
		if t, ok := ex.impls[typeKey(f.it)]; ok {
			id := ex.typeID(t)
			st.assume(c.Eq(tag, id))
			tag = id
			if st.dead {
				return nil
			}
		} else if it := ex.iteTags(tag); it != nil {
			var outs []Outcome
			for _, k := range it {
				s := st.clone()
				s.assume(c.Eq(tag, c.Int(int64(k))))
				if k == 0 || !ex.feasible(s) {
					continue
				}
				outs = append(outs, ex.invoke(s, fr, &invokeV{&IfaceV{c.Int(int64(k)), f.iv.pay}, f.m, f.it}, args, cc)...)
			}
			return outs
		}
	}
	t := ex.typeOfID(tag)
	if t == nil {
		// dynamic type fixed by the path condition?
		for i, tt := range ex.types {
			if ex.holds(st, c.Eq(tag, c.Int(int64(i+1)))) {
				t = tt
			}
		}
	}
	if t == nil {
		return ex.unknownCall(st, fr, "interface method "+f.m.FullName(), f.m.Type().(*types.Signature), args)
	}
	fn := ex.prog.prog.LookupMethod(t, f.m.Pkg(), f.m.Name())
	if fn == nil {
		unsup("method %s of %s", f.m.Name(), t)
	}
	recv := ex.unbox(st, t, f.iv)
	if p, ok := recv.(*PtrV); ok && p.ref != nil && !p.ref.isConst() {
		ex.assumeValid(st, t, recv)
	}
	return ex.callFunc(st, fr, &FuncV{fn: fn}, append([]Val{recv}, args...), cc)
}

func (ex *Exec) iteTags(t *Term) []int {
	set := map[int]bool{}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "ite" {
			walk(t.args[1])
			walk(t.args[2])
		} else if t.isConst() {
			set[int(t.c.Int64())] = true
		} else {
			ok = false
		}
	}
	walk(t)
	if !ok {
		return nil
	}
	var r []int
	for k := range set {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
