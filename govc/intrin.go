package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const specPath = "github.com/LogicalOverflow/music-sync/verifspec"

func constStr(v Val) string {
	t, ok := v.(*Term)
	if !ok || t.op != "strconst" {
		unsup("specification name is not a constant string")
	}
	return t.name
}

// intrinsic handles calls into the specification package.
func (ex *Exec) intrinsic(st *State, fr *Frame, fn *ssa.Function, binds []Val, args []Val, cc *ssa.CallCommon) ([]Outcome, bool) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Pkg == nil || o.Pkg.Pkg.Path() != specPath || fn.Parent() != nil {
		return nil, false
	}
	c := ex.c
	pos := token.NoPos
	if cc != nil {
		pos = cc.Pos()
	}
	switch o.Name() {
	case "Requires", "Assume":
		t := termOf(args[0])
		st.assume(t)
		if !ex.feasible(st) {
			st.dead = true
			return nil, true
		}
		return ret(st, nil), true
	case "Ensures":
		n := constStr(args[0])
		ex.ensures[n] = true
		ex.oblige(st, fr, "ensures", n, pos, termOf(args[1]))
		return ret(st, nil), true
	case "Assert":
		ex.oblige(st, fr, "assert", constStr(args[0]), pos, termOf(args[1]))
		return ret(st, nil), true
	case "Cover":
		if ex.suppress == 0 && ex.feasible(st) {
			ex.covers[constStr(args[0])] = true
		}
		return ret(st, nil), true
	case "Lemma": // Lemma(name, cond): prove, then use
		ex.oblige(st, fr, "assert", constStr(args[0]), pos, termOf(args[1]))
		return ret(st, nil), true
	case "Implies":
		return ret(st, c.Implies(termOf(args[0]), termOf(args[1]))), true
	case "And":
		return ret(st, c.And(termOf(args[0]), termOf(args[1]))), true
	case "Or":
		return ret(st, c.Or(termOf(args[0]), termOf(args[1]))), true
	case "Iff":
		return ret(st, c.Eq(termOf(args[0]), termOf(args[1]))), true
	case "Ite":
		return ret(st, ex.mergeVal(st, fn.Signature.Results().At(0).Type(), termOf(args[0]), args[1], args[2])), true
	case "Forall", "Exists":
		lo, hi := termOf(args[0]), termOf(args[1])
		f := args[2].(*FuncV)
		i := c.BoundVar("i", SInt)
		s := st.clone()
		s.spec = true
		rng := c.And(c.Le(lo, i), c.Lt(i, hi))
		s.assume(c.Le(lo, i))
		s.assume(c.Lt(i, hi))
		if s.dead {
			return ret(st, c.Bool(o.Name() == "Forall")), true
		}
		body := termOf(ex.evalSpec(s, fr, f, []Val{i}))
		if o.Name() == "Forall" {
			return ret(st, c.Forall([]*Term{i}, c.Implies(rng, body))), true
		}
		return ret(st, c.Exists([]*Term{i}, c.And(rng, body))), true
	case "ForallOf", "ExistsOf": // over all values of a single-leaf type
		f := args[0].(*FuncV)
		t := fn.TypeArgs()[0]
		s := st.clone()
		s.spec = true
		ls := leaves(t)
		var vs []*Term
		rng := c.tTrue
		for _, l := range ls {
			b := c.BoundVar("x", l.sort)
			vs = append(vs, b)
			if l.sort == SInt {
				if l.lo != nil {
					rng = c.And(rng, c.Le(c.Big(l.lo), b))
				}
				if l.hi != nil {
					rng = c.And(rng, c.Le(b, c.Big(l.hi)))
				}
				if l.kind == 'r' {
					rng = c.And(rng, c.Lt(b, st.nextID))
				}
			}
		}
		val := ex.build(t, vs)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			rng = c.And(rng, c.Lt(c.zero, vs[0]))
			val.(*PtrV).nonnil = true
		}
		s.assume(rng)
		body := termOf(ex.evalSpec(s, fr, f, []Val{val}))
		if o.Name() == "ForallOf" {
			return ret(st, c.Forall(vs, c.Implies(rng, body))), true
		}
		return ret(st, c.Exists(vs, c.And(rng, body))), true
	case "Snap":
		return ret(st, ex.snap(st, fn.Signature.Params().At(0).Type(), args[0])), true
	case "Inv":
		f := ex.unFunc(args[0])
		var ts []types.Type
		ps := f.sig().Params()
		for i := 0; i < ps.Len(); i++ {
			ts = append(ts, ps.At(i).Type())
		}
		// closures keep the frame they were made in
		st.invs = append(st.invs, &invTempl{fn: f, types: ts, fr: fr})
		return ret(st, nil), true
	case "InitPackage":
		pk := fr.fn.Pkg
		if n := constStr(args[0]); n != "" {
			pk = ex.prog.prog.ImportedPackage(n)
		}
		if pk == nil || pk.Func("init") == nil {
			unsup("InitPackage: no such package")
		}
		if g := pk.Var("init$guard"); g != nil {
			ex.store(st, &PtrV{glob: ex.globName(g), root: deref(g.Type()), elem: deref(g.Type())}, c.tFalse)
		}
		return ex.runFn(st, fr, pk.Func("init"), nil, nil), true
	case "DropInvs":
		st.invs = nil
		return ret(st, nil), true
	case "Rec":
		return ret(st, ex.makeRec(st, fr, fn.TypeArgs()[0], args[0], args[1].(*FuncV))), true
	case "Any":
		t := fn.TypeArgs()[0]
		v := ex.freshVal(st, "any", t)
		ex.params = append(ex.params, paramInfo{"any", t, v})
		return ret(st, v), true
	case "AnyInt":
		lo, hi := termOf(args[0]), termOf(args[1])
		l := leaves(types.Typ[types.Int])[0]
		t := c.Fresh("anyint", SInt, l.lo, l.hi)
		st.assume(c.And(c.Le(lo, t), c.Le(t, hi)))
		return ret(st, t), true
	case "Bound":
		return ret(st, args[0]), true
	case "AnyBool":
		return ret(st, c.Fresh("anybool", SBool, nil, nil)), true
	case "Impl":
		ta := fn.TypeArgs()
		ex.impls[typeKey(ta[0])] = ta[1]
		ex.typeID(ta[1])
		ex.note("every %s the code meets is the stand-in %s (whose behaviour is unconstrained within the interface's documentation)", shortType(ta[0]), shortType(ta[1]))
		return ret(st, nil), true
	case "TypeAssume": // the value's dynamic type is T
		iv := args[0].(*IfaceV)
		st.assume(c.Eq(iv.tag, ex.typeID(fn.TypeArgs()[0])))
		st.assume(c.Lt(c.zero, iv.pay))
		return ret(st, nil), true
	case "OnLock":
		st.onLock = append(st.onLock, lockHook{ex.lockPtr(args[0]), args[1].(*FuncV)})
		return ret(st, nil), true
	case "Guarded":
		st.guards = append(st.guards, guard{ex.lockPtr(args[1]), unIface(ex, st, args[2]), constStr(args[0])})
		return ret(st, nil), true
	case "External":
		m := map[string]*FuncV{}
		for k, x := range st.externs {
			m[k] = x
		}
		m[constStr(args[0])] = ex.unFunc(args[1])
		st.externs = m
		ex.note("assumed contract on %s (its stand-in is in the contract)", constStr(args[0]))
		return ret(st, nil), true
	case "Volatile":
		st.vols = append(st.vols, unIface(ex, st, args[0]))
		return ret(st, nil), true
	case "Havoc":
		p := unIface(ex, st, args[0])
		ex.store(st, p, ex.freshVal(st, "havoc", p.elem))
		return ret(st, nil), true
	case "HavocSlice":
		sl := args[0].(*SliceV)
		for _, l := range leaves(sl.elem) {
			k := memKey(sl.elem, l.path)
			m := ex.heapArr(st, k, l, 2)
			lo, hi := l.lo, l.hi
			if l.sort != SInt {
				lo, hi = nil, nil
			}
			if isRef(l) && hi == nil && st.nextID.isConst() {
				hi = c.AddK(st.nextID, -1).c // what an element refers to exists already
			}
			f := c.Fresh("havoc", arrOf(l.sort), lo, hi)
			st.heap[k] = c.Store(m, sl.a, c.RowCopy(c.Select(st.decide, m, sl.a), f, sl.o, c.zero, sl.l))
		}
		return ret(st, nil), true
	case "Settle":
		return ret(st, nil), true
	case "Held":
		lk := ex.lockState(st, ex.lockPtr(args[0]))
		return ret(st, c.Not(c.Eq(lk, c.zero))), true
	case "DeferGo":
		st.deferGo = true
		return ret(st, nil), true
	case "Spawned":
		return ret(st, c.Int(int64(len(st.spawned)))), true
	case "RunSpawned":
		return ex.runSpawned(st, fr), true
	case "Visited":
		if len(st.iters) == 0 {
			unsup("Visited outside a map iteration")
		}
		it := st.iters[len(st.iters)-1]
		return ret(st, c.Select(st.decide, st.heap[it.key], ex.mapKey(st, fn.TypeArgs()[0], args[0]))), true
	case "NewSink", "NewSource":
		t := fn.TypeArgs()[0]
		ct := types.NewChan(types.SendRecv, t)
		r := ex.makeChan(st, ct, c.Big(maxLen))
		if o.Name() == "NewSource" {
			// arbitrary content: replace the zeroed buffer by an unconstrained one
			for _, l := range leaves(t) {
				k := "CB|" + typeKey(t) + "|" + l.path
				lo, hi := l.lo, l.hi
				if l.sort != SInt {
					lo, hi = nil, nil
				}
				st.heap[k] = c.Store(ex.heapArr(st, k, l, 2), r, c.Fresh("src", arrOf(l.sort), lo, hi))
			}
			ex.chanSet(st, t, "CS", r, c.Big(maxLen))
		}
		return ret(st, r), true
	case "Sent":
		return ret(st, ex.chanGet(st, fn.TypeArgs()[0], "CS", termOf(args[0]))), true
	case "Received":
		return ret(st, ex.chanGet(st, fn.TypeArgs()[0], "CR", termOf(args[0]))), true
	case "Closed":
		k := "CC|" + typeKey(fn.TypeArgs()[0])
		return ret(st, c.Select(st.decide, ex.heapArr(st, k, Leaf{sort: SBool}, 1), termOf(args[0]))), true
	case "ChanAt":
		return ret(st, ex.chanAt(st, fn.TypeArgs()[0], termOf(args[0]), termOf(args[1]))), true
	case "SameFloat":
		return ret(st, c.Eq(termOf(args[0]), termOf(args[1]))), true
	case "AddRange": // reveal arithmetic facts: no-op hook
		return ret(st, nil), true
	case "CatchPanic":
		// the callee must not panic: its panics are obligations anyway
		outs := ex.callFunc(st, fr, args[0].(*FuncV), nil, nil)
		for i := range outs {
			if outs[i].kind == OReturn {
				outs[i].val = c.tFalse
			}
		}
		return outs, true
	}
	if outs, ok := ex.intrinsic2(st, fr, o, fn, args, pos); ok {
		return outs, true
	}
	if len(fn.Blocks) > 0 && hasDirective(o, "inline") {
		return nil, false
	}
	unsup("unknown specification function %s", o.Name())
	return nil, true
}

func hasDirective(fn *ssa.Function, d string) bool {
	fd := fn.Syntax()
	if fd == nil {
		return false
	}
	return strings.HasPrefix(fn.Name(), "L_")
}

func (ex *Exec) unFunc(v Val) *FuncV {
	if iv, ok := v.(*IfaceV); ok {
		return ex.funcOf(iv.pay)
	}
	return v.(*FuncV)
}

func unIface(ex *Exec, st *State, v Val) *PtrV {
	if p, ok := v.(*PtrV); ok {
		return p
	}
	iv := v.(*IfaceV)
	t := ex.typeOfID(iv.tag)
	if t == nil {
		unsup("pointer of unknown type")
	}
	p, ok := ex.unbox(st, t, iv).(*PtrV)
	if !ok {
		unsup("not a pointer: %s", t)
	}
	return p
}

func (ex *Exec) lockPtr(v Val) *PtrV { return unIface(ex, nil, v) }

func (ex *Exec) runSpawned(st *State, fr *Frame) []Outcome {
	sp := st.spawned
	st.spawned = nil
	outs := ret(st, nil)
	for _, g := range sp {
		var next []Outcome
		for _, o := range outs {
			if o.kind != OReturn {
				next = append(next, o)
				continue
			}
			next = append(next, ex.callAny(o.st, fr, g.fn, g.args, g.call)...)
		}
		outs = next
	}
	for i := range outs {
		outs[i].val = nil
	}
	return outs
}

// snap copies a value one level deep.
func (ex *Exec) snap(st *State, t types.Type, v Val) Val {
	c := ex.c
	switch x := v.(type) {
	case *SliceV:
		if x.a.isConst() && x.a.c.Sign() == 0 {
			return x
		}
		id := ex.newRef(st)
		for _, l := range leaves(x.elem) {
			k := memKey(x.elem, l.path)
			m := ex.heapArr(st, k, l, 2)
			st.heap[k] = c.Store(m, id, c.Select(st.decide, m, x.a))
		}
		return &SliceV{id, x.o, x.l, x.c, x.elem}
	case *PtrV:
		p := ex.newCell(st, x.elem)
		ls := leaves(x.elem)
		q := *x
		q.nonnil = true
		for _, l := range ls {
			ex.writeLeaf(st, p, l, ex.readLeaf(st, &q, l))
		}
		return p
	case *StructV:
		return x
	case *Term:
		if mt, ok := t.Underlying().(*types.Map); ok {
			id := ex.newRef(st)
			ex.initMap(st, t, id)
			ex.copyMap(st, mt, id, x)
			return id
		}
		return x
	}
	return v
}

// makeRec introduces a recursively defined ghost function int -> T over the current heap.
func (ex *Exec) makeRec(st *State, fr *Frame, t types.Type, init Val, step *FuncV) Val {
	c := ex.c
	ls := leaves(t)
	base := ex.flat(st, t, init)
	ex.recN++
	n := ex.recN
	snap := st.clone()
	snap.spec = true
	names := make([]string, len(ls))
	for i := range ls {
		names[i] = fmt.Sprintf("rec%d%s", n, ls[i].path)
		c.funs[names[i]] = "(Int) " + string(ls[i].sort)
	}
	at := func(k *Term) Val {
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			ts[i] = c.App(names[i], l.sort, k)
			if l.sort == SInt && l.kind == 0 && ts[i].lo == nil {
				// no interval: specification integers are mathematical
			}
		}
		return ex.build(t, ts)
	}
	memo := map[*Term][]*Term{}
	for i := range ls {
		i := i
		c.recs[names[i]] = &recDef{name: names[i], base: base[i], step: func(k *Term) *Term {
			r, ok := memo[k]
			if !ok {
				r = ex.flat(snap, t, ex.evalSpec(snap, fr, step, []Val{k, at(k)}))
				memo[k] = r
			}
			return r[i]
		}}
	}
	f := &FuncV{model: "rec"}
	f.data = []Val{&recData{at, base, t}}
	return f
}

type recData struct {
	at   func(k *Term) Val
	base []*Term
	t    types.Type
}

func (ex *Exec) callModelValue(st *State, fr *Frame, f *FuncV, args []Val) []Outcome {
	switch f.model {
	case "rec":
		d := f.data[0].(*recData)
		k := termOf(args[0])
		if k.isConst() && k.c.Sign() <= 0 {
			return ret(st, ex.build(d.t, d.base))
		}
		return ret(st, d.at(k))
	}
	unsup("function model %s", f.model)
	return nil
}

// ---- locks ----

func (ex *Exec) lockState(st *State, p *PtrV) *Term {
	return ex.readLeaf(st, p, Leaf{"$lk", SInt, nil, nil, 'k'})
}

func (ex *Exec) setLock(st *State, p *PtrV, t *Term) {
	ex.writeLeaf(st, p, Leaf{"$lk", SInt, nil, nil, 'k'}, t)
}

func (ex *Exec) lockOp(st *State, fr *Frame, p *PtrV, op string, pos token.Pos) []Outcome {
	c := ex.c
	if st.spec {
		return ret(st, nil)
	}
	p = ex.ptr(st, fr, p, pos)
	lk := ex.lockState(st, p)
	switch op {
	case "Lock":
		ex.oblige(st, fr, "lock", "mutex not already held by this goroutine (self-deadlock)", pos, c.Eq(lk, c.zero))
		ex.setLock(st, p, c.Int(-1))
	case "RLock":
		ex.oblige(st, fr, "lock", "lock not already held for writing by this goroutine (self-deadlock)", pos, c.Le(c.zero, lk))
		ex.setLock(st, p, c.AddK(lk, 1))
	case "Unlock":
		ex.oblige(st, fr, "lock", "unlock of a held mutex", pos, c.Eq(lk, c.Int(-1)))
		ex.setLock(st, p, c.zero)
	case "RUnlock":
		ex.oblige(st, fr, "lock", "unlock of a read-held lock", pos, c.Lt(c.zero, lk))
		ex.setLock(st, p, c.AddK(lk, -1))
	}
	if st.dead {
		return nil
	}
	outs := ret(st, nil)
	if op == "Lock" || op == "RLock" {
		// acquiring the lock lets the environment's steps become visible
		for _, h := range st.onLock {
			if h.mu.path == p.path && typeKey(h.mu.root) == typeKey(p.root) {
				same := ex.ptrEq(st, h.mu, p)
				if !same.isTrue() && !ex.holds(st, same) {
					continue
				}
				var next []Outcome
				for _, o := range outs {
					o.st.inMon++
					for _, o2 := range ex.callFunc(o.st, fr, h.fn, nil, nil) {
						o2.st.inMon--
						o2.val = nil
						next = append(next, o2)
					}
				}
				outs = next
			}
		}
	}
	return outs
}

// checkLocksFree obliges every lock touched to be free.
func (ex *Exec) checkLocksFree(st *State, fr *Frame) {
	c := ex.c
	for k, t := range st.heap {
		if !strings.HasSuffix(k, "$lk") {
			continue
		}
		if t.sort == SInt {
			ex.oblige(st, fr, "lock", "lock released at the end ("+lockName(k)+")", token.NoPos, c.Eq(t, c.zero))
			continue
		}
		for x := t; x.op == "store"; x = x.args[0] {
			i := x.args[1]
			v := c.Select(st.decide, t, i)
			if v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) == 0 {
				v = c.Big(v.lo)
			}
			if v.isConst() && v.c.Sign() == 0 {
				continue
			}
			ex.oblige(st, fr, "lock", "lock released at the end ("+lockName(k)+")", token.NoPos, c.Eq(v, c.zero))
		}
	}
}

func lockName(k string) string {
	i := strings.LastIndex(k, "|")
	return strings.TrimSuffix(k[i+1:], "$lk")
}

// ---- channels ----

func (ex *Exec) chanGet(st *State, elem types.Type, what string, ch *Term) *Term {
	k := what + "|" + typeKey(elem)
	return ex.c.Select(st.decide, ex.heapArr(st, k, Leaf{sort: SInt, lo: big.NewInt(0), hi: maxIter}, 1), ch)
}

func (ex *Exec) chanSet(st *State, elem types.Type, what string, ch, v *Term) {
	k := what + "|" + typeKey(elem)
	st.heap[k] = ex.c.Store(ex.heapArr(st, k, Leaf{sort: SInt, lo: big.NewInt(0), hi: maxIter}, 1), ch, v)
}

func (ex *Exec) chanClosed(st *State, elem types.Type, ch *Term) *Term {
	return ex.c.Select(st.decide, ex.heapArr(st, "CC|"+typeKey(elem), Leaf{sort: SBool}, 1), ch)
}

func (ex *Exec) chanAt(st *State, elem types.Type, ch, i *Term) Val {
	var ts []*Term
	for _, l := range leaves(elem) {
		row := ex.c.Select(st.decide, ex.heapArr(st, "CB|"+typeKey(elem)+"|"+l.path, l, 2), ch)
		ts = append(ts, ex.c.Select(st.decide, row, i))
	}
	return ex.build(elem, ts)
}

func chanElem(t types.Type) types.Type {
	return types.Unalias(t).Underlying().(*types.Chan).Elem()
}

func (ex *Exec) makeChan(st *State, t types.Type, cap *Term) *Term {
	e := chanElem(t)
	r := ex.newRef(st)
	ex.chanSet(st, e, "CS", r, ex.c.zero)
	ex.chanSet(st, e, "CR", r, ex.c.zero)
	ex.chanSet(st, e, "CK", r, cap)
	k := "CC|" + typeKey(e)
	st.heap[k] = ex.c.Store(ex.heapArr(st, k, Leaf{sort: SBool}, 1), r, ex.c.tFalse)
	return r
}

func (ex *Exec) doSend(st *State, fr *Frame, e types.Type, ch *Term, v Val, pos token.Pos, blocking bool) {
	c := ex.c
	ex.oblige(st, fr, "panic", "no send on closed channel", pos, c.Not(ex.chanClosed(st, e, ch)))
	s := ex.chanGet(st, e, "CS", ch)
	if blocking && ex.contract.dir["noblock"] != "" {
		ex.oblige(st, fr, "panic", "send does not block", pos, c.Lt(c.Sub(s, ex.chanGet(st, e, "CR", ch)), ex.chanGet(st, e, "CK", ch)))
	}
	fl := ex.flat(st, e, v)
	for i, l := range leaves(e) {
		k := "CB|" + typeKey(e) + "|" + l.path
		m := ex.heapArr(st, k, l, 2)
		st.heap[k] = c.Store(m, ch, c.Store(c.Select(st.decide, m, ch), s, fl[i]))
	}
	ex.chanSet(st, e, "CS", ch, c.AddK(s, 1))
}

func (ex *Exec) send(st *State, fr *Frame, t types.Type, ch *Term, v Val, pos token.Pos) []Outcome {
	if h := ex.chanHook(st, ch); h != nil {
		unsup("send on modelled channel")
	}
	e := chanElem(t)
	if ch.isConst() && ch.c.Sign() == 0 {
		return nil
	}
	ex.doSend(st, fr, e, ch, v, pos, true)
	if st.dead {
		return nil
	}
	ex.note("a blocking channel send eventually succeeds (the other side keeps receiving)")
	return ret(st, nil)
}

func (ex *Exec) chanHook(st *State, ch *Term) *FuncV { return nil }

func (ex *Exec) recv(st *State, fr *Frame, t types.Type, ch *Term, commaOk bool, pos token.Pos) []Outcome {
	c := ex.c
	e := chanElem(t)
	mkv := func(v Val, ok *Term) Val {
		if commaOk {
			return &TupleV{[]Val{v, ok}}
		}
		return v
	}
	r, s := ex.chanGet(st, e, "CR", ch), ex.chanGet(st, e, "CS", ch)
	return ex.split(st, c.And(ex.chanClosed(st, e, ch), c.Le(s, r)), func(st *State) []Outcome {
		return ret(st, mkv(ex.zeroVal(e), c.tFalse))
	}, func(st *State) []Outcome {
		v := ex.chanAt(st, e, ch, r)
		if !st.spec {
			ex.assumeValid(st, e, v)
		}
		ex.chanSet(st, e, "CR", ch, c.AddK(r, 1))
		if !ex.holds(st, c.Lt(r, s)) {
			ex.chanSet(st, e, "CS", ch, c.Ite(c.Lt(r, s), s, c.AddK(r, 1)))
		}
		return ret(st, mkv(v, c.tTrue))
	})
}

func (ex *Exec) sel(st *State, fr *Frame, x *ssa.Select) []Outcome {
	c := ex.c
	var outs []Outcome
	// result: index, recvOk, received values of all receive states
	result := func(idx int, ok *Term, which int, v Val) Val {
		t := &TupleV{f: []Val{c.Int(int64(idx)), ok}}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == which {
					t.f = append(t.f, v)
				} else {
					t.f = append(t.f, ex.zeroVal(chanElem(s.Chan.Type())))
				}
			}
		}
		return t
	}
	var notReady []*Term
	for i, s := range x.States {
		ch := termOf(ex.val(fr, s.Chan))
		e := chanElem(s.Chan.Type())
		own := ch.isConst() && ch.c.Int64() >= allocBase
		sent, rcv := ex.chanGet(st, e, "CS", ch), ex.chanGet(st, e, "CR", ch)
		closed := ex.chanClosed(st, e, ch)
		n := st.clone()
		n.assume(c.Not(c.Eq(ch, c.zero)))
		if s.Dir == types.RecvOnly {
			ready := c.Or(c.Lt(rcv, sent), closed)
			if own {
				n.assume(ready)
				notReady = append(notReady, c.Not(ready))
			} else if !x.Blocking && len(leaves(e)) > 0 {
				// as for len: values are only added and taken by others where the contract says so
				n.assume(c.Or(ready, c.Eq(ex.chanGet(st, e, "CK", ch), c.zero)))
				notReady = append(notReady, c.Not(c.Lt(rcv, sent)))
			}
			if !ex.feasible(n) {
				continue
			}
			for _, o := range ex.recv(n, fr, s.Chan.Type(), ch, true, s.Pos) {
				tv := o.val.(*TupleV)
				outs = append(outs, Outcome{kind: OReturn, st: o.st, val: result(i, termOf(tv.f[1]), i, tv.f[0])})
			}
		} else {
			ready := c.Lt(c.Sub(sent, rcv), ex.chanGet(st, e, "CK", ch))
			if own {
				n.assume(ready)
				notReady = append(notReady, c.Not(ready))
			}
			if !ex.feasible(n) {
				continue
			}
			ex.doSend(n, fr, e, ch, ex.val(fr, s.Send), s.Pos, false)
			if !n.dead {
				outs = append(outs, Outcome{kind: OReturn, st: n, val: result(i, c.tFalse, -1, nil)})
			}
		}
	}
	if !x.Blocking {
		n := st.clone()
		for _, t := range notReady {
			n.assume(t)
		}
		if ex.feasible(n) {
			outs = append(outs, Outcome{kind: OReturn, st: n, val: result(-1, c.tFalse, -1, nil)})
		}
	}
	return outs
}
