package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- builtins ----

func (ex *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, args []Val, cc *ssa.CallCommon) []Outcome {
	c := ex.c
	pos := token.NoPos
	if cc != nil {
		pos = cc.Pos()
	}
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if b.Name() == "len" {
				return ret(st, x.l)
			}
			return ret(st, x.c)
		case *Term:
			if x.sort == SStr {
				return ret(st, ex.strLen(st, x))
			}
			switch u := types.Unalias(cc.Args[0].Type()).Underlying().(type) {
			case *types.Map:
				return ret(st, ex.mapLen(st, cc.Args[0].Type(), x))
			case *types.Chan:
				if b.Name() == "cap" {
					return ret(st, ex.chanGet(st, u.Elem(), "CK", x))
				}
				d := c.Sub(ex.chanGet(st, u.Elem(), "CS", x), ex.chanGet(st, u.Elem(), "CR", x))
				if !st.spec {
					st.assume(c.geZero(d))
				}
				return ret(st, d)
			}
		case *ArrV:
			return ret(st, c.Int(int64(len(x.f))))
		case *PtrV:
			return ret(st, c.Int(types.Unalias(x.elem).Underlying().(*types.Array).Len()))
		}
	case "append":
		s := args[0].(*SliceV)
		switch y := args[1].(type) {
		case *SliceV:
			return ex.appendSlice(st, s, y)
		case *Term:
			bs := ex.strBytes(st, y)
			return ex.appendSlice(st, s, bs)
		}
	case "copy":
		d := args[0].(*SliceV)
		var s *SliceV
		switch y := args[1].(type) {
		case *SliceV:
			s = y
		case *Term:
			s = ex.strBytes(st, y)
		}
		return ex.split(st, c.Le(d.l, s.l), func(st *State) []Outcome {
			ex.copyRow(st, d, s, d.l)
			return ret(st, d.l)
		}, func(st *State) []Outcome {
			ex.copyRow(st, d, s, s.l)
			return ret(st, s.l)
		})
	case "delete":
		ex.mapDelete(st, cc.Args[0].Type(), termOf(args[0]), args[1])
		return ret(st, nil)
	case "min", "max":
		r := termOf(args[0])
		for _, a := range args[1:] {
			t := termOf(a)
			if t.sort != SInt {
				unsup("min/max of %s", t.sort)
			}
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		return ret(st, r)
	case "close":
		ch := termOf(args[0])
		e := chanElem(cc.Args[0].Type())
		ex.oblige(st, fr, "panic", "close of nil channel", pos, c.Not(c.Eq(ch, c.zero)))
		ex.oblige(st, fr, "panic", "close of closed channel", pos, c.Not(ex.chanClosed(st, e, ch)))
		k := "CC|" + typeKey(e)
		st.heap[k] = c.Store(ex.heapArr(st, k, Leaf{sort: SBool}, 1), ch, c.tTrue)
		return ret(st, nil)
	case "print", "println":
		return ret(st, nil)
	case "ssa:wrapnilchk":
		ex.ptr(st, fr, args[0], pos)
		return ret(st, args[0])
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (ex *Exec) appendSlice(st *State, s, y *SliceV) []Outcome {
	c := ex.c
	n := y.l
	if n.isConst() && n.c.Sign() == 0 {
		return ret(st, s)
	}
	nl := c.Add(s.l, n)
	upd := func(st *State, to *Term) {
		for _, l := range leaves(s.elem) {
			k := memKey(s.elem, l.path)
			m := ex.heapArr(st, k, l, 2)
			old := c.Select(st.decide, m, s.a)
			src := c.Select(st.decide, m, y.a)
			row := old
			if n.isConst() && n.c.Int64() <= 8 {
				for i := int64(0); i < n.c.Int64(); i++ {
					row = c.Store(row, c.AddK(c.Add(s.o, s.l), i), c.Select(st.decide, src, c.AddK(y.o, i)))
				}
			} else {
				row = c.RowCopy(old, src, c.Add(s.o, s.l), y.o, n)
			}
			st.heap[k] = c.Store(m, to, row)
		}
	}
	return ex.split(st, c.Le(nl, s.c), func(st *State) []Outcome {
		if !n.isConst() {
			// appending nothing keeps even a nil slice as it is
		}
		upd(st, s.a)
		return ret(st, &SliceV{s.a, s.o, nl, s.c, s.elem})
	}, func(st *State) []Outcome {
		id := ex.newRef(st)
		upd(st, id)
		nc := c.Fresh("cap", SInt, big.NewInt(0), maxLen)
		st.assume(c.Le(nl, nc))
		return ret(st, &SliceV{id, s.o, nl, nc, s.elem})
	})
}

func (ex *Exec) copyRow(st *State, d, s *SliceV, n *Term) {
	c := ex.c
	for _, l := range leaves(d.elem) {
		k := memKey(d.elem, l.path)
		m := ex.heapArr(st, k, l, 2)
		old := c.Select(st.decide, m, d.a)
		src := c.Select(st.decide, m, s.a)
		st.heap[k] = c.Store(m, d.a, c.RowCopy(old, src, d.o, s.o, n))
	}
}

// ---- maps ----

func (ex *Exec) mapKey(st *State, t types.Type, v Val) *Term {
	c := ex.c
	if iv, ok := v.(*IfaceV); ok {
		if _, ok := ex.impls[typeKey(t)]; ok {
			return iv.pay
		}
	}
	fl := ex.flat(st, t, v)
	if len(fl) == 1 && fl[0].sort == SInt {
		return fl[0]
	}
	name := "key"
	for _, f := range fl {
		name += ":" + string(f.sort)
	}
	k := c.App(name, SInt, fl...)
	if !ex.axDone[name] {
		ex.axDone[name] = true
		var vs []*Term
		for _, f := range fl {
			vs = append(vs, c.BoundVar("k", f.sort))
		}
		app := c.App(name, SInt, vs...)
		for i, f := range fl {
			inv := c.App(fmt.Sprintf("%s/%d", name, i), f.sort, app)
			c.axioms = append(c.axioms, c.Forall(vs, c.Eq(inv, vs[i])))
		}
	}
	return k
}

func mapKV(t types.Type) *types.Map { return types.Unalias(t).Underlying().(*types.Map) }

var boolLeaf = Leaf{sort: SBool}
var lenLeaf = Leaf{sort: SInt, lo: big.NewInt(0), hi: maxLen}

func (ex *Exec) mdKey(t types.Type) string { return "MD|" + typeKey(mapKV(t)) }
func (ex *Exec) mlKey(t types.Type) string { return "ML|" + typeKey(mapKV(t)) }
func (ex *Exec) mvKey(t types.Type, l Leaf) string {
	return "MV|" + typeKey(mapKV(t)) + "|" + l.path
}

func (ex *Exec) initMap(st *State, t types.Type, m *Term) {
	c := ex.c
	k := ex.mdKey(t)
	st.heap[k] = c.Store(ex.heapArr(st, k, boolLeaf, 2), m, c.ConstRow(c.tFalse))
	k = ex.mlKey(t)
	st.heap[k] = c.Store(ex.heapArr(st, k, lenLeaf, 1), m, c.zero)
	for _, l := range leaves(mapKV(t).Elem()) {
		ex.heapArr(st, ex.mvKey(t, l), l, 2)
	}
}

func (ex *Exec) copyMap(st *State, mt *types.Map, to, from *Term) {
	c := ex.c
	k := ex.mdKey(mt)
	m := ex.heapArr(st, k, boolLeaf, 2)
	st.heap[k] = c.Store(m, to, c.Select(st.decide, m, from))
	k = ex.mlKey(mt)
	m = ex.heapArr(st, k, lenLeaf, 1)
	st.heap[k] = c.Store(m, to, c.Select(st.decide, m, from))
	for _, l := range leaves(mt.Elem()) {
		k = ex.mvKey(mt, l)
		m = ex.heapArr(st, k, l, 2)
		st.heap[k] = c.Store(m, to, c.Select(st.decide, m, from))
	}
}

func (ex *Exec) mapDom(st *State, t types.Type, m *Term) *Term {
	return ex.c.Select(st.decide, ex.heapArr(st, ex.mdKey(t), boolLeaf, 2), m)
}

func (ex *Exec) mapHas(st *State, t types.Type, m, k *Term) *Term {
	c := ex.c
	if m.isConst() && m.c.Sign() == 0 {
		return c.tFalse
	}
	d := c.Select(st.decide, ex.mapDom(st, t, m), k)
	return c.And(c.Not(c.Eq(m, c.zero)), d)
}

func (ex *Exec) mapVal(st *State, t types.Type, m, k *Term) Val {
	var ts []*Term
	for _, l := range leaves(mapKV(t).Elem()) {
		row := ex.c.Select(st.decide, ex.heapArr(st, ex.mvKey(t, l), l, 2), m)
		ts = append(ts, ex.c.Select(st.decide, row, k))
	}
	return ex.build(mapKV(t).Elem(), ts)
}

func (ex *Exec) mapLen(st *State, t types.Type, m *Term) *Term {
	c := ex.c
	l := c.Select(st.decide, ex.heapArr(st, ex.mlKey(t), lenLeaf, 1), m)
	return c.Ite(c.Eq(m, c.zero), c.zero, l)
}

func (ex *Exec) mapSet(st *State, t types.Type, m *Term, key, v Val) {
	c := ex.c
	k := ex.mapKey(st, mapKV(t).Key(), key)
	dk := ex.mdKey(t)
	dm := ex.heapArr(st, dk, boolLeaf, 2)
	dom := c.Select(st.decide, dm, m)
	had := c.Select(st.decide, dom, k)
	lk := ex.mlKey(t)
	lm := ex.heapArr(st, lk, lenLeaf, 1)
	ln := c.Select(st.decide, lm, m)
	st.heap[lk] = c.Store(lm, m, c.Ite(had, ln, c.AddK(ln, 1)))
	st.heap[dk] = c.Store(dm, m, c.Store(dom, k, c.tTrue))
	fl := ex.flat(st, mapKV(t).Elem(), v)
	for i, l := range leaves(mapKV(t).Elem()) {
		vk := ex.mvKey(t, l)
		vm := ex.heapArr(st, vk, l, 2)
		st.heap[vk] = c.Store(vm, m, c.Store(c.Select(st.decide, vm, m), k, fl[i]))
	}
}

func (ex *Exec) mapDelete(st *State, t types.Type, m *Term, key Val) {
	c := ex.c
	if m.isConst() && m.c.Sign() == 0 {
		return
	}
	k := ex.mapKey(st, mapKV(t).Key(), key)
	dk := ex.mdKey(t)
	dm := ex.heapArr(st, dk, boolLeaf, 2)
	dom := c.Select(st.decide, dm, m)
	had := c.Select(st.decide, dom, k)
	lk := ex.mlKey(t)
	lm := ex.heapArr(st, lk, lenLeaf, 1)
	ln := c.Select(st.decide, lm, m)
	st.heap[lk] = c.Store(lm, m, c.Ite(had, c.AddK(ln, -1), ln))
	st.heap[dk] = c.Store(dm, m, c.Store(dom, k, c.tFalse))
}

func (ex *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) ([]Outcome, bool) {
	c := ex.c
	v := ex.val(fr, x.X)
	if s, ok := v.(*Term); ok && s.sort == SStr {
		i := termOf(ex.val(fr, x.Index))
		ex.oblige(st, fr, "panic", "index in range", x.Pos(), c.And(c.geZero(i), c.Lt(i, ex.strLen(st, s))))
		fr.env[x] = ex.strAt(st, s, i)
		return nil, true
	}
	t := x.X.Type()
	m := termOf(v)
	k := ex.mapKey(st, mapKV(t).Key(), ex.val(fr, x.Index))
	has := ex.mapHas(st, t, m, k)
	yes := func(st *State) []Outcome {
		val := ex.mapVal(st, t, m, k)
		if !st.spec {
			ex.assumeValid(st, mapKV(t).Elem(), val)
			st.assume(c.Lt(c.zero, c.Select(st.decide, ex.heapArr(st, ex.mlKey(t), lenLeaf, 1), m)))
		}
		if x.CommaOk {
			return ret(st, &TupleV{[]Val{val, c.tTrue}})
		}
		return ret(st, val)
	}
	no := func(st *State) []Outcome {
		val := ex.zeroVal(mapKV(t).Elem())
		if x.CommaOk {
			return ret(st, &TupleV{[]Val{val, c.tFalse}})
		}
		return ret(st, val)
	}
	if st.spec && len(leaves(mapKV(t).Elem())) > 0 {
		if d, ok := st.decide(has); ok {
			if d {
				return yes(st), false
			}
			return no(st), false
		}
		val := ex.mergeVal(st, mapKV(t).Elem(), has, ex.mapVal(st, t, m, k), ex.zeroVal(mapKV(t).Elem()))
		if x.CommaOk {
			return ret(st, &TupleV{[]Val{val, has}}), false
		}
		return ret(st, val), false
	}
	if _, ok := types.Unalias(mapKV(t).Elem()).Underlying().(*types.Basic); ok && !x.CommaOk {
		if _, known := st.decide(has); !known {
			st.assume(c.Or(c.Not(has), c.Lt(c.zero, c.Select(st.decide, ex.heapArr(st, ex.mlKey(t), lenLeaf, 1), m))))
			return ret(st, ex.mergeVal(st, mapKV(t).Elem(), has, ex.mapVal(st, t, m, k), ex.zeroVal(mapKV(t).Elem()))), false
		}
	}
	return ex.split(st, has, yes, no), false
}

type mapIter struct {
	key  string
	t    types.Type
	m    *Term
	dom0 *Term
	str  *Term
	fn   *ssa.Function
}

func (ex *Exec) rangeStart(st *State, fr *Frame, x *ssa.Range) ([]Outcome, bool) {
	c := ex.c
	if _, ok := types.Unalias(x.X.Type()).Underlying().(*types.Map); !ok {
		return ex.strRangeStart(st, fr, x)
	}
	m := termOf(ex.val(fr, x.X))
	ex.cells++
	it := &mapIter{key: fmt.Sprintf("IT|%d", ex.cells), t: x.X.Type(), m: m, fn: fr.fn}
	ex.keyLeaf[it.key] = keyInfo{boolLeaf, 1}
	st.heap[it.key] = c.ConstRow(c.tFalse)
	it.dom0 = ex.mapDom(st, x.X.Type(), m)
	st.iters = append(st.iters, it)
	fr.env[x] = it
	return nil, true
}

func (ex *Exec) rangeNext(st *State, fr *Frame, x *ssa.Next) ([]Outcome, bool) {
	c := ex.c
	it := ex.val(fr, x.Iter).(*mapIter)
	if it.t == nil {
		return ex.strRangeNext(st, fr, x, it)
	}
	kt, vt := mapKV(it.t).Key(), mapKV(it.t).Elem()
	more := c.Fresh("more", SBool, nil, nil)
	return ex.split(st, more, func(st *State) []Outcome {
		kv := ex.freshVal(st, "key", kt)
		if iv, ok := kv.(*IfaceV); ok {
			if t, ok := ex.impls[typeKey(kt)]; ok {
				iv.tag = ex.typeID(t)
				st.assume(c.Lt(c.zero, iv.pay))
			}
		}
		k := ex.mapKey(st, kt, kv)
		vis := st.heap[it.key]
		st.assume(c.Not(c.Eq(it.m, c.zero)))
		st.assume(c.Select(st.decide, it.dom0, k))
		st.assume(c.Select(st.decide, ex.mapDom(st, it.t, it.m), k))
		st.assume(c.Not(c.Select(st.decide, vis, k)))
		if !ex.feasible(st) {
			return nil
		}
		st.heap[it.key] = c.Store(vis, k, c.tTrue)
		v := ex.mapVal(st, it.t, it.m, k)
		ex.assumeValid(st, vt, v)
		return ret(st, &TupleV{[]Val{c.tTrue, kv, v}})
	}, func(st *State) []Outcome {
		vis := st.heap[it.key]
		b := c.BoundVar("k", SInt)
		all := c.Forall([]*Term{b}, c.Implies(c.And(c.Not(c.Eq(it.m, c.zero)), c.Select(st.decide, it.dom0, b), c.Select(st.decide, ex.mapDom(st, it.t, it.m), b)), c.Select(st.decide, vis, b)))
		st.assume(all)
		return ret(st, &TupleV{[]Val{c.tFalse, ex.zeroVal(kt), ex.zeroVal(vt)}})
	}), false
}

// ---- strings ----

func (ex *Exec) strLen(st *State, s *Term) *Term {
	c := ex.c
	if s.op == "strconst" {
		return c.Int(int64(len(s.name)))
	}
	if s.op == "app" && s.name == "scat" {
		return c.Add(ex.strLen(st, s.args[0]), ex.strLen(st, s.args[1]))
	}
	if s.op == "ite" {
		return c.Ite(s.args[0], ex.strLen(st, s.args[1]), ex.strLen(st, s.args[2]))
	}
	var t *Term
	if c.strTheory {
		if s.op == "smt" && s.name == "str.++" {
			return c.Add(ex.strLen(st, s.args[0]), ex.strLen(st, s.args[1]))
		}
		t = c.mkn("smt", SInt, "str.len", s)
		t.lo = big.NewInt(0)
		if !s.bound {
			st.assume(c.mk(">=0", SBool, c.Sub(c.Big(maxLen), t)))
		}
		return t
	}
	t = c.App("slen", SInt, s)
	if !s.bound && !st.pcs[c.rawGe(t)] {
		g := c.rawGe(t)
		st.pc = append(st.pc, g)
		st.pcs[g] = true
		st.addBound(t)
		st.assume(c.mk(">=0", SBool, c.Sub(c.Big(maxLen), t)))
		if !st.spec {
			// the empty string is the only one of length 0
			st.assume(c.Eq(c.Eq(t, c.zero), c.Eq(s, c.Str(""))))
		}
	}
	return t
}

func (c *Ctx) rawGe(t *Term) *Term { return c.mk(">=0", SBool, t) }

func (ex *Exec) strConcat(st *State, a, b *Term) *Term {
	c := ex.c
	if a.op == "strconst" && b.op == "strconst" {
		return c.Str(a.name + b.name)
	}
	if a.op == "strconst" && a.name == "" {
		return b
	}
	if b.op == "strconst" && b.name == "" {
		return a
	}
	if c.strTheory {
		return c.mkn("smt", SStr, "str.++", a, b)
	}
	// right-associated normal form, adjacent constants joined
	if a.op == "app" && a.name == "scat" {
		return ex.strConcat(st, a.args[0], ex.strConcat(st, a.args[1], b))
	}
	if a.op == "strconst" && b.op == "app" && b.name == "scat" && b.args[0].op == "strconst" {
		return c.App("scat", SStr, c.Str(a.name+b.args[0].name), b.args[1])
	}
	return c.App("scat", SStr, a, b)
}

func (ex *Exec) strAt(st *State, s, i *Term) *Term {
	c := ex.c
	if s.op == "strconst" && i.isConst() && i.c.Sign() >= 0 && i.c.Cmp(big.NewInt(int64(len(s.name)))) < 0 {
		return c.Int(int64(s.name[i.c.Int64()]))
	}
	if c.strTheory {
		t := c.mkn("smt", SInt, "str.to_code", c.mkn("smt", SStr, "str.at", s, i))
		if !t.bound && !st.spec {
			st.assume(c.And(c.mk(">=0", SBool, t), c.mk(">=0", SBool, c.Sub(c.Int(255), t))))
		}
		return t
	}
	t := c.App("sat", SInt, s, i)
	if !t.bound {
		g := c.And(c.mk(">=0", SBool, t), c.mk(">=0", SBool, c.Sub(c.Int(255), t)))
		st.assume(g)
	}
	return t
}

func (ex *Exec) strSub(st *State, s, lo, hi *Term) *Term {
	c := ex.c
	if s.op == "strconst" && lo.isConst() && hi.isConst() {
		l, h := lo.c.Int64(), hi.c.Int64()
		if 0 <= l && l <= h && h <= int64(len(s.name)) {
			return c.Str(s.name[l:h])
		}
	}
	if lo.isConst() && lo.c.Sign() == 0 && hi == ex.strLen(st, s) {
		return s
	}
	if c.strTheory {
		return c.mkn("smt", SStr, "str.substr", s, lo, c.Sub(hi, lo))
	}
	t := c.App("ssub", SStr, s, lo, hi)
	if !t.bound && !st.spec {
		n := c.App("slen", SInt, t)
		st.assume(c.Or(c.Not(c.And(c.geZero(lo), c.Le(lo, hi), c.Le(hi, ex.strLen(st, s)))), c.Eq(n, c.Sub(hi, lo))))
	}
	return t
}

func (ex *Exec) strLess(st *State, a, b *Term) *Term {
	c := ex.c
	if a == b {
		return c.tFalse
	}
	if a.op == "strconst" && b.op == "strconst" {
		return c.Bool(a.name < b.name)
	}
	if c.strTheory {
		return c.mkn("smt", SBool, "str.<", a, b)
	}
	ex.strOrder()
	// strict total order through an order-preserving rank into the reals is not available; use an
	// uninterpreted rank into Int restricted to the facts of a strict total order
	return c.App("slt", SBool, a, b)
}

// strOrder adds the axioms of a strict total order for the abstract string sort.
func (ex *Exec) strOrder() {
	if ex.axDone["slt"] {
		return
	}
	ex.axDone["slt"] = true
	c := ex.c
	a, b, d := c.BoundVar("a", SStr), c.BoundVar("b", SStr), c.BoundVar("d", SStr)
	lt := func(x, y *Term) *Term { return c.App("slt", SBool, x, y) }
	c.axioms = append(c.axioms,
		c.Forall([]*Term{a}, c.Not(lt(a, a))),
		c.Forall([]*Term{a, b, d}, c.Implies(c.And(lt(a, b), lt(b, d)), lt(a, d))),
		c.Forall([]*Term{a, b}, c.Or(lt(a, b), lt(b, a), c.Eq(a, b))))
}

// strBytes is the byte slice of a string.
func (ex *Exec) strBytes(st *State, s *Term) *SliceV {
	c := ex.c
	bt := types.Typ[types.Uint8]
	id := ex.newRef(st)
	l := leaves(bt)[0]
	k := memKey(bt, l.path)
	row := c.App("bytesof", arrOf(SInt), s)
	n := ex.strLen(st, s)
	if s.op == "strconst" && len(s.name) <= 64 {
		for i := 0; i < len(s.name); i++ {
			st.assume(c.Eq(c.Select(st.decide, row, c.Int(int64(i))), c.Int(int64(s.name[i]))))
		}
	} else {
		i := c.BoundVar("i", SInt)
		st.assume(c.Forall([]*Term{i}, c.Implies(c.And(c.geZero(i), c.Lt(i, n)), c.Eq(c.Select(st.decide, row, i), ex.strAt(st, s, i)))))
	}
	st.heap[k] = c.Store(ex.heapArr(st, k, l, 2), id, row)
	return &SliceV{id, c.zero, n, n, bt}
}

func (ex *Exec) strRangeStart(st *State, fr *Frame, x *ssa.Range) ([]Outcome, bool) {
	s := termOf(ex.val(fr, x.X))
	ex.cells++
	it := &mapIter{key: fmt.Sprintf("IT|%d", ex.cells), str: s}
	ex.keyLeaf[it.key] = keyInfo{lenLeaf, 0}
	st.heap[it.key] = ex.c.zero
	fr.env[x] = it
	return nil, true
}

// strRangeNext decodes one rune: a rune occupies 1..4 bytes, ASCII bytes stand for themselves.
func (ex *Exec) strRangeNext(st *State, fr *Frame, x *ssa.Next, it *mapIter) ([]Outcome, bool) {
	c := ex.c
	p := st.heap[it.key]
	n := ex.strLen(st, it.str)
	return ex.split(st, c.Lt(p, n), func(st *State) []Outcome {
		w := c.App("runewidth", SInt, it.str, p)
		st.assume(c.And(c.mk(">=0", SBool, c.AddK(w, -1)), c.mk(">=0", SBool, c.Sub(c.Int(4), w)), c.Le(c.Add(p, w), n)))
		r := c.App("runeat", SInt, it.str, p)
		st.assume(c.And(c.mk(">=0", SBool, r), c.mk(">=0", SBool, c.Sub(c.Int(0x10ffff), r))))
		b := ex.strAt(st, it.str, p)
		st.assume(c.Or(c.Not(c.Lt(b, c.Int(128))), c.And(c.Eq(w, c.one), c.Eq(r, b))))
		st.heap[it.key] = c.Add(p, w)
		return ret(st, &TupleV{[]Val{c.tTrue, p, r}})
	}, func(st *State) []Outcome {
		return ret(st, &TupleV{[]Val{c.tFalse, c.zero, c.zero}})
	}), false
}

// ---- floats ----

func fpLit(f float64) string {
	if math.IsNaN(f) {
		return "(_ NaN 11 53)"
	}
	b := math.Float64bits(f)
	l := fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1))
	leafMu.Lock()
	fpLits[l] = f
	leafMu.Unlock()
	return l
}

var fpLits = map[string]float64{}

func (ex *Exec) isNaN(t *Term) *Term {
	c := ex.c
	if t.op == "fpconst" {
		return c.Bool(t.name == "(_ NaN 11 53)")
	}
	if c.fpTheory {
		return c.mkn("smt", SBool, "fp.isNaN", t)
	}
	return c.mkn("fpop", SBool, "isnan", t)
}

func (ex *Exec) fpNeg(st *State, t *Term) *Term {
	r := ex.c.mkn("fpop", SF64, "fp.neg", t)
	if ex.c.fpReal {
		c := ex.c
		st.assume(c.And(c.Eq(ex.isNaN(r), ex.isNaN(t)), c.mkn("smt", SBool, "=", c.fpval(r), c.mkn("smt", "Real", "-", c.fpval(t)))))
	}
	return r
}

func (ex *Exec) fpArith(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
		ex.note("float32 arithmetic treated as float64")
	}
	n := map[token.Token]string{token.ADD: "fp.add RNE", token.SUB: "fp.sub RNE", token.MUL: "fp.mul RNE", token.QUO: "fp.div RNE"}[op]
	r := ex.c.mkn("fpop", SF64, n, a, b)
	if ex.c.fpReal {
		ex.realArith(st, op, a, b, r)
	}
	return r
}

func (ex *Exec) convert(st *State, fr *Frame, from, to types.Type, v Val) Val {
	c := ex.c
	fu, tu := types.Unalias(from).Underlying(), types.Unalias(to).Underlying()
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		t := termOf(v)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return ex.wrap(st, t, to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if t.isConst() {
				f := new(big.Float).SetInt(t.c)
				r, _ := f.Float64()
				return ex.fpConst(r)
			}
			if c.fpTheory {
				return ex.intToFP(st, t)
			}
			r := c.mkn("fpop", SF64, "i2f", t)
			if c.fpReal {
				ex.realOfInt(st, t, r)
			}
			return r
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return ex.fpToInt(st, t, tb)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				ex.note("conversion to float32 treated as exact")
			}
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			r := c.App("runestr", SStr, t)
			return r
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			eb, _ := types.Unalias(sl.Elem()).Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				r := ex.strBytes(st, termOf(v))
				return &SliceV{r.a, r.o, r.l, r.c, sl.Elem()}
			}
			if eb != nil && eb.Kind() == types.Int32 {
				return ex.strRunes(st, termOf(v), sl.Elem())
			}
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if sv, ok := v.(*SliceV); ok {
			return ex.sliceToStr(st, sv)
		}
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

func (ex *Exec) strRunes(st *State, s *Term, elem types.Type) Val {
	c := ex.c
	id := ex.newRef(st)
	l := leaves(elem)[0]
	k := memKey(elem, l.path)
	row := c.App("runesof", arrOf(SInt), s)
	n := c.App("runecount", SInt, s)
	st.assume(c.And(c.mk(">=0", SBool, n), c.Le(n, ex.strLen(st, s)), c.Eq(c.Eq(n, c.zero), c.Eq(ex.strLen(st, s), c.zero))))
	st.heap[k] = c.Store(ex.heapArr(st, k, l, 2), id, row)
	return &SliceV{id, c.zero, n, n, elem}
}

// sliceToStr converts bytes or runes to a string: an uninterpreted function of the content.
func (ex *Exec) sliceToStr(st *State, s *SliceV) *Term {
	c := ex.c
	l := leaves(s.elem)[0]
	row := c.Select(st.decide, ex.heapArr(st, memKey(s.elem, l.path), l, 2), s.a)
	isByte := l.hi.Cmp(big.NewInt(255)) == 0
	// exact inverse of a conversion
	if row.op == "app" && row.name == "bytesof" && isByte && s.o.isConst() && s.o.c.Sign() == 0 && s.l == ex.strLen(st, row.args[0]) {
		return row.args[0]
	}
	// the same content gives the same string
	t := c.Var(fmt.Sprintf("str!%d!%d!%d", row.id, s.o.id, s.l.id), SStr, nil, nil)
	if st.spec {
		unsup("conversion to string inside a specification")
	}
	n := ex.strLen(st, t)
	if isByte {
		st.assume(c.Eq(n, s.l))
		i := c.BoundVar("i", SInt)
		st.assume(c.Forall([]*Term{i}, c.Implies(c.And(c.geZero(i), c.Lt(i, n)), c.Eq(ex.strAt(st, t, i), c.Select(st.decide, row, c.Add(s.o, i))))))
	} else {
		st.assume(c.Eq(c.Eq(n, c.zero), c.Eq(s.l, c.zero)))
		ex.note("conversion of runes to string is unconstrained except for emptiness")
	}
	return t
}

func (ex *Exec) intToFP(st *State, t *Term) *Term {
	return ex.c.mkn("smt", SF64, "(_ to_fp 11 53) RNE", ex.c.mkn("smt", "Real", "to_real", t))
}

func (ex *Exec) fpToInt(st *State, t *Term, tb *types.Basic) *Term {
	c := ex.c
	lo, hi, _ := intRange(tb)
	if !c.fpTheory {
		r := c.mkn("fpop", SInt, "f2i:"+tb.Name(), t)
		st.assume(c.And(c.rawGe(c.Sub(r, c.Big(lo))), c.rawGe(c.Sub(c.Big(hi), r))))
		if c.fpReal {
			ex.realToInt(st, t, r, lo, hi)
		}
		return r
	}
	// truncation toward zero; out of range values are implementation-defined in Go
	real := c.mkn("smt", "Real", "fp.to_real", c.mkn("smt", SF64, "fp.roundToIntegral RTZ", t))
	r := c.mkn("smt", SInt, "to_int", real)
	out := c.Fresh("f2i", SInt, lo, hi)
	in := c.And(c.Not(c.mkn("smt", SBool, "fp.isNaN", t)), c.Not(c.mkn("smt", SBool, "fp.isInfinite", t)),
		c.rawGe(c.Sub(r, c.Big(lo))), c.rawGe(c.Sub(c.Big(hi), r)))
	st.assume(c.Implies(in, c.Eq(out, r)))
	return out
}

// ---- errors ----

var errNamed *types.Named

func (ex *Exec) errType() types.Type {
	leafMu.Lock()
	defer leafMu.Unlock()
	if errNamed == nil {
		errNamed = types.NewNamed(types.NewTypeName(token.NoPos, nil, "$error", nil), types.NewStruct(nil, nil), nil)
	}
	return types.NewPointer(errNamed)
}

func (ex *Exec) newError(st *State, text *Term) *IfaceV {
	c := ex.c
	r := ex.newRef(st)
	if text != nil {
		st.assume(c.Eq(c.App("errtext", SStr, r), text))
	}
	return &IfaceV{ex.typeID(ex.errType()), r}
}

func nilIface(c *Ctx) *IfaceV { return &IfaceV{c.zero, c.zero} }

// fmtText is the text of a formatted message: an uninterpreted function of format and operands.
func (ex *Exec) fmtText(st *State, name string, first *Term, rest *SliceV) *Term {
	c := ex.c
	args := []*Term{}
	if first != nil {
		args = append(args, first)
	}
	if rest != nil {
		if !rest.l.isConst() {
			return c.Fresh("fmt", SStr, nil, nil)
		}
		it := rest.elem
		for i := int64(0); i < rest.l.c.Int64(); i++ {
			v := ex.load(st, &PtrV{arr: rest.a, idx: c.AddK(rest.o, i), root: it, elem: it}).(*IfaceV)
			args = append(args, v.tag, v.pay)
		}
		if name == "sprint" && len(args) == 2 {
			if t := ex.fmtVerbs(st, "%v", args); t != nil {
				return t
			}
		}
		if name == "sprintf" && first.op == "strconst" {
			if t := ex.fmtVerbs(st, first.name, args[1:]); t != nil {
				return t
			}
		}
	}
	return c.App(fmt.Sprintf("%s/%d", name, len(args)), SStr, args...)
}

// fmtVerbs is the text of a constant format: its literal parts as they are, strings and integers printed plainly as
// what they are, and every other operand as an unknown text that depends on the verb and the operand.
func (ex *Exec) fmtVerbs(st *State, format string, ops []*Term) *Term {
	c := ex.c
	out := c.Str("")
	lit := func(s string) { out = ex.strConcat(st, out, c.Str(s)) }
	for {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			break
		}
		lit(format[:i])
		format = format[i:]
		n := 1
		for n < len(format) && strings.IndexByte("+-# 0123456789.", format[n]) >= 0 {
			n++
		}
		if n == len(format) || strings.IndexByte("vTtbcdoOqxXUeEfFgGsp%", format[n]) < 0 {
			return nil
		}
		verb := format[:n+1]
		format = format[n+1:]
		if verb == "%%" {
			lit("%")
			continue
		}
		if len(ops) < 2 || strings.HasSuffix(verb, "%") {
			return nil
		}
		tag, pay := ops[0], ops[1]
		ops = ops[2:]
		text := c.App("fmtv", SStr, c.Str(verb), tag, pay)
		if b, ok := ex.typeOfID(tag).(*types.Basic); ok {
			switch {
			case b.Kind() == types.String && (verb == "%s" || verb == "%v"):
				text = ex.unbox(st, b, &IfaceV{tag, pay}).(*Term)
			case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
				text = c.App("itoa", SStr, ex.unbox(st, b, &IfaceV{tag, pay}).(*Term))
			}
		}
		if ex.errVals[[2]*Term{tag, pay}] && (verb == "%s" || verb == "%v") {
			text = ex.c.Ite(c.Eq(tag, c.zero), text, c.App("errtext", SStr, pay))
		}
		out = ex.strConcat(st, out, text)
	}
	lit(format)
	if len(ops) != 0 {
		return nil
	}
	return out
}

// ---- globals ----

func (ex *Exec) globalConst(st *State, p *PtrV) (Val, bool) {
	if p.path != "" {
		return nil, false
	}
	gi := ex.prog.globals[p.glob]
	if gi == nil {
		return nil, false
	}
	ls := leaves(p.elem)
	for _, l := range ls {
		if _, ok := st.heap[globKey(p.glob, l.path)]; ok {
			return nil, false
		}
	}
	if gi.external {
		if types.Identical(p.elem, types.Universe.Lookup("error").Type()) {
			id, ok := ex.errGlobs[p.glob]
			if !ok {
				id = 900000 + len(ex.errGlobs)
				ex.errGlobs[p.glob] = id
			}
			return &IfaceV{ex.typeID(ex.errType()), ex.c.Int(int64(id))}, true
		}
		return nil, false
	}
	if gi.assigned || gi.init == nil {
		return nil, false
	}
	return ex.constVal(gi.init), true
}
