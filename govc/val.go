package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *SliceV, *StructV, *ArrV, *IfaceV, *PtrV, *FuncV, *TupleV.
type Val interface{}

type SliceV struct {
	a, o, l, c *Term
	elem       types.Type
}
type StructV struct {
	t types.Type
	f []Val
}
type ArrV struct {
	t types.Type
	f []Val
}
type IfaceV struct{ tag, pay *Term }
type TupleV struct{ f []Val }

// FuncV is a function value; id is the leaf representation (0 = nil).
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	bi    *ssa.Builtin
	model string // name of a modelled function value
	id    *Term
	data  []Val
}

// PtrV is an address.
type PtrV struct {
	ref    *Term      // object identity (nil for element pointers and globals)
	cell   int        // >0: executor-level local cell
	arr    *Term      // element pointers: backing array
	idx    *Term      // element pointers: absolute index
	glob   string     // global variable key
	root   types.Type // type of the object / element / global
	path   string     // leaf path prefix inside root
	elem   types.Type // pointee type
	ao     bool       // arr/idx address a whole array variable of type elem
	nonnil bool
}

type Leaf struct {
	path   string
	sort   Sort
	lo, hi *big.Int
	kind   byte // 0 scalar, 'r' reference (pointer/map/chan/func/array id), 'k' lock
}

var two = big.NewInt(2)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

var (
	maxLen     = pow2(48)
	maxIter    = pow2(48)
	inputRefHi = new(big.Int).Sub(pow2(20), big.NewInt(1))
	allocBase  = int64(1 << 20)
)

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	w := 0
	uns := false
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		w = 64
	case types.Int32, types.UntypedRune:
		w = 32
	case types.Int16:
		w = 16
	case types.Int8:
		w = 8
	case types.Uint, types.Uint64, types.Uintptr:
		w, uns = 64, true
	case types.Uint32:
		w, uns = 32, true
	case types.Uint16:
		w, uns = 16, true
	case types.Uint8:
		w, uns = 8, true
	default:
		return nil, nil, false
	}
	if uns {
		return big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1)), true
	}
	return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big.NewInt(1)), true
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

var leafCache = map[string][]Leaf{}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// leaves flattens a type into primitive components.
func leaves(t types.Type) []Leaf {
	k := typeKey(t)
	leafMu.Lock()
	l, ok := leafCache[k]
	leafMu.Unlock()
	if ok {
		return l
	}
	l = leaves1(t)
	leafMu.Lock()
	leafCache[k] = l
	leafMu.Unlock()
	return l
}

func isRef(l Leaf) bool { return l.kind == 'r' }

// sbLeaf is the text written to a strings.Builder.
var sbLeaf = Leaf{"$sb", SStr, nil, nil, 0}

// wgLeaf is the counter of a sync.WaitGroup.
var wgLeaf = Leaf{"$wg", SInt, nil, nil, 'w'}

func leaves1(t types.Type) []Leaf {
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex":
		return []Leaf{{"$lk", SInt, nil, nil, 'k'}}
	case "sync.WaitGroup":
		return []Leaf{wgLeaf}
	case "strings.Builder":
		return []Leaf{sbLeaf}
	case "sync.Once", "sync.noCopy", "sync.Pool", "sync.notifyList", "sync.copyChecker":
		return nil
	case "math/big.Int":
		return []Leaf{{"$v", SInt, nil, nil, 0}}
	case "time.Time", "reflect.Value":
		return []Leaf{{"$t", SInt, nil, nil, 0}}
	}
	zero := big.NewInt(0)
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			return []Leaf{{"", SInt, lo, hi, 0}}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, nil, nil, 0}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, nil, nil, 0}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SF64, nil, nil, 0}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, zero, nil, 'r'}}
		}
		unsup("type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, zero, nil, 'r'}}
	case *types.Slice:
		return []Leaf{{".a", SInt, zero, nil, 'r'}, {".o", SInt, zero, maxLen, 0}, {".l", SInt, zero, maxLen, 0}, {".c", SInt, zero, maxLen, 0}}
	case *types.Interface:
		return []Leaf{{".t", SInt, zero, big.NewInt(250), 0}, {".p", SInt, zero, nil, 'r'}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.path = "." + f.Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if u.Len() > 16 {
			unsup("array type %s", t)
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				l.path = fmt.Sprintf("[%d]", i) + l.path
				out = append(out, l)
			}
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

// build makes a value of type t from its leaves.
func (ex *Exec) build(t types.Type, ts []*Term) Val {
	v, rest := ex.build1(t, ts)
	if len(rest) != 0 {
		panic("build: leftover leaves for " + t.String())
	}
	return v
}

func (ex *Exec) build1(t types.Type, ts []*Term) (Val, []*Term) {
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex", "math/big.Int", "time.Time", "reflect.Value", "sync.WaitGroup", "strings.Builder":
		return &StructV{t, []Val{ts[0]}}, ts[1:]
	case "sync.Once", "sync.noCopy", "sync.Pool", "sync.notifyList", "sync.copyChecker":
		return &StructV{t, nil}, ts
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic, *types.Map, *types.Chan:
		return ts[0], ts[1:]
	case *types.Pointer:
		return &PtrV{ref: ts[0], root: u.Elem(), elem: u.Elem()}, ts[1:]
	case *types.Signature:
		return ex.funcOf(ts[0]), ts[1:]
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Interface:
		return &IfaceV{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = ex.build1(u.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Array:
		s := &ArrV{t: t}
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, ts = ex.build1(u.Elem(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ts = ex.build1(u.At(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	}
	unsup("build %s", t)
	return nil, nil
}

// flat is the inverse of build; it may promote local cells to heap objects.
func (ex *Exec) flat(st *State, t types.Type, v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.a, x.o, x.l, x.c}
	case *IfaceV:
		return []*Term{x.tag, x.pay}
	case *FuncV:
		return []*Term{ex.funcID(x)}
	case *PtrV:
		return []*Term{ex.ptrLeaf(st, x)}
	case *StructV:
		var out []*Term
		switch namedPath(x.t) {
		case "sync.Mutex", "sync.RWMutex", "math/big.Int", "time.Time", "reflect.Value", "sync.WaitGroup", "strings.Builder":
			return []*Term{x.f[0].(*Term)}
		case "sync.Once", "sync.noCopy", "sync.Pool", "sync.notifyList", "sync.copyChecker":
			return nil
		}
		u := types.Unalias(x.t).Underlying().(*types.Struct)
		for i, f := range x.f {
			out = append(out, ex.flat(st, u.Field(i).Type(), f)...)
		}
		return out
	case *ArrV:
		var out []*Term
		u := types.Unalias(x.t).Underlying().(*types.Array)
		for _, f := range x.f {
			out = append(out, ex.flat(st, u.Elem(), f)...)
		}
		return out
	case *TupleV:
		var out []*Term
		u, _ := t.(*types.Tuple)
		for i, f := range x.f {
			var ft types.Type
			if u != nil {
				ft = u.At(i).Type()
			}
			out = append(out, ex.flat(st, ft, f)...)
		}
		return out
	case nil:
		panic("flat nil value of type " + fmt.Sprint(t))
	}
	panic(fmt.Sprintf("flat %T", v))
}

func (ex *Exec) funcID(f *FuncV) *Term {
	if f.id == nil {
		ex.closures = append(ex.closures, f)
		f.id = ex.c.Int(int64(len(ex.closures)))
	}
	return f.id
}

func (ex *Exec) funcOf(id *Term) *FuncV {
	if id.isConst() {
		n := int(id.c.Int64())
		if n > 0 && n <= len(ex.closures) {
			return ex.closures[n-1]
		}
	}
	return &FuncV{id: id}
}

func (ex *Exec) ptrLeaf(st *State, p *PtrV) *Term {
	if p.glob != "" {
		// pointers to globals: give the global a heap identity on demand is not supported
		unsup("address of global %s stored", p.glob)
	}
	if p.arr != nil {
		// Element pointers as values: allowed only as opaque interface payloads
		unsup("pointer to slice element stored (%s)", p.root)
	}
	if p.path != "" {
		unsup("interior pointer stored (%s%s)", p.root, p.path)
	}
	if p.cell > 0 && !st.promoted[p.cell] {
		ex.promote(st, p)
	}
	return p.ref
}

// promote moves a local cell to the heap.
func (ex *Exec) promote(st *State, p *PtrV) {
	ls := leaves(p.root)
	vals := make([]*Term, len(ls))
	for i, l := range ls {
		vals[i] = ex.cellRead(st, p.cell, l)
	}
	st.promoted = copySet(st.promoted)
	st.promoted[p.cell] = true
	for i, l := range ls {
		k := heapKey(p.root, l.path)
		st.heap[k] = ex.c.Store(ex.heapArr(st, k, l, 1), p.ref, vals[i])
		delete(st.heap, cellKey(p.cell, l.path))
	}
}

func copySet(m map[int]bool) map[int]bool {
	r := make(map[int]bool, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func cellKey(c int, path string) string           { return fmt.Sprintf("C|%d|%s", c, path) }
func heapKey(root types.Type, path string) string { return "H|" + typeKey(root) + "|" + path }
func memKey(elem types.Type, path string) string  { return "M|" + typeKey(elem) + "|" + path }
func globKey(g, path string) string               { return "G|" + g + "|" + path }

type keyInfo struct {
	l   Leaf
	dim int
}

func (ex *Exec) cellRead(st *State, cell int, l Leaf) *Term {
	k := cellKey(cell, l.path)
	if _, ok := ex.keyLeaf[k]; !ok {
		ex.keyLeaf[k] = keyInfo{l, 0}
	}
	if t, ok := st.heap[k]; ok {
		return t
	}
	return ex.zeroLeaf(l)
}

func (ex *Exec) zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SInt:
		return ex.c.zero
	case SBool:
		return ex.c.tFalse
	case SStr:
		return ex.c.Str("")
	case SF64:
		return ex.fpConst(0)
	}
	panic("zeroLeaf")
}

// heapArr returns the current array of a heap key with the given dimension.
func (ex *Exec) heapArr(st *State, key string, l Leaf, dim int) *Term {
	if _, ok := ex.keyLeaf[key]; !ok {
		ex.keyLeaf[key] = keyInfo{l, dim}
	}
	if t, ok := st.heap[key]; ok {
		return t
	}
	s := l.sort
	for i := 0; i < dim; i++ {
		s = arrOf(s)
	}
	lo, hi := l.lo, l.hi
	if l.kind == 'r' {
		lo, hi = big.NewInt(0), inputRefHi
	}
	if l.kind == 'k' || l.kind == 'w' {
		lo, hi = big.NewInt(0), big.NewInt(0)
	}
	if l.sort != SInt {
		lo, hi = nil, nil
	}
	return ex.c.Var(key, s, lo, hi)
}

// readLeaf reads one leaf at an address.
func (ex *Exec) readLeaf(st *State, p *PtrV, l Leaf) *Term {
	path := p.path + l.path
	var t *Term
	switch {
	case p.glob != "":
		t = ex.heapArr(st, globKey(p.glob, path), l, 0)
	case p.arr != nil:
		m := ex.heapArr(st, memKey(p.root, path), l, 2)
		row := ex.c.Select(st.decide, m, p.arr)
		t = ex.c.Select(st.decide, row, p.idx)
	case p.cell > 0 && !st.promoted[p.cell]:
		l2 := l
		l2.path = path
		t = ex.cellRead(st, p.cell, l2)
	default:
		a := ex.heapArr(st, heapKey(p.root, path), l, 1)
		t = ex.c.Select(st.decide, a, p.ref)
	}
	if (l.kind == 'k' || l.kind == 'w') && t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) == 0 {
		return ex.c.Big(t.lo)
	}
	return t
}

func (ex *Exec) writeLeaf(st *State, p *PtrV, l Leaf, v *Term) {
	path := p.path + l.path
	switch {
	case p.glob != "":
		k := globKey(p.glob, path)
		ex.heapArr(st, k, l, 0)
		st.heap[k] = v
	case p.arr != nil:
		k := memKey(p.root, path)
		m := ex.heapArr(st, k, l, 2)
		row := ex.c.Select(st.decide, m, p.arr)
		st.heap[k] = ex.c.Store(m, p.arr, ex.c.Store(row, p.idx, v))
	case p.cell > 0 && !st.promoted[p.cell]:
		l2 := l
		l2.path = path
		ex.cellRead(st, p.cell, l2)
		st.heap[cellKey(p.cell, path)] = v
	default:
		k := heapKey(p.root, path)
		st.heap[k] = ex.c.Store(ex.heapArr(st, k, l, 1), p.ref, v)
	}
}

// load reads a value through a pointer.
func (ex *Exec) load(st *State, p *PtrV) Val {
	if p.ao {
		at := types.Unalias(p.elem).Underlying().(*types.Array)
		if at.Len() > 16 {
			unsup("value of array type %s", p.elem)
		}
		v := &ArrV{t: p.elem}
		for i := int64(0); i < at.Len(); i++ {
			v.f = append(v.f, ex.load(st, &PtrV{arr: p.arr, idx: ex.c.AddK(p.idx, i), root: p.root, elem: at.Elem()}))
		}
		return v
	}
	ls := leaves(p.elem)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = ex.readLeaf(st, p, l)
	}
	v := ex.build(p.elem, ts)
	if !st.spec {
		ex.assumeValid(st, p.elem, v)
	} else if x, ok := v.(*PtrV); ok && x.ref != nil && !x.ref.isConst() {
		st.noteFact(ex.c.Lt(x.ref, st.nextID))
	} else if x, ok := v.(*SliceV); ok {
		st.noteFact(ex.c.Lt(x.a, st.nextID))
	}
	return v
}

func (ex *Exec) store(st *State, p *PtrV, v Val) {
	if p.ao {
		at := types.Unalias(p.elem).Underlying().(*types.Array)
		for i, f := range v.(*ArrV).f {
			ex.store(st, &PtrV{arr: p.arr, idx: ex.c.AddK(p.idx, int64(i)), root: p.root, elem: at.Elem()}, f)
		}
		return
	}
	ls := leaves(p.elem)
	ts := ex.flat(st, p.elem, v)
	if len(ls) != len(ts) {
		panic(fmt.Sprintf("store %s: %d leaves, %d terms (%T)", p.elem, len(ls), len(ts), v))
	}
	for i, l := range ls {
		ex.writeLeaf(st, p, l, ts[i])
	}
}

// keepFact assumes t and, while a specification is evaluated, hands it to the evaluating state.
func (st *State) keepFact(t *Term) {
	st.noteFact(t)
	st.assume(t)
}

// noteFact hands t to the state evaluating a specification.
func (st *State) noteFact(t *Term) {
	if st.facts != nil && !t.bound && !t.isTrue() {
		c := st.ex.c
		if f := c.Implies(c.And(st.pc[st.factBase:]...), t); !f.bound && !f.isTrue() {
			*st.facts = append(*st.facts, f)
		}
	}
}

// assumeValid adds the language's invariants for a value read from memory or chosen freely.
func (ex *Exec) assumeValid(st *State, t types.Type, v Val) {
	c := ex.c
	switch x := v.(type) {
	case *SliceV:
		if x.a.isConst() && x.l.isConst() && x.c.isConst() {
			return
		}
		st.assume(c.Le(x.l, x.c))
		st.assume(c.geZero(x.l))
		st.assume(c.geZero(x.o))
		st.assume(c.Le(x.c, c.Big(maxLen)))
		st.assume(c.Or(c.Not(c.Eq(x.a, c.zero)), c.Eq(x.c, c.zero)))
		st.keepFact(c.Lt(x.a, st.nextID))
		st.assume(c.geZero(x.a))
	case *PtrV:
		if x.ref != nil && !x.ref.isConst() {
			st.keepFact(c.Lt(x.ref, st.nextID))
			st.assume(c.geZero(x.ref))
		}
	case *IfaceV:
		if !x.pay.isConst() {
			st.assume(c.Lt(x.pay, st.nextID))
			st.assume(c.Or(c.Not(c.Eq(x.tag, c.zero)), c.Eq(x.pay, c.zero)))
		}
	case *Term:
		switch types.Unalias(t).Underlying().(type) {
		case *types.Map, *types.Chan:
			if !x.isConst() {
				st.assume(c.Lt(x, st.nextID))
			}
		}
	case *StructV:
		if u, ok := types.Unalias(x.t).Underlying().(*types.Struct); ok && len(x.f) == u.NumFields() {
			for i, f := range x.f {
				ex.assumeValid(st, u.Field(i).Type(), f)
			}
		}
	case *ArrV:
		u := types.Unalias(x.t).Underlying().(*types.Array)
		for _, f := range x.f {
			ex.assumeValid(st, u.Elem(), f)
		}
	}
}

// zero value of a type
func (ex *Exec) zeroVal(t types.Type) Val {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = ex.zeroLeaf(l)
	}
	return ex.build(t, ts)
}

// freshVal makes an unconstrained value of a type (valid by the language's rules).
func (ex *Exec) freshVal(st *State, name string, t types.Type) Val {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = ex.freshLeaf(st, name+l.path, l)
	}
	v := ex.build(t, ts)
	ex.assumeValid(st, t, v)
	return v
}

func (ex *Exec) freshLeaf(st *State, name string, l Leaf) *Term {
	lo, hi := l.lo, l.hi
	if l.sort != SInt {
		lo, hi = nil, nil
	}
	t := ex.c.Fresh(name, l.sort, lo, hi)
	return t
}

func (ex *Exec) fpConst(f float64) *Term {
	return ex.c.mkn("fpconst", SF64, fpLit(f))
}

func (ex *Exec) newRef(st *State) *Term {
	r := st.nextID
	st.nextID = ex.c.AddK(r, 1)
	return r
}

// newCell allocates a local cell of type t (zero-initialised).
func (ex *Exec) newCell(st *State, t types.Type) *PtrV {
	ex.cells++
	p := &PtrV{ref: ex.newRef(st), cell: ex.cells, root: t, elem: t}
	ex.cellPtr[ex.cells] = p
	return p
}

func (ex *Exec) fieldPtr(p *PtrV, i int) *PtrV {
	u := types.Unalias(p.elem).Underlying().(*types.Struct)
	q := *p
	q.path += "." + u.Field(i).Name()
	q.elem = u.Field(i).Type()
	return &q
}

func (ex *Exec) valEq(st *State, t types.Type, a, b Val) *Term {
	c := ex.c
	// pointers with executor-level structure
	if pa, ok := a.(*PtrV); ok {
		pb := b.(*PtrV)
		return ex.ptrEq(st, pa, pb)
	}
	if fa, ok := a.(*FuncV); ok {
		return c.Eq(ex.funcID(fa), ex.funcID(b.(*FuncV)))
	}
	if sa, ok := a.(*SliceV); ok { // only comparison with nil is legal Go
		sb := b.(*SliceV)
		if sb.a.isConst() && sb.a.c.Sign() == 0 {
			return c.Eq(sa.a, c.zero)
		}
		return c.Eq(sb.a, c.zero)
	}
	if ia, ok := a.(*IfaceV); ok {
		ib := b.(*IfaceV)
		if _, ok := ex.impls[typeKey(t)]; ok { // all values are non-nil pointers of one type, or nil
			return c.Eq(ia.pay, ib.pay)
		}
		if ib.tag.isConst() && ib.tag.c.Sign() == 0 {
			return c.Eq(ia.tag, c.zero)
		}
		if ia.tag.isConst() && ia.tag.c.Sign() == 0 {
			return c.Eq(ib.tag, c.zero)
		}
		return c.And(c.Eq(ia.tag, ib.tag), c.Eq(ia.pay, ib.pay))
	}
	fa, fb := ex.flat(st, t, a), ex.flat(st, t, b)
	r := c.tTrue
	for i := range fa {
		r = c.And(r, c.Eq(fa[i], fb[i]))
	}
	return r
}

func (ex *Exec) ptrEq(st *State, a, b *PtrV) *Term {
	c := ex.c
	if a.arr != nil || b.arr != nil {
		if a.arr != nil && b.arr != nil {
			if a.path != b.path {
				return c.tFalse
			}
			return c.And(c.Eq(a.arr, b.arr), c.Eq(a.idx, b.idx))
		}
		return c.tFalse
	}
	if a.glob != "" || b.glob != "" {
		return c.Bool(a.glob == b.glob && a.path == b.path)
	}
	if a.path != b.path {
		return c.tFalse
	}
	return c.Eq(a.ref, b.ref)
}

// mergeVal builds ite(cond, a, b).
func (ex *Exec) mergeVal(st *State, t types.Type, cond *Term, a, b Val) Val {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if pa, ok := a.(*PtrV); ok {
		pb := b.(*PtrV)
		if *pa == *pb {
			return pa
		}
	}
	fa, fb := ex.flat(st, t, a), ex.flat(st, t, b)
	ts := make([]*Term, len(fa))
	for i := range fa {
		ts[i] = ex.c.Ite(cond, fa[i], fb[i])
	}
	return ex.build(t, ts)
}

func (ex *Exec) typeID(t types.Type) *Term {
	k := typeKey(t)
	id, ok := ex.c.typeIDs[k]
	if !ok {
		id = len(ex.c.idTypes)
		ex.c.typeIDs[k] = id
		ex.c.idTypes = append(ex.c.idTypes, k)
		ex.types = append(ex.types, t)
	}
	return ex.c.Int(int64(id))
}

func (ex *Exec) typeOfID(id *Term) types.Type {
	if !id.isConst() {
		return nil
	}
	n := int(id.c.Int64())
	if n <= 0 || n > len(ex.types) {
		return nil
	}
	return ex.types[n-1]
}

// makeIface boxes a value.
func (ex *Exec) makeIface(st *State, t types.Type, v Val) *IfaceV {
	tag := ex.typeID(t)
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		p := v.(*PtrV)
		if p.arr != nil || p.path != "" || p.glob != "" {
			// opaque address payload: remember it
			ex.addrs = append(ex.addrs, p)
			return &IfaceV{tag, ex.c.Int(-int64(len(ex.addrs)))}
		}
		return &IfaceV{tag, ex.ptrLeaf(st, p)}
	case *types.Map, *types.Chan:
		return &IfaceV{tag, v.(*Term)}
	case *types.Signature:
		return &IfaceV{tag, ex.funcID(v.(*FuncV))}
	}
	// boxed immutable value; identical constants share a box through value comparison by content
	fl := ex.flat(st, t, v)
	if len(fl) == 0 {
		return &IfaceV{tag, ex.c.zero}
	}
	if len(fl) == 1 {
		// encode injectively: a payload function per sort, so that equal values compare equal
		pay := ex.c.App("box:"+string(fl[0].sort), SInt, fl[0])
		ex.boxes[pay] = fl[0]
		return &IfaceV{tag, pay}
	}
	r := ex.newRef(st)
	for i, l := range leaves(t) {
		k := heapKey(t, l.path)
		st.heap[k] = ex.c.Store(ex.heapArr(st, k, l, 1), r, fl[i])
	}
	return &IfaceV{tag, r}
}

// unbox reads the dynamic value of an interface known to hold type t.
func (ex *Exec) unbox(st *State, t types.Type, v *IfaceV) Val {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		if v.pay.isConst() && v.pay.c.Sign() < 0 {
			return ex.addrs[-v.pay.c.Int64()-1]
		}
		return &PtrV{ref: v.pay, root: u.Elem(), elem: u.Elem()}
	case *types.Map, *types.Chan:
		return v.pay
	case *types.Signature:
		return ex.funcOf(v.pay)
	}
	ls := leaves(t)
	if len(ls) == 0 {
		return ex.build(t, nil)
	}
	if len(ls) == 1 {
		if b, ok := ex.boxes[v.pay]; ok {
			return ex.build(t, []*Term{b})
		}
		// unbox:S(box:S(x)) = x is instantiated on demand
		u := ex.c.App("unbox:"+string(ls[0].sort), ls[0].sort, v.pay)
		if ls[0].sort == SInt {
			u.lo, u.hi = ls[0].lo, ls[0].hi
			st.assume(ex.rangeOf(u, ls[0]))
		}
		return ex.build(t, []*Term{u})
	}
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = ex.c.Select(st.decide, ex.heapArr(st, heapKey(t, l.path), l, 1), v.pay)
	}
	return ex.build(t, ts)
}

func (ex *Exec) rangeOf(t *Term, l Leaf) *Term {
	// bypass interval folding: the fact must reach the solver
	var r []*Term
	if l.lo != nil {
		r = append(r, ex.c.mk(">=0", SBool, ex.c.fromLin(linAdd(ex.c.linOf(t), &linear{k: l.lo, cs: map[int]*big.Int{}}, big.NewInt(-1)))))
	}
	if l.hi != nil {
		r = append(r, ex.c.mk(">=0", SBool, ex.c.Sub(ex.c.Big(l.hi), t)))
	}
	return ex.c.And(r...)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
