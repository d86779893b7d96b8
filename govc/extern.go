package main

import (
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) intrinsic2(st *State, fr *Frame, o, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	return nil, false
}

// modelCall gives the trusted contracts of functions outside the repository.
func (ex *Exec) modelCall(st *State, fr *Frame, fn *ssa.Function, args []Val, cc *ssa.CallCommon) ([]Outcome, bool) {
	c := ex.c
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	pos := token.NoPos
	if cc != nil {
		pos = cc.Pos()
	}
	if f := st.externs[name]; f != nil {
		return ex.callFunc(st, fr, f, args, nil), true
	}
	if ex.contract.dir["log"] == "" && fn.Signature.Recv() != nil {
		if namedPath(deref(fn.Signature.Recv().Type())) == "github.com/LogicalOverflow/music-sync/logging.Logger" {
			ex.note("log output is not part of the property (logger methods have no effect)")
			return ret(st, ex.freshResult(st, name, fn.Signature)), true
		}
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return ex.lockOp(st, fr, args[0].(*PtrV), fn.Name(), pos), true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		if st.spec {
			return ret(st, nil), true
		}
		p := ex.ptr(st, fr, args[0], pos)
		n := ex.readLeaf(st, p, wgLeaf)
		if fn.Name() == "Done" {
			n = c.AddK(n, -1)
		} else {
			n = c.Add(n, termOf(args[1]))
		}
		ex.oblige(st, fr, "panic", "the counter of a WaitGroup stays non-negative", pos, c.geZero(n))
		if st.dead {
			return nil, true
		}
		ex.writeLeaf(st, p, wgLeaf, n)
		return ret(st, nil), true
	case "(*sync.WaitGroup).Wait":
		p := ex.ptr(st, fr, args[0], pos)
		outs := ex.runSpawned(st, fr)
		for _, o := range outs {
			if o.kind == OReturn && !o.st.spec {
				ex.oblige(o.st, fr, "lock", "the wait for a WaitGroup ends", pos, c.Eq(ex.readLeaf(o.st, p, wgLeaf), c.zero))
			}
		}
		return outs, true
	case "sync.NewCond":
		p := ex.newCell(st, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		ex.store(st, ex.condL(p), args[0])
		return ret(st, p), true
	case "(*sync.Cond).Wait":
		mu := unIface(ex, st, ex.load(st, ex.condL(ex.ptr(st, fr, args[0], pos))))
		var outs []Outcome
		for _, o := range ex.lockOp(st, fr, mu, "Unlock", pos) {
			if o.kind != OReturn {
				outs = append(outs, o)
				continue
			}
			outs = append(outs, ex.lockOp(o.st, fr, mu, "Lock", pos)...)
		}
		return outs, true
	case "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		return ret(st, nil), true
	case "time.Sleep":
		return ret(st, nil), true
	case "(time.Duration).Nanoseconds":
		return ret(st, termOf(args[0])), true
	case "(time.Duration).Microseconds":
		return ret(st, ex.divT(st, termOf(args[0]), c.Int(1000))), true
	case "(time.Duration).Milliseconds":
		return ret(st, ex.divT(st, termOf(args[0]), c.Int(1000000))), true
	case "errors.New", "github.com/pkg/errors.New":
		return ret(st, ex.newError(st, termOf(args[0]))), true
	case "fmt.Errorf", "github.com/pkg/errors.Errorf":
		return ret(st, ex.newError(st, ex.fmtText(st, "sprintf", termOf(args[0]), args[1].(*SliceV)))), true
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithMessage":
		e := args[0].(*IfaceV)
		return ex.split(st, c.Eq(e.tag, c.zero), func(st *State) []Outcome { return ret(st, nilIface(c)) },
			func(st *State) []Outcome {
				return ret(st, ex.newError(st, c.App("errwrap", SStr, e.tag, e.pay, termOf(args[1]))))
			}), true
	case "fmt.Sprintf":
		return ret(st, ex.fmtText(st, "sprintf", termOf(args[0]), args[1].(*SliceV))), true
	case "fmt.Sprint":
		return ret(st, ex.fmtText(st, "sprint", nil, args[0].(*SliceV))), true
	case "math.NaN":
		return ret(st, c.mkn("fpconst", SF64, "(_ NaN 11 53)")), true
	case "math.IsNaN":
		t := termOf(args[0])
		if t.op == "fpconst" {
			return ret(st, c.Bool(t.name == "(_ NaN 11 53)")), true
		}
		if c.fpTheory {
			return ret(st, c.mkn("smt", SBool, "fp.isNaN", t)), true
		}
		return ret(st, ex.isNaN(t)), true
	case "math/big.NewInt":
		p := ex.newCell(st, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		ex.writeLeaf(st, p, bigLeaf, termOf(args[0]))
		return ret(st, p), true
	}
	if outs, ok := ex.modelBig(st, fr, fn, name, args, pos); ok {
		return outs, true
	}
	if outs, ok := ex.modelStrings(st, fr, fn, name, args, pos); ok {
		return outs, true
	}
	if outs, ok := ex.modelMore(st, fr, fn, name, args, pos); ok {
		return outs, true
	}
	return nil, false
}

var bigLeaf = Leaf{path: "$v", sort: SInt}

func (ex *Exec) modelBig(st *State, fr *Frame, fn *ssa.Function, name string, args []Val, pos token.Pos) ([]Outcome, bool) {
	c := ex.c
	get := func(i int) *Term { return ex.readLeaf(st, ex.ptr(st, fr, args[i], pos), bigLeaf) }
	set := func(t *Term) []Outcome {
		p := ex.ptr(st, fr, args[0], pos)
		ex.writeLeaf(st, p, bigLeaf, t)
		return ret(st, p)
	}
	switch name {
	case "(*math/big.Int).Add":
		return set(c.Add(get(1), get(2))), true
	case "(*math/big.Int).Sub":
		return set(c.Sub(get(1), get(2))), true
	case "(*math/big.Int).Mul":
		return set(c.Mul(get(1), get(2))), true
	case "(*math/big.Int).Set":
		return set(get(1)), true
	case "(*math/big.Int).SetInt64", "(*math/big.Int).SetUint64":
		return set(termOf(args[1])), true
	case "(*math/big.Int).Neg":
		return set(c.Neg(get(1))), true
	case "(*math/big.Int).Div", "(*math/big.Int).Mod", "(*math/big.Int).Quo", "(*math/big.Int).Rem":
		a, b := get(1), get(2)
		ex.oblige(st, fr, "panic", "no division by zero", pos, c.Not(c.Eq(b, c.zero)))
		if st.dead {
			return nil, true
		}
		switch fn.Name() {
		case "Div":
			return set(c.DivE(a, b)), true
		case "Mod":
			return set(c.ModE(a, b)), true
		case "Quo":
			return set(ex.divT(st, a, b)), true
		default:
			return set(ex.remT(st, a, b)), true
		}
	case "(*math/big.Int).Int64":
		t := get(0)
		return ret(st, ex.wrap(st, t, types.Typ[types.Int64])), true
	case "(*math/big.Int).Cmp":
		a, b := get(0), get(1)
		return ret(st, c.Ite(c.Lt(a, b), c.Int(-1), c.Ite(c.Eq(a, b), c.zero, c.one))), true
	case "(*math/big.Int).Sign":
		a := get(0)
		return ret(st, c.Ite(c.Lt(a, c.zero), c.Int(-1), c.Ite(c.Eq(a, c.zero), c.zero, c.one))), true
	}
	return nil, false
}

func (ex *Exec) modelStrings(st *State, fr *Frame, fn *ssa.Function, name string, args []Val, pos token.Pos) ([]Outcome, bool) {
	c := ex.c
	switch name {
	case "strings.HasPrefix", "strings.HasSuffix":
		s, p := termOf(args[0]), termOf(args[1])
		if c.strTheory {
			if name == "strings.HasPrefix" {
				return ret(st, c.mkn("smt", SBool, "str.prefixof", p, s)), true
			}
			return ret(st, c.mkn("smt", SBool, "str.suffixof", p, s)), true
		}
		if p.op != "strconst" {
			t := c.App(name, SBool, s, p)
			if !t.bound && !st.spec {
				st.assume(c.Implies(t, c.Le(ex.strLen(st, p), ex.strLen(st, s))))
			}
			return ret(st, t), true
		}
		n, m := ex.strLen(st, s), ex.strLen(st, p)
		from, to := c.zero, m
		if name == "strings.HasSuffix" {
			from, to = c.Sub(n, m), n
		}
		part := ex.strSub(st, s, from, to)
		return ret(st, c.And(c.Le(m, n), c.Eq(part, p))), true
	case "strings.TrimSuffix", "strings.TrimPrefix":
		s, p := termOf(args[0]), termOf(args[1])
		outs, _ := ex.modelStrings(st, fr, fn, strings.Replace(name, "Trim", "Has", 1), args, pos)
		has := termOf(outs[0].val)
		n, m := ex.strLen(st, s), ex.strLen(st, p)
		if name == "strings.TrimSuffix" {
			return ret(st, c.Ite(has, ex.strSub(st, s, c.zero, c.Sub(n, m)), s)), true
		}
		return ret(st, c.Ite(has, ex.strSub(st, s, m, n), s)), true
	case "strings.ToLower", "strings.TrimSpace", "strings.ToUpper":
		s := termOf(args[0])
		return ret(st, c.App(name, SStr, s)), true
	case "strings.Compare":
		a, b := termOf(args[0]), termOf(args[1])
		return ret(st, c.Ite(c.Eq(a, b), c.zero, c.Ite(ex.strLess(st, a, b), c.Int(-1), c.one))), true
	case "strconv.Atoi":
		s := termOf(args[0])
		ok := c.App("atoi?", SBool, s)
		v := c.App("atoi", SInt, s)
		lo, hi, _ := intRange(types.Typ[types.Int])
		return ex.split(st, ok, func(st *State) []Outcome {
			st.assume(c.And(c.rawGe(c.Sub(v, c.Big(lo))), c.rawGe(c.Sub(c.Big(hi), v))))
			return ret(st, &TupleV{[]Val{v, nilIface(c)}})
		}, func(st *State) []Outcome {
			w := c.Fresh("atoibad", SInt, lo, hi)
			return ret(st, &TupleV{[]Val{w, ex.newError(st, nil)}})
		}), true
	case "strconv.ParseFloat":
		s := termOf(args[0])
		ok := c.App("parsefloat?", SBool, s)
		v := c.App("parsefloat", SF64, s)
		return ex.split(st, ok, func(st *State) []Outcome {
			return ret(st, &TupleV{[]Val{v, nilIface(c)}})
		}, func(st *State) []Outcome {
			w := c.Fresh("pfbad", SF64, nil, nil)
			return ret(st, &TupleV{[]Val{w, ex.newError(st, nil)}})
		}), true
	case "strconv.Itoa":
		return ret(st, c.App("itoa", SStr, termOf(args[0]))), true
	}
	return nil, false
}

func (ex *Exec) modelMore(st *State, fr *Frame, fn *ssa.Function, name string, args []Val, pos token.Pos) ([]Outcome, bool) {
	c := ex.c
	if m := byteOrder.FindStringSubmatch(name); m != nil {
		n := map[string]int64{"16": 2, "32": 4, "64": 8}[m[3]]
		s := args[1].(*SliceV)
		ex.oblige(st, fr, "panic", "index in range", pos, c.Le(c.Int(n), s.l))
		if st.dead {
			return nil, true
		}
		l := leaves(s.elem)[0]
		k := memKey(s.elem, l.path)
		at := func(i int64) *Term {
			if m[1] == "big" {
				i = n - 1 - i
			}
			return c.AddK(s.o, i)
		}
		if m[2] == "" {
			t := c.zero
			for i := int64(0); i < n; i++ {
				b := c.Select(st.decide, c.Select(st.decide, ex.heapArr(st, k, l, 2), s.a), at(i))
				if !b.isConst() {
					st.assume(ex.rangeOf(b, l))
				}
				t = c.Add(t, c.MulK(b, pow2(int(8*i))))
			}
			return ret(st, t), true
		}
		v := termOf(args[2])
		sum := c.zero
		mem := ex.heapArr(st, k, l, 2)
		row := c.Select(st.decide, mem, s.a)
		for i := int64(0); i < n; i++ {
			b := c.Fresh("byte", SInt, big.NewInt(0), big.NewInt(255))
			sum = c.Add(sum, c.MulK(b, pow2(int(8*i))))
			row = c.Store(row, at(i), b)
		}
		st.assume(c.Eq(sum, v))
		st.heap[k] = c.Store(mem, s.a, row)
		return ret(st, nil), true
	}
	if strings.HasPrefix(name, "(*strings.Builder).") {
		p := ex.ptr(st, fr, args[0], pos)
		text := ex.readLeaf(st, p, sbLeaf)
		add := func(t *Term) { ex.writeLeaf(st, p, sbLeaf, ex.strConcat(st, text, t)) }
		switch fn.Name() {
		case "String":
			return ret(st, text), true
		case "Len":
			return ret(st, ex.strLen(st, text)), true
		case "Reset":
			ex.writeLeaf(st, p, sbLeaf, c.Str(""))
			return ret(st, nil), true
		case "Grow":
			ex.oblige(st, fr, "panic", "a strings.Builder grows by no negative count", pos, c.geZero(termOf(args[1])))
			if st.dead {
				return nil, true
			}
			return ret(st, nil), true
		case "WriteString":
			add(termOf(args[1]))
			return ret(st, &TupleV{[]Val{ex.strLen(st, termOf(args[1])), nilIface(c)}}), true
		}
	}
	if name == "sort.Search" && !st.spec {
		return ex.search(st, fr, termOf(args[0]), args[1]), true
	}
	return nil, false
}

// search models sort.Search(n, f): it calls f between 0 and n, and the result r has f(r) unless r is n, and not f(r-1)
// unless r is 0, whatever f is.
func (ex *Exec) search(st *State, fr *Frame, n *Term, f Val) []Outcome {
	c := ex.c
	ex.note("the function given to sort.Search has no effects")
	return ex.split(st, c.Le(c.Int(1), n), func(st *State) []Outcome {
		probe := st.clone()
		h := c.Fresh("probe", SInt, big.NewInt(0), nil)
		probe.assume(c.Lt(h, n))
		var outs []Outcome
		for _, o := range ex.callAny(probe, fr, f, []Val{h}, nil) { // f does not panic
			if o.kind != OReturn {
				outs = append(outs, o)
			}
		}
		r := c.Fresh("found", SInt, big.NewInt(0), nil)
		st.assume(c.Le(r, n))
		ask := func(st *State, at *Term, want bool) []Outcome {
			outs := ex.callAny(st, fr, f, []Val{at}, nil)
			for _, o := range outs {
				if o.kind == OReturn {
					t := termOf(o.val)
					if !want {
						t = c.Not(t)
					}
					o.st.assume(t)
				}
			}
			return outs
		}
		after := func(st *State) []Outcome {
			return ex.split(st, c.Lt(r, n), func(st *State) []Outcome { return ask(st, r, true) }, func(st *State) []Outcome { return ret(st, nil) })
		}
		for _, o := range ex.split(st, c.Lt(c.zero, r), func(st *State) []Outcome { return ask(st, c.AddK(r, -1), false) }, func(st *State) []Outcome { return ret(st, nil) }) {
			if o.kind != OReturn || o.st.dead {
				outs = append(outs, o)
				continue
			}
			for _, o := range after(o.st) {
				if o.kind == OReturn {
					o.val = r
				}
				outs = append(outs, o)
			}
		}
		return outs
	}, func(st *State) []Outcome { return ret(st, c.zero) })
}

var byteOrder = regexp.MustCompile(`^\(encoding/binary\.(little|big)Endian\)\.(Put|)Uint(16|32|64)$`)

func (ex *Exec) modelInvoke(st *State, fr *Frame, f *invokeV, args []Val, cc *ssa.CallCommon) ([]Outcome, bool) {
	c := ex.c
	if f.m.Name() == "Error" && f.m.Type().(*types.Signature).Params().Len() == 0 {
		if t := ex.typeOfID(f.iv.tag); t == nil || types.Identical(t, ex.errType()) {
			return ret(st, c.App("errtext", SStr, f.iv.pay)), true
		}
	}
	return nil, false
}

var _ = big.NewInt

// condL points to the lock of a condition variable.
func (ex *Exec) condL(p *PtrV) *PtrV {
	u := p.elem.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "L" {
			return ex.fieldPtr(p, i)
		}
	}
	unsup("sync.Cond without L")
	return nil
}
