package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort in concrete syntax.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str" // abstract or String, see Ctx.strTheory
	SF64  Sort = "F64" // abstract or Float64, see Ctx.fpTheory
)

func arrOf(s Sort) Sort { return Sort("(Array Int " + string(s) + ")") }

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array Int ") }

func (s Sort) elem() Sort {
	t := strings.TrimPrefix(string(s), "(Array Int ")
	return Sort(t[:len(t)-1])
}

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     string // const true false var + * div mod ite and or not = <=0 select store rowcopy forall exists app strconst
	args   []*Term
	sort   Sort
	c      *big.Int // const value; coefficient terms use op "*" with args[0] const
	name   string   // var/app name, string constant
	lo, hi *big.Int // interval for Int terms (nil = unbounded)
	bound  bool     // mentions a bound variable
	quant  bool     // contains a quantifier
	qv     []*Term  // bound variables (forall/exists)
	lin    *linear
	elo    *big.Int // element interval for array vars of (nested) Int
	ehi    *big.Int
	size   int
}

type linear struct {
	k  *big.Int
	cs map[int]*big.Int
	ts map[int]*Term
}

// Ctx holds the term table of one verification unit.
type Ctx struct {
	tab             map[string]*Term
	n               int
	fresh           int
	strTheory       bool
	fpTheory        bool
	fpReal, fpQuant bool // floats with their exact real values, see reals.go
	strConsts       map[string]*Term
	funs            map[string]string // declared functions: name -> "(args) ret"
	recs            map[string]*recDef
	axioms          []*Term
	typeIDs         map[string]int
	idTypes         []string
	tTrue           *Term
	tFalse          *Term
	zero, one       *Term
}

// recDef is a recursively defined ghost function of one integer argument.
type recDef struct {
	name string
	base *Term
	step func(k *Term) *Term // value at k+1 in terms of values at k
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, strConsts: map[string]*Term{}, funs: map[string]string{}, recs: map[string]*recDef{}, typeIDs: map[string]int{}, idTypes: []string{"nil"}}
	c.tTrue = c.mk("true", SBool)
	c.tFalse = c.mk("false", SBool)
	c.zero = c.Int(0)
	c.one = c.Int(1)
	return c
}

func (c *Ctx) mk(op string, s Sort, args ...*Term) *Term { return c.mkn(op, s, "", args...) }

func (c *Ctx) mkn(op string, s Sort, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: op, args: args, sort: s, name: name, size: 1}
	for _, a := range args {
		t.bound = t.bound || a.bound
		t.quant = t.quant || a.quant
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Big(b *big.Int) *Term {
	k := "const|" + b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: "const", sort: SInt, c: b, lo: b, hi: b, size: 1}
	c.tab[k] = t
	return t
}
func (c *Ctx) Int(i int64) *Term { return c.Big(big.NewInt(i)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

// Str returns the term for a string constant.
func (c *Ctx) Str(s string) *Term {
	t := c.mkn("strconst", SStr, s)
	c.strConsts[s] = t
	return t
}

// Var makes (or returns) a named variable.
func (c *Ctx) Var(name string, s Sort, lo, hi *big.Int) *Term {
	t := c.mkn("var", s, name)
	if s == SInt {
		t.lo, t.hi = lo, hi
	} else if s.isArr() {
		t.elo, t.ehi = lo, hi
	}
	return t
}

func (c *Ctx) Fresh(prefix string, s Sort, lo, hi *big.Int) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s, lo, hi)
}

// BoundVar makes a fresh bound variable.
func (c *Ctx) BoundVar(prefix string, s Sort) *Term {
	c.fresh++
	t := c.mkn("var", s, fmt.Sprintf("?%s!%d", prefix, c.fresh))
	t.bound = true
	return t
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

// ---- linear arithmetic ----

func (c *Ctx) linOf(t *Term) *linear {
	if t.lin != nil {
		return t.lin
	}
	l := &linear{k: new(big.Int), cs: map[int]*big.Int{}, ts: map[int]*Term{}}
	switch {
	case t.op == "const":
		l.k = t.c
	case t.op == "+":
		for _, a := range t.args {
			al := c.linOf(a)
			l = linAdd(l, al, big.NewInt(1))
		}
	case t.op == "*" && t.args[0].op == "const":
		l = linAdd(l, c.linOf(t.args[1]), t.args[0].c)
	default:
		l.cs[t.id] = big.NewInt(1)
		l.ts[t.id] = t
	}
	t.lin = l
	return l
}

func linAdd(a, b *linear, f *big.Int) *linear {
	r := &linear{k: new(big.Int).Add(a.k, new(big.Int).Mul(b.k, f)), cs: map[int]*big.Int{}, ts: map[int]*Term{}}
	for k, v := range a.cs {
		r.cs[k] = v
		r.ts[k] = a.ts[k]
	}
	for k, v := range b.cs {
		w := new(big.Int).Mul(v, f)
		if o, ok := r.cs[k]; ok {
			w.Add(w, o)
		}
		if w.Sign() == 0 {
			delete(r.cs, k)
			delete(r.ts, k)
		} else {
			r.cs[k] = w
			r.ts[k] = b.ts[k]
		}
	}
	return r
}

func (c *Ctx) fromLin(l *linear) *Term {
	if len(l.cs) == 0 {
		return c.Big(l.k)
	}
	ids := make([]int, 0, len(l.cs))
	for k := range l.cs {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	var args []*Term
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for _, id := range ids {
		t := l.ts[id]
		co := l.cs[id]
		if co.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			m := c.mk("*", SInt, c.Big(co), t)
			args = append(args, m)
		}
		tl, th := t.lo, t.hi
		if co.Sign() < 0 {
			tl, th = th, tl
		}
		if lo != nil {
			if tl == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(tl, co))
			}
		}
		if hi != nil {
			if th == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(th, co))
			}
		}
	}
	if l.k.Sign() != 0 {
		args = append(args, c.Big(l.k))
	}
	var t *Term
	if len(args) == 1 {
		t = args[0]
	} else {
		t = c.mk("+", SInt, args...)
	}
	if t.lin == nil {
		t.lin = l
	}
	if t.lo == nil || (lo != nil && lo.Cmp(t.lo) > 0) {
		t.lo = lo
	}
	if t.hi == nil || (hi != nil && hi.Cmp(t.hi) < 0) {
		t.hi = hi
	}
	return t
}

func (c *Ctx) Add(a, b *Term) *Term { return c.fromLin(linAdd(c.linOf(a), c.linOf(b), big.NewInt(1))) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(linAdd(c.linOf(a), c.linOf(b), big.NewInt(-1))) }
func (c *Ctx) Neg(a *Term) *Term    { return c.Sub(c.zero, a) }
func (c *Ctx) AddK(a *Term, k int64) *Term {
	return c.Add(a, c.Int(k))
}

func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	return c.fromLin(linAdd(&linear{k: new(big.Int), cs: map[int]*big.Int{}, ts: map[int]*Term{}}, c.linOf(a), k))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulK(b, a.c)
	}
	if b.isConst() {
		return c.MulK(a, b.c)
	}
	// pull out coefficients of single-atom terms
	if a.op == "*" && a.args[0].isConst() {
		return c.MulK(c.Mul(a.args[1], b), a.args[0].c)
	}
	if b.op == "*" && b.args[0].isConst() {
		return c.MulK(c.Mul(a, b.args[1]), b.args[0].c)
	}
	// distribute over sums so that nonlinear monomials are canonical
	if a.op == "+" {
		r := c.zero
		for _, x := range a.args {
			r = c.Add(r, c.Mul(x, b))
		}
		return r
	}
	if b.op == "+" {
		r := c.zero
		for _, x := range b.args {
			r = c.Add(r, c.Mul(a, x))
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := c.mk("nl*", SInt, a, b)
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var lo, hi *big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				m := new(big.Int).Mul(x, y)
				if lo == nil || m.Cmp(lo) < 0 {
					lo = m
				}
				if hi == nil || m.Cmp(hi) > 0 {
					hi = m
				}
			}
		}
		t.lo, t.hi = lo, hi
	} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
	}
	return t
}

// DivE / ModE are Euclidean (SMT) division and modulus.
func (c *Ctx) DivE(a, b *Term) *Term {
	if b.isConst() && b.c.Sign() != 0 {
		if a.isConst() {
			q, _ := new(big.Int).DivMod(a.c, b.c, new(big.Int))
			return c.Big(q)
		}
		if b.c.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if b.c.Sign() > 0 {
			// exact division of all coefficients
			l := c.linOf(a)
			ok := true
			for _, v := range l.cs {
				if new(big.Int).Mod(v, b.c).Sign() != 0 {
					ok = false
				}
			}
			if ok {
				r := &linear{k: new(big.Int), cs: map[int]*big.Int{}, ts: map[int]*Term{}}
				q, _ := new(big.Int).DivMod(l.k, b.c, new(big.Int))
				r.k = q
				for k, v := range l.cs {
					r.cs[k] = new(big.Int).Div(v, b.c)
					r.ts[k] = l.ts[k]
				}
				return c.fromLin(r)
			}
		}
	}
	t := c.mk("div", SInt, a, b)
	if b.isConst() && b.c.Sign() > 0 {
		if a.lo != nil {
			t.lo = new(big.Int).Div(a.lo, b.c)
		}
		if a.hi != nil {
			t.hi = new(big.Int).Div(a.hi, b.c)
		}
	} else if b.lo != nil && b.lo.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 {
		t.lo = big.NewInt(0)
		if a.hi != nil {
			t.hi = a.hi
		}
	}
	return t
}

func (c *Ctx) ModE(a, b *Term) *Term {
	if b.isConst() && b.c.Sign() > 0 {
		if a.isConst() {
			return c.Big(new(big.Int).Mod(a.c, b.c))
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.c) < 0 {
			return a
		}
	}
	t := c.mk("mod", SInt, a, b)
	if b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		if b.hi != nil {
			t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
		}
	}
	return t
}

// ---- comparisons ----

// geZero is the canonical atom 0 <= t.
func (c *Ctx) geZero(t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return c.tTrue
	}
	if t.hi != nil && t.hi.Sign() < 0 {
		return c.tFalse
	}
	// normalise by gcd of the coefficients
	l := c.linOf(t)
	if len(l.cs) > 0 {
		g := new(big.Int)
		for _, v := range l.cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(v))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			r := &linear{k: new(big.Int).Div(l.k, g), cs: map[int]*big.Int{}, ts: l.ts}
			if l.k.Sign() != 0 {
				q, _ := new(big.Int).DivMod(l.k, g, new(big.Int))
				r.k = q
			}
			for k, v := range l.cs {
				r.cs[k] = new(big.Int).Div(v, g)
			}
			t = c.fromLin(r)
		}
	}
	return c.mk(">=0", SBool, t)
}

func (c *Ctx) Le(a, b *Term) *Term { return c.geZero(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.geZero(c.AddK(c.Sub(b, a), -1)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %s %s", a.sort, b.sort))
	}
	switch a.sort {
	case SInt:
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.c.Sign() == 0)
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return c.tFalse
		}
		// canonical sign: lowest-id coefficient positive
		l := c.linOf(d)
		min := -1
		for k := range l.cs {
			if min < 0 || k < min {
				min = k
			}
		}
		if l.cs[min].Sign() < 0 {
			d = c.Neg(d)
		}
		if d.op == "ite" {
			return c.Ite(d.args[0], c.Eq(d.args[1], c.zero), c.Eq(d.args[2], c.zero))
		}
		return c.mk("=0", SBool, d)
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	case SStr:
		if a.op == "strconst" && b.op == "strconst" {
			return c.tFalse
		}
	case SF64:
		if a.op == "fpconst" && b.op == "fpconst" {
			return c.tFalse
		}
	}
	if a.op == "ite" && (a.args[1].isLit() || a.args[2].isLit()) && b.isLit() {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == "ite" && (b.args[1].isLit() || b.args[2].isLit()) && a.isLit() {
		return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

func (t *Term) isLit() bool {
	return t.op == "const" || t.op == "strconst" || t.op == "fpconst" || t.op == "true" || t.op == "false"
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.tFalse
	case "false":
		return c.tTrue
	case "not":
		return a.args[0]
	case ">=0":
		return c.geZero(c.AddK(c.Neg(a.args[0]), -1))
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() || seen[t] {
			return true
		}
		if t.isFalse() || seen[c.Not(t)] {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		l = append(l, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.tFalse
		}
	}
	if len(l) == 0 {
		return c.tTrue
	}
	if len(l) == 1 {
		return l[0]
	}
	return c.mk("and", SBool, l...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() || seen[t] {
			return true
		}
		if t.isTrue() || seen[c.Not(t)] {
			return false
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		l = append(l, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.tTrue
		}
	}
	if len(l) == 0 {
		return c.tFalse
	}
	if len(l) == 1 {
		return l[0]
	}
	return c.mk("or", SBool, l...)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite: sorts %s %s", a.sort, b.sort))
	}
	if cond.op == "not" {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == "ite" && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	t := c.mk("ite", a.sort, cond, a, b)
	if a.sort == SInt {
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
	}
	return t
}

// Forall over bound variables.
func (c *Ctx) Forall(vs []*Term, body *Term) *Term { return c.quantify("forall", vs, body) }
func (c *Ctx) Exists(vs []*Term, body *Term) *Term { return c.quantify("exists", vs, body) }

func mentions(t *Term, v *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if !t.bound || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if mentions(a, v, seen) {
			return true
		}
	}
	return false
}

func (c *Ctx) quantify(q string, vs []*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	used := false
	for _, v := range vs {
		used = used || mentions(body, v, map[*Term]bool{})
	}
	if !used {
		return body
	}
	args := append([]*Term{body}, vs...)
	t := c.mk(q, SBool, args...)
	t.qv = vs
	t.quant = true
	// bound if the body mentions bound variables other than vs
	t.bound = hasOther(body, vs, map[*Term]bool{})
	return t
}

func hasOther(t *Term, vs []*Term, seen map[*Term]bool) bool {
	if !t.bound || seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "var" {
		for _, v := range vs {
			if v == t {
				return false
			}
		}
		return true
	}
	vs2 := vs
	if t.qv != nil {
		vs2 = append(append([]*Term{}, vs...), t.qv...)
	}
	for _, a := range t.args {
		if a.bound && hasOther(a, vs2, seen) {
			return true
		}
	}
	return false
}

// App is an application of a declared function.
func (c *Ctx) App(name string, ret Sort, args ...*Term) *Term {
	if _, ok := c.funs[name]; !ok {
		var s []string
		for _, a := range args {
			s = append(s, string(a.sort))
		}
		c.funs[name] = "(" + strings.Join(s, " ") + ") " + string(ret)
	}
	t := c.mkn("app", ret, name, args...)
	if b := strRowMax[strings.TrimSuffix(name, "@")]; b != nil { // the content of a string
		if ret == SInt {
			t.lo, t.hi = bigZero, b
		} else {
			t.elo, t.ehi = bigZero, b
		}
	}
	return t
}

// rows that are functions of a string: its bytes and its runes
var strRowMax = map[string]*big.Int{"bytesof": big.NewInt(255), "runesof": big.NewInt(0x10ffff)}

// ---- arrays ----

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.sort.elem() != v.sort {
		panic(fmt.Sprintf("store: sorts %s %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if s := v; s.op == "select" && s.args[0] == a && s.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, a, i, v)
}

// RowCopy is the row equal to base except that positions doff..doff+n-1 hold src[soff..soff+n-1].
func (c *Ctx) RowCopy(base, src, doff, soff, n *Term) *Term {
	if n.isConst() && n.c.Sign() <= 0 {
		return base
	}
	return c.mk("rowcopy", base.sort, base, src, doff, soff, n)
}

// Split is the array equal to low below index bound and to high from there on.
func (c *Ctx) Split(low, high, bound *Term) *Term { return c.mk("split", low.sort, low, high, bound) }

// ConstRow is the row holding v everywhere.
func (c *Ctx) ConstRow(v *Term) *Term { return c.mk("constrow", arrOf(v.sort), v) }

// Decider decides atoms syntactically in a context.
type Decider func(t *Term) (val, known bool)

// Select reads an array, eliminating stores eagerly.
func (c *Ctx) Select(d Decider, a, i *Term) *Term {
	switch a.op {
	case "store":
		e := c.Eq(a.args[1], i)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			return c.Select(d, a.args[0], i)
		}
		if d != nil {
			if v, ok := d(e); ok {
				if v {
					return a.args[2]
				}
				return c.Select(d, a.args[0], i)
			}
		}
		return c.Ite(e, a.args[2], c.Select(d, a.args[0], i))
	case "ite":
		return c.Ite(a.args[0], c.Select(d, a.args[1], i), c.Select(d, a.args[2], i))
	case "constrow":
		return a.args[0]
	case "app":
		return c.App(a.name+"@", a.sort.elem(), append(append([]*Term{}, a.args...), i)...)
	case "split":
		low := c.Lt(i, a.args[2])
		if d != nil && !low.isTrue() && !low.isFalse() {
			if v, ok := d(low); ok {
				low = c.Bool(v)
			}
		}
		if low.isTrue() {
			return c.Select(d, a.args[0], i)
		}
		if low.isFalse() {
			return c.Select(d, a.args[1], i)
		}
		return c.Ite(low, c.Select(d, a.args[0], i), c.Select(d, a.args[1], i))
	case "rowcopy":
		base, src, doff, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		in := c.And(c.Le(doff, i), c.Lt(i, c.Add(doff, n)))
		if d != nil && !in.isTrue() && !in.isFalse() {
			l1, l2 := c.Le(doff, i), c.Lt(i, c.Add(doff, n))
			v1, k1 := true, l1.isTrue()
			if !k1 {
				v1, k1 = d(l1)
			}
			v2, k2 := true, l2.isTrue()
			if !k2 {
				v2, k2 = d(l2)
			}
			if (k1 && !v1) || (k2 && !v2) {
				in = c.tFalse
			} else if k1 && k2 {
				in = c.tTrue
			}
		}
		if in.isTrue() {
			return c.Select(d, src, c.Add(c.Sub(i, doff), soff))
		}
		if in.isFalse() {
			return c.Select(d, base, i)
		}
		return c.Ite(in, c.Select(d, src, c.Add(c.Sub(i, doff), soff)), c.Select(d, base, i))
	}
	t := c.mk("select", a.sort.elem(), a, i)
	if a.elo != nil || a.ehi != nil {
		if t.sort == SInt {
			t.lo, t.hi = a.elo, a.ehi
		} else {
			t.elo, t.ehi = a.elo, a.ehi
		}
	}
	return t
}

// ---- substitution (used for instantiating recursive definitions) ----

func (c *Ctx) Subst(t *Term, v, by *Term, memo map[*Term]*Term) *Term {
	if t == v {
		return by
	}
	if len(t.args) == 0 || !t.bound {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.Subst(a, v, by, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = c.Rebuild(t, args)
	}
	memo[t] = r
	return r
}

// Rebuild re-applies the smart constructor of t to new arguments.
func (c *Ctx) Rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "+":
		r := c.zero
		for _, a := range args {
			r = c.Add(r, a)
		}
		return r
	case "*", "nl*":
		return c.Mul(args[0], args[1])
	case "div":
		return c.DivE(args[0], args[1])
	case "mod":
		return c.ModE(args[0], args[1])
	case ">=0":
		return c.geZero(args[0])
	case "=0":
		return c.Eq(args[0], c.zero)
	case "=":
		return c.Eq(args[0], args[1])
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "select":
		return c.Select(nil, args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "rowcopy":
		return c.RowCopy(args[0], args[1], args[2], args[3], args[4])
	case "constrow":
		return c.ConstRow(args[0])
	case "split":
		return c.Split(args[0], args[1], args[2])
	case "app":
		return c.App(t.name, t.sort, args...)
	case "forall", "exists":
		return c.quantify(t.op, args[1:], args[0])
	case "fpop":
		return c.mkn("fpop", t.sort, t.name, args...)
	case "smt":
		return c.mkn("smt", t.sort, t.name, args...)
	}
	panic("rebuild " + t.op)
}
