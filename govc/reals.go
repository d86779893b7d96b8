package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// Floats in terms of their exact values: every float64 that is no NaN has a real value fpval, with the
// infinities at +-2^1024, beyond every finite value. Comparisons are those of the values; operations are
// described by their exact result where IEEE 754 gives one and by the rounding error otherwise.

func (c *Ctx) realLit(r *big.Rat) *Term {
	a := new(big.Rat).Abs(r)
	t := a.Num().String() + ".0"
	if !a.IsInt() {
		t = "(/ " + t + " " + a.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		t = "(- " + t + ")"
	}
	return c.mkn("smt", "Real", t)
}

func (c *Ctx) fpval(t *Term) *Term {
	if f, ok := fpConstVal(t); ok {
		r := new(big.Rat)
		if r.SetFloat64(f) == nil {
			if f > 0 {
				return c.realLit(huge)
			}
			if f < 0 {
				return c.realLit(new(big.Rat).Neg(huge))
			}
			return c.mkn("fpop", "Real", "val", t)
		}
		return c.realLit(r)
	}
	return c.mkn("fpop", "Real", "val", t)
}

var huge = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))

func (c *Ctx) rlt(a, b *Term) *Term { return c.mkn("smt", SBool, "<", a, b) }
func (c *Ctx) rle(a, b *Term) *Term { return c.mkn("smt", SBool, "<=", a, b) }
func (c *Ctx) req(a, b *Term) *Term { return c.mkn("smt", SBool, "=", a, b) }
func (c *Ctx) rbin(op string, a, b *Term) *Term {
	return c.mkn("smt", "Real", op, a, b)
}

func (ex *Exec) fpCmp(op string, a, b *Term) *Term {
	c := ex.c
	if !c.fpReal {
		return c.mkn("fpop", SBool, op, a, b)
	}
	va, vb := c.fpval(a), c.fpval(b)
	var r *Term
	switch op {
	case "fp.lt":
		r = c.rlt(va, vb)
	case "fp.leq":
		r = c.rle(va, vb)
	default:
		r = c.req(va, vb)
	}
	return c.And(c.Not(ex.isNaN(a)), c.Not(ex.isNaN(b)), r)
}

// finite states that t is neither NaN nor infinite
func (ex *Exec) finite(t *Term) *Term {
	c := ex.c
	return c.And(c.Not(ex.isNaN(t)), c.within(c.fpval(t), huge))
}

func (c *Ctx) within(v *Term, b *big.Rat) *Term {
	return c.And(c.rlt(v, c.realLit(b)), c.rlt(c.realLit(new(big.Rat).Neg(b)), v))
}

func isPow2(f float64) bool {
	r := new(big.Rat)
	if f < 1 || r.SetFloat64(f) == nil || !r.IsInt() {
		return false
	}
	n := r.Num()
	return n.TrailingZeroBits()+1 == uint(n.BitLen())
}

func (ex *Exec) realArith(st *State, op token.Token, a, b, r *Term) {
	c := ex.c
	if op == token.MUL {
		if _, ok := fpConstVal(a); ok {
			a, b = b, a
		}
		if f, ok := fpConstVal(b); ok && isPow2(f) {
			x := c.rbin("*", c.fpval(b), c.fpval(a))
			nan := c.Not(ex.isNaN(a))
			v, h, nh := c.fpval(r), c.realLit(huge), c.realLit(new(big.Rat).Neg(huge))
			st.assume(c.And(c.Eq(ex.isNaN(r), ex.isNaN(a)), c.Implies(c.And(nan, c.within(x, huge)), c.req(v, x)),
				c.Implies(c.And(nan, c.rle(h, x)), c.req(v, h)), c.Implies(c.And(nan, c.rle(x, nh)), c.req(v, nh))))
			return
		}
	}
	// the result is the exact one, rounded: off by at most 2^-53 of it, or 2^-1075
	var x *Term
	pre := c.And(ex.finite(a), ex.finite(b))
	switch op {
	case token.ADD:
		x = c.rbin("+", c.fpval(a), c.fpval(b))
	case token.SUB:
		x = c.rbin("-", c.fpval(a), c.fpval(b))
	case token.MUL:
		x = c.rbin("*", c.fpval(a), c.fpval(b))
	case token.QUO:
		x = c.rbin("/", c.fpval(a), c.fpval(b))
		pre = c.And(pre, c.Not(c.req(c.fpval(b), c.realLit(new(big.Rat)))))
	default:
		return
	}
	_, ca := fpConstVal(a)
	_, cb := fpConstVal(b)
	if (op == token.MUL || op == token.QUO) && !ca && !cb {
		return // not linear: only the operation itself is known
	}
	if op == token.QUO && !cb {
		return
	}
	lim := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1023))
	st.assume(c.Implies(c.And(pre, c.within(x, lim)), c.And(c.Not(ex.isNaN(r)), ex.rounded(c.fpval(r), x))))
}

func (ex *Exec) rounded(r, x *Term) *Term {
	c := ex.c
	e := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 53))
	t := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 1075))
	d := c.rbin("-", r, x)
	zero := c.realLit(new(big.Rat))
	abs := c.mkn("smt", "Real", "ite", c.rlt(x, zero), c.mkn("smt", "Real", "-", x), x)
	bound := c.rbin("+", c.rbin("*", c.realLit(e), abs), c.realLit(t))
	return c.And(c.rle(d, bound), c.rle(c.mkn("smt", "Real", "-", d), bound))
}

func (ex *Exec) realOfInt(st *State, t, r *Term) {
	c := ex.c
	x := c.mkn("smt", "Real", "to_real", t)
	lim := new(big.Int).Lsh(big.NewInt(1), 53)
	small := c.And(c.rawGe(c.Sub(c.Big(lim), t)), c.rawGe(c.Add(t, c.Big(lim))))
	st.assume(c.And(c.Not(ex.isNaN(r)), c.Implies(small, c.req(c.fpval(r), x)), ex.rounded(c.fpval(r), x)))
}

func (ex *Exec) realToInt(st *State, t, r *Term, lo, hi *big.Int) {
	c := ex.c
	x := c.fpval(t)
	zero := c.realLit(new(big.Rat))
	neg := c.mkn("smt", "Real", "-", x)
	tr := c.mkn("smt", SInt, "ite", c.rle(zero, x), c.mkn("smt", SInt, "to_int", x), c.mkn("smt", SInt, "-", c.mkn("smt", SInt, "to_int", neg)))
	in := c.And(ex.finite(t), c.rawGe(c.Sub(tr, c.Big(lo))), c.rawGe(c.Sub(c.Big(hi), tr)))
	st.assume(c.Implies(in, c.Eq(r, tr)))
}

// fpConstVal returns the value of a constant.
func fpConstVal(t *Term) (float64, bool) {
	if t.op != "fpconst" {
		return 0, false
	}
	leafMu.Lock()
	f, ok := fpLits[t.name]
	leafMu.Unlock()
	return f, ok
}

// realAxioms states the meaning of the operation of t for all operands (the facts given with each use do
// not reach uses inside quantifiers).
func (p *printer) realAxioms(t *Term, f string) {
	key := "ax:" + t.name
	val := sym("fpf:val")
	var k string
	if t.name == "fp.mul RNE" {
		i := 1
		v, ok := fpConstVal(t.args[1])
		if !ok {
			i = 0
			v, ok = fpConstVal(t.args[0])
		}
		if !ok || !isPow2(v) {
			return
		}
		key += fmt.Sprint(i, v)
		k = fmt.Sprintf("%.1f", v)
		t = p.c.mkn("fpop", SF64, t.name, t.args[i], t.args[i])
	}
	if p.declV[key] {
		return
	}
	p.declV[key] = true
	if !p.declV["fpf:val"] {
		p.declV["fpf:val"] = true
		fmt.Fprintf(p.out, "(declare-fun %s (F64) Real)\n", val)
	}
	p.declIsNaN()
	h := p.c.realLit(huge).name
	switch {
	case t.name == "fp.mul RNE":
		c, _ := p.atom(t.args[0])
		app := fmt.Sprintf("(%s x %s)", f, c)
		if strings.HasPrefix(key, "ax:fp.mul RNE0") {
			app = fmt.Sprintf("(%s %s x)", f, c)
		}
		x := fmt.Sprintf("(* %s (%s x))", k, val)
		fmt.Fprintf(p.out, "(assert (forall ((x F64)) (! (and (= (isnan %s) (isnan x)) (=> (not (isnan x)) (= (%s %s) (ite (<= %s %s) %s (ite (<= %s (- %s)) (- %s) %s))))) :pattern (%s))))\n",
			app, val, app, h, x, h, x, h, h, x, app)
	case strings.HasPrefix(t.name, "f2i:"):
		lo, hi, _ := intRange(types.Universe.Lookup(t.name[4:]).Type().(*types.Basic))
		v := fmt.Sprintf("(%s x)", val)
		tr := fmt.Sprintf("(ite (<= 0.0 %s) (to_int %s) (- (to_int (- %s))))", v, v, v)
		n := func(b *big.Int) string {
			if b.Sign() < 0 {
				return "(- " + new(big.Int).Neg(b).String() + ")"
			}
			return b.String()
		}
		fmt.Fprintf(p.out, "(assert (forall ((x F64)) (! (and (<= %s (%s x) %s) (=> (and (not (isnan x)) (<= %s %s %s)) (= (%s x) %s))) :pattern ((%s x)))))\n",
			n(lo), f, n(hi), n(lo), tr, n(hi), f, tr, f)
	case t.name == "i2f":
		fmt.Fprintf(p.out, "(assert (forall ((n Int)) (! (and (not (isnan (%s n))) (=> (<= (- 9007199254740992) n 9007199254740992) (= (%s (%s n)) (to_real n)))) :pattern ((%s n)))))\n", f, val, f, f)
	}
}
