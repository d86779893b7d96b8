package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// printer renders terms to SMT-LIB.
type printer struct {
	c       *Ctx
	names   map[*Term]string // shared ground subterms already defined
	declV   map[string]bool
	out     *strings.Builder
	facts   []string
	bound   map[string]bool // arrays read at bound indices
	arrV    map[string]*Term
	recSeen map[*Term]bool
	recQ    []*Term
	factFor map[*Term]bool
	recDecl map[string]bool
	global  bool
	fuelQ   map[string]bool
	ctr     *int
}

func newPrinter(c *Ctx) *printer {
	n := 0
	return &printer{c: c, names: map[*Term]string{}, declV: map[string]bool{}, out: &strings.Builder{}, bound: map[string]bool{},
		arrV: map[string]*Term{}, recSeen: map[*Term]bool{}, factFor: map[*Term]bool{}, recDecl: map[string]bool{}, fuelQ: map[string]bool{}, ctr: &n}
}

func (p *printer) sortName(s Sort) string {
	switch s {
	case SStr:
		if p.c.strTheory {
			return "String"
		}
		return "Str"
	case SF64:
		if p.c.fpTheory {
			return "(_ FloatingPoint 11 53)"
		}
		return "F64"
	}
	return string(s)
}

func (p *printer) prelude() {
	if !p.c.strTheory {
		p.out.WriteString("(declare-sort Str 0)\n")
		p.out.WriteString("(declare-fun slen (Str) Int)\n")
		p.declV["slen"] = true
	}
	if !p.c.fpTheory {
		p.out.WriteString("(declare-sort F64 0)\n")
	}
}

func sym(s string) string { return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|" }

func (p *printer) declare(t *Term) {
	if strings.HasPrefix(t.name, "?") {
		return
	}
	if p.declV[t.name] {
		return
	}
	p.declV[t.name] = true
	s := t.sort
	n := 0
	for s.isArr() {
		n++
		s = s.elem()
	}
	if n == 0 {
		fmt.Fprintf(p.out, "(declare-const %s %s)\n", sym(t.name), p.sortName(s))
		if s == SInt {
			if t.lo != nil {
				fmt.Fprintf(p.out, "(assert (<= %s %s))\n", num(t.lo), sym(t.name))
			}
			if t.hi != nil {
				fmt.Fprintf(p.out, "(assert (<= %s %s))\n", sym(t.name), num(t.hi))
			}
		}
		return
	}
	fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", sym(t.name), strings.TrimSpace(strings.Repeat("Int ", n)), p.sortName(s))
}

func num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

// strLit renders a Go byte string as an SMT string literal (one char per byte).
func strLit(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' {
			b.WriteString("\"\"")
		} else if ch < 32 || ch > 126 || ch == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", ch)
		} else {
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) strConstName(s string) string {
	n := "str:" + fmt.Sprintf("%q", s)
	if !p.declV[n] {
		p.declV[n] = true
		fmt.Fprintf(p.out, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", sym(n), sym(n), len(s))
		// distinct from all previously printed constants
		for o := range p.c.strConsts {
			on := "str:" + fmt.Sprintf("%q", o)
			if o != s && p.declV[on] {
				fmt.Fprintf(p.out, "(assert (not (= %s %s)))\n", sym(n), sym(on))
			}
		}
	}
	return sym(n)
}

func (p *printer) atom(t *Term) (string, bool) {
	switch t.op {
	case "const":
		return num(t.c), true
	case "true", "false":
		return t.op, true
	case "var":
		p.declare(t)
		return sym(t.name), true
	case "strconst":
		if p.c.strTheory {
			return strLit(t.name), true
		}
		return p.strConstName(t.name), true
	case "fpconst":
		if p.c.fpTheory {
			return t.name, true
		}
		n := "fp:" + t.name
		if !p.declV[n] {
			p.declV[n] = true
			fmt.Fprintf(p.out, "(declare-const %s F64)\n", sym(n))
			p.declIsNaN()
			if t.name == "(_ NaN 11 53)" {
				fmt.Fprintf(p.out, "(assert (isnan %s))\n", sym(n))
			} else {
				fmt.Fprintf(p.out, "(assert (not (isnan %s)))\n", sym(n))
			}
			for k := range p.declV {
				if strings.HasPrefix(k, "fp:") && k != n {
					fmt.Fprintf(p.out, "(assert (not (= %s %s)))\n", sym(n), sym(k))
				}
			}
		}
		return sym(n), true
	}
	return "", false
}

func (p *printer) declIsNaN() {
	if !p.declV["isnan"] {
		p.declV["isnan"] = true
		fmt.Fprintf(p.out, "(declare-fun isnan (F64) Bool)\n")
	}
}

// expr renders t; local maps bound shared subterms to let-names.
func (p *printer) expr(t *Term, local map[*Term]string) string {
	if s, ok := p.atom(t); ok {
		return s
	}
	if n, ok := local[t]; ok {
		return n
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.raw(t, local)
}

func (p *printer) raw(t *Term, local map[*Term]string) string {
	ex := func(x *Term) string { return p.expr(x, local) }
	list := func(op string) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(ex(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case "+", "div", "mod", "and", "or", "not", "ite", "=":
		return list(t.op)
	case "*", "nl*":
		return list("*")
	case ">=0":
		// render as a comparison with the negative part moved over
		return p.cmp("<=", t.args[0], local)
	case "=0":
		return p.cmp("=", t.args[0], local)
	case "select":
		base := t
		var idx []*Term
		for base.op == "select" {
			idx = append([]*Term{base.args[1]}, idx...)
			base = base.args[0]
		}
		if base.op != "var" {
			panic("select on non-base array " + base.op + " " + string(base.sort))
		}
		if t.sort.isArr() {
			panic("array-valued term printed: " + base.name)
		}
		p.declare(base)
		var b strings.Builder
		b.WriteString("(" + sym(base.name))
		for _, a := range idx {
			b.WriteByte(' ')
			b.WriteString(ex(a))
		}
		b.WriteByte(')')
		return b.String()
	case "app":
		if rd, ok := p.c.recs[t.name]; ok {
			p.declRec(rd)
		} else if !p.declV["f:"+t.name] {
			p.declV["f:"+t.name] = true
			if t.name != "slen" || p.c.strTheory {
				sig := p.c.funs[t.name]
				// translate sorts
				i := strings.Index(sig, ") ")
				ins := strings.Fields(sig[1:i])
				for k, s := range ins {
					ins[k] = p.sortName(Sort(s))
				}
				fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", sym(t.name), strings.Join(ins, " "), p.sortName(Sort(sig[i+2:])))
			}
		}
		if len(t.args) == 0 {
			return sym(t.name)
		}
		return list(sym(t.name))
	case "fpop":
		if p.c.fpTheory {
			return list(t.name)
		}
		if t.name == "isnan" {
			p.declIsNaN()
			return list("isnan")
		}
		n := "fpf:" + t.name
		if !p.declV[n] {
			p.declV[n] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, p.sortName(a.sort))
			}
			fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", sym(n), strings.Join(ss, " "), p.sortName(t.sort))
		}
		if p.c.fpQuant {
			p.realAxioms(t, sym(n))
		}
		return list(sym(n))
	case "smt":
		if len(t.args) == 0 {
			return t.name
		}
		return list(t.name)
	case "forall", "exists":
		body := t.args[0]
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.qv {
			fmt.Fprintf(&b, "(%s %s)", sym(v.name), p.sortName(v.sort))
		}
		b.WriteString(") ")
		// ground shared subterms inside the body are fine as names; bound shared ones get lets
		loc := map[*Term]string{}
		for k, v := range local {
			loc[k] = v
		}
		cnt := map[*Term]int{}
		var order []*Term
		inner := map[*Term]bool{}
		var walk func(x *Term)
		walk = func(x *Term) {
			if !x.bound || len(x.args) == 0 {
				return
			}
			cnt[x]++
			if cnt[x] > 1 {
				return
			}
			if x.qv != nil {
				inner[x] = true
				return // do not look into nested quantifiers
			}
			if x.op == "select" {
				for base := x; base.op == "select"; base = base.args[0] {
					walk(base.args[1])
				}
			} else {
				for _, a := range x.args {
					walk(a)
				}
			}
			order = append(order, x)
		}
		walk(body)
		closes := 0
		for _, x := range order {
			if cnt[x] > 1 && !x.sort.isArr() && x.size > 3 {
				if _, ok := loc[x]; ok {
					continue
				}
				*p.ctr++
				nm := fmt.Sprintf("l!%d", *p.ctr)
				s := p.raw(x, loc)
				loc[x] = nm
				fmt.Fprintf(&b, "(let ((%s %s)) ", nm, s)
				closes++
			}
		}
		b.WriteString(p.expr(body, loc))
		b.WriteString(strings.Repeat(")", closes+1))
		return b.String()
	}
	panic("print " + t.op)
}

func (p *printer) cmp(op string, d *Term, local map[*Term]string) string {
	l := p.c.linOf(d)
	var neg, pos []string
	ids := make([]int, 0, len(l.cs))
	for k := range l.cs {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	one := big.NewInt(1)
	for _, id := range ids {
		co := l.cs[id]
		a := new(big.Int).Abs(co)
		s := p.expr(l.ts[id], local)
		if a.Cmp(one) != 0 {
			s = "(* " + num(a) + " " + s + ")"
		}
		if co.Sign() > 0 {
			pos = append(pos, s)
		} else {
			neg = append(neg, s)
		}
	}
	if l.k.Sign() > 0 {
		pos = append(pos, num(l.k))
	} else if l.k.Sign() < 0 {
		neg = append(neg, num(new(big.Int).Neg(l.k)))
	}
	sum := func(x []string) string {
		if len(x) == 0 {
			return "0"
		}
		if len(x) == 1 {
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return "(" + op + " " + sum(neg) + " " + sum(pos) + ")"
}

func (p *printer) declRec(rd *recDef) {
	if p.recDecl[rd.name] {
		return
	}
	p.recDecl[rd.name] = true
	fmt.Fprintf(p.out, "(declare-fun %s (Int) %s)\n", sym(rd.name), p.sortName(rd.base.sort))
}

// prepare defines shared ground subterms of ts and gathers facts.
func (p *printer) prepare(ts []*Term) {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		if _, done := p.names[x]; done {
			return
		}
		if x.op == "select" {
			base := x
			for base.op == "select" {
				walk(base.args[1])
				base = base.args[0]
			}
			if base.op == "var" {
				if x.bound {
					p.bound[base.name] = true
					p.arrV[base.name] = base
				}
			} else {
				walk(base)
			}
		} else {
			for _, a := range x.args {
				walk(a)
			}
		}
		order = append(order, x)
	}
	for _, t := range ts {
		walk(t)
	}
	for _, x := range order {
		if x.op == "app" {
			if rd, ok := p.c.recs[x.name]; ok {
				if x.bound {
					p.fuelQ[rd.name] = true
				} else if !p.recSeen[x] {
					p.recSeen[x] = true
					p.recQ = append(p.recQ, x)
				}
			}
		}
		if x.bound || x.sort.isArr() {
			continue
		}
		if len(x.args) > 0 && cnt[x] > 1 && x.size > 3 && x.op != "var" {
			s := p.raw(x, nil)
			*p.ctr++
			n := fmt.Sprintf("d!%d", *p.ctr)
			fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, p.sortName(x.sort), s)
			p.names[x] = n
		}
		if x.op == "select" && x.sort == SInt && (x.lo != nil || x.hi != nil) && !p.factFor[x] {
			p.factFor[x] = true
			s := p.expr(x, nil)
			if x.lo != nil {
				p.facts = append(p.facts, fmt.Sprintf("(<= %s %s)", num(x.lo), s))
			}
			if x.hi != nil {
				p.facts = append(p.facts, fmt.Sprintf("(<= %s %s)", s, num(x.hi)))
			}
		}
	}
}

// assertAll prints the assertions together with needed facts and axioms.
func (p *printer) assertAll(ts []*Term) {
	p.prepare(ts)
	var as []string
	for _, t := range ts {
		as = append(as, p.expr(t, nil))
	}
	// recursive definitions: two rounds of ground unfolding
	for round := 0; round < 3 && len(p.recQ) > 0; round++ {
		q := p.recQ
		p.recQ = nil
		for _, x := range q {
			rd := p.c.recs[x.name]
			k := x.args[0]
			ax := p.c.And(
				p.c.Implies(p.c.Le(k, p.c.zero), p.c.Eq(x, rd.base)),
				p.c.Implies(p.c.Lt(p.c.zero, k), p.c.Eq(x, rd.step(p.c.AddK(k, -1)))))
			p.prepare([]*Term{ax})
			as = append(as, p.expr(ax, nil))
		}
	}
	for name := range p.fuelQ {
		rd := p.c.recs[name]
		k := p.c.BoundVar("fuel", SInt)
		// f(k) = step(k-1)[f := f0]; one unfolding per ground occurrence
		body := rd.step(p.c.AddK(k, -1))
		f0 := name + "$0"
		if !p.declV[f0] {
			p.declV[f0] = true
			fmt.Fprintf(p.out, "(declare-fun %s (Int) %s)\n", sym(f0), p.sortName(rd.base.sort))
		}
		p.declRec(rd)
		p.prepare([]*Term{body})
		s := p.expr(body, nil)
		s = strings.ReplaceAll(s, "("+sym(name)+" ", "("+sym(f0)+" ")
		kn := sym(k.name)
		as = append(as, fmt.Sprintf("(forall ((%s Int)) (! (=> (< 0 %s) (= (%s %s) %s)) :pattern ((%s %s))))", kn, kn, sym(name), kn, s, sym(name), kn))
		as = append(as, fmt.Sprintf("(forall ((%s Int)) (! (= (%s %s) (%s %s)) :pattern ((%s %s))))", kn, sym(name), kn, sym(f0), kn, sym(name), kn))
		as = append(as, fmt.Sprintf("(forall ((%s Int)) (! (=> (<= %s 0) (= (%s %s) %s)) :pattern ((%s %s))))", kn, kn, sym(name), kn, p.expr(rd.base, nil), sym(name), kn))
	}
	names := make([]string, 0, len(p.bound))
	for n := range p.bound {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := p.arrV[n]
		if v.elo == nil && v.ehi == nil {
			continue
		}
		p.declare(v)
		s := v.sort
		d := 0
		for s.isArr() {
			d++
			s = s.elem()
		}
		if s != SInt {
			continue
		}
		var vs, us []string
		for i := 0; i < d; i++ {
			vs = append(vs, fmt.Sprintf("(x%d Int)", i))
			us = append(us, fmt.Sprintf("x%d", i))
		}
		app := "(" + sym(n) + " " + strings.Join(us, " ") + ")"
		var cs []string
		if v.elo != nil {
			cs = append(cs, fmt.Sprintf("(<= %s %s)", num(v.elo), app))
		}
		if v.ehi != nil {
			cs = append(cs, fmt.Sprintf("(<= %s %s)", app, num(v.ehi)))
		}
		fmt.Fprintf(p.out, "(assert (forall (%s) (! (and %s true) :pattern (%s))))\n", strings.Join(vs, " "), strings.Join(cs, " "), app)
	}
	for _, f := range p.facts {
		fmt.Fprintf(p.out, "(assert %s)\n", f)
	}
	p.facts = nil
	for _, a := range as {
		fmt.Fprintf(p.out, "(assert %s)\n", a)
	}
}

// query renders "assumptions and not goal" as a script; values lists terms for get-value.
func (c *Ctx) query(ass []*Term, goal *Term, values []*Term) string {
	p := newPrinter(c)
	p.prelude()
	all := append(append([]*Term{}, c.axioms...), ass...)
	if goal != nil {
		all = append(all, c.Not(goal))
	}
	p.assertAll(all)
	var vs []string
	if len(values) > 0 {
		for _, v := range values {
			p.prepare([]*Term{v})
			vs = append(vs, p.expr(v, nil))
		}
		for _, f := range p.facts {
			fmt.Fprintf(p.out, "(assert %s)\n", f)
		}
	}
	p.out.WriteString("(check-sat)\n")
	if len(vs) > 0 {
		p.out.WriteString("(get-value (" + strings.Join(vs, " ") + "))\n")
	}
	return p.out.String()
}

// SolveRes is a solver's answer.
type SolveRes struct {
	Res    string // unsat sat unknown
	Solver string
	Time   time.Duration
	Out    string
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, name string, q string, tmo time.Duration) SolveRes {
	t0 := time.Now()
	var cmd *exec.Cmd
	ctx2, cancel := context.WithTimeout(ctx, tmo+2*time.Second)
	defer cancel()
	opts := ""
	switch name {
	case "cvc5":
		cmd = exec.CommandContext(ctx2, "cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()))
		opts = "(set-logic ALL)\n"
	default:
		cmd = exec.CommandContext(ctx2, name, "-in", "-smt2", fmt.Sprintf("-T:%d", int(tmo.Seconds()+0.999)), "-memory:3000")
	}
	if strings.Contains(q, "(get-value") {
		opts += "(set-option :produce-models true)\n"
		if name == "cvc5" {
			opts = "(set-option :produce-models true)\n(set-logic ALL)\n"
		}
	}
	cmd.Stdin = strings.NewReader(opts + q)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	cmd.Run()
	out := ob.String()
	res := "unknown"
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			res = "error"
			break
		}
	}
	return SolveRes{res, name, time.Since(t0), out}
}

// discharge tries the portfolio; unsat from any solver wins.
func discharge(q string, tmo time.Duration, only string) SolveRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	first := 2 * time.Second
	if tmo < first {
		first = tmo
	}
	order := []string{"z3-new", "cvc5", "z3"}
	if only != "" {
		order = []string{only}
		first = tmo
	}
	r := runSolver(context.Background(), order[0], q, first)
	if r.Res == "unsat" || r.Res == "sat" {
		return r
	}
	errOut := r
	if tmo <= first {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolveRes, 3)
	for _, s := range order {
		go func(s string) { ch <- runSolver(ctx, s, q, tmo) }(s)
	}
	for range order {
		x := <-ch
		if x.Res == "unsat" || x.Res == "sat" {
			return x
		}
		if x.Res != "error" {
			errOut = x
		}
	}
	return errOut
}

// Inc is a persistent incremental solver used for feasibility checks.
type Inc struct {
	c     *Ctx
	p     *printer
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	mu    sync.Mutex
	cache map[string]string
	N     int
	T     time.Duration
	dead  bool
}

func newInc(c *Ctx) *Inc {
	i := &Inc{c: c, cache: map[string]string{}}
	i.start()
	return i
}

func (i *Inc) start() {
	i.p = newPrinter(i.c)
	i.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:2000")
	i.in, _ = i.cmd.StdinPipe()
	o, _ := i.cmd.StdoutPipe()
	i.cmd.Stderr = nil
	i.out = bufio.NewReader(o)
	if err := i.cmd.Start(); err != nil {
		i.dead = true
		return
	}
	io.WriteString(i.in, "(set-option :timeout 300)\n")
	i.p.prelude()
	i.flush()
}

func (i *Inc) flush() {
	io.WriteString(i.in, i.p.out.String())
	i.p.out.Reset()
}

func (i *Inc) close() {
	if i.cmd != nil && i.cmd.Process != nil {
		i.cmd.Process.Kill()
		i.cmd.Wait()
	}
}

// unsat reports whether the quantifier-free part of the assertions is definitely unsatisfiable.
func (i *Inc) unsat(ts []*Term) bool {
	if i.dead {
		return false
	}
	var fs []*Term
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		if t.isFalse() {
			return true
		}
		if t.quant || t.isTrue() || t.size > 20000 {
			continue
		}
		fs = append(fs, t)
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if r, ok := i.cache[key]; ok {
		return r == "unsat"
	}
	t0 := time.Now()
	i.p.prepare(fs)
	var as []string
	for _, t := range fs {
		as = append(as, i.p.expr(t, nil))
	}
	for _, f := range i.p.facts {
		fmt.Fprintf(i.p.out, "(assert %s)\n", f)
	}
	i.p.facts = nil
	i.p.recQ = nil
	i.flush()
	var b strings.Builder
	b.WriteString("(push)\n")
	for _, a := range as {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(check-sat)\n(pop)\n")
	io.WriteString(i.in, b.String())
	res := ""
	for {
		l, err := i.out.ReadString('\n')
		if err != nil {
			i.dead = true
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "incremental solver died", err)
			}
			return false
		}
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "inc:", l)
			}
		}
	}
	i.cache[key] = res
	i.N++
	i.T += time.Since(t0)
	return res == "unsat"
}
