package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type globInfo struct {
	external bool
	assigned bool
	init     *ssa.Const
}

// Program is the loaded repository.
type Program struct {
	repo    string
	fset    *token.FileSet
	prog    *ssa.Program
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	loopMu  sync.Mutex
	globals map[string]*globInfo
	pkgs    []*packages.Package
}

func (p *Program) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	p.loopMu.Lock()
	defer p.loopMu.Unlock()
	m, ok := p.loops[fn]
	if !ok {
		m = findLoops(fn)
		p.loops[fn] = m
	}
	return m[b]
}

// Contract is one specification function.
type Contract struct {
	name string
	prop string
	fn   *ssa.Function
	doc  string
	dir  map[string]string
	pkg  string
}

var dumpDir string

func dumpQuery(name, q string) {
	name = regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(name, "_")
	if len(name) > 100 {
		name = name[:100]
	}
	for i := 0; ; i++ {
		f := filepath.Join(dumpDir, fmt.Sprintf("%s-%d.smt2", name, i))
		if _, err := os.Stat(f); err == nil {
			continue
		}
		os.WriteFile(f, []byte(q), 0644)
		return
	}
}

func quickSolve(q string, tmo time.Duration) bool {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	r := runSolver(contextBG, "z3-new", q, tmo)
	return r.Res == "unsat"
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); f(i) }(i)
	}
	wg.Wait()
}

// overlayFor collects the specification package and the contract files of the properties.
func overlayFor(repo, verif string, props []string) (map[string][]byte, []string, error) {
	ov := map[string][]byte{}
	b, err := os.ReadFile(filepath.Join(verif, "spec", "v.go"))
	if err != nil {
		return nil, nil, err
	}
	ov[filepath.Join(repo, "verifspec", "v.go")] = b
	pk := map[string]bool{"./verifspec": true}
	for _, prop := range props {
		root := filepath.Join(verif, "contracts", prop)
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			d := filepath.Dir(rel)
			b, e := os.ReadFile(p)
			if e != nil {
				return e
			}
			ov[filepath.Join(repo, d, "zz_"+strings.ToLower(prop)+"_"+filepath.Base(rel))] = b
			pk["./"+d] = true
			return nil
		})
	}
	var ps []string
	for k := range pk {
		ps = append(ps, k)
	}
	sort.Strings(ps)
	return ov, ps, nil
}

func load(repo, verif string, props []string) (*Program, []*Contract, error) {
	ov, pats, err := overlayFor(repo, verif, props)
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: repo, Fset: fset, Overlay: ov, BuildFlags: []string{"-tags=verif"},
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	if os.Getenv("GOVC_CGO") != "" {
		cfg.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	}
	cfg.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	// all packages of the repository are loaded from source, plus a few dependencies
	all := append([]string{"./..."}, pats...)
	all = append(all, extraPkgs...)
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, all...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("the code does not build with the contracts:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{repo: repo, fset: fset, prog: prog, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, globals: map[string]*globInfo{}, pkgs: pkgs}
	p.scanGlobals(spkgs)
	var cts []*Contract
	for i, pk := range pkgs {
		if spkgs[i] == nil {
			continue
		}
		for _, f := range pk.Syntax {
			fname := filepath.Base(fset.Position(f.Pos()).Filename)
			if !strings.HasPrefix(fname, "zz_") {
				continue
			}
			prop := strings.ToUpper(strings.SplitN(fname, "_", 3)[1])
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, prop+"_") {
					continue
				}
				ct := &Contract{name: fd.Name.Name, prop: prop, fn: spkgs[i].Func(fd.Name.Name), dir: map[string]string{}, pkg: pk.PkgPath}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//govc:") {
							kv := strings.SplitN(strings.TrimPrefix(c.Text, "//govc:"), " ", 2)
							v := "1"
							if len(kv) > 1 {
								v = strings.TrimSpace(kv[1])
							}
							ct.dir[kv[0]] = v
						}
					}
					ct.doc = strings.TrimSpace(fd.Doc.Text())
				}
				cts = append(cts, ct)
			}
		}
	}
	return p, cts, nil
}

var extraPkgs = []string{"github.com/faiface/beep", "io"}

func (p *Program) scanGlobals(spkgs []*ssa.Package) {
	src := map[*ssa.Package]bool{}
	for _, s := range spkgs {
		if s != nil {
			src[s] = true
		}
	}
	for _, e := range extraPkgs {
		// the error values of these packages are constants for their users
		if s := p.prog.ImportedPackage(e); s != nil {
			delete(src, s)
		}
	}
	for _, pk := range p.prog.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				gi := &globInfo{external: !src[pk]}
				p.globals[pk.Pkg.Path()+"."+g.Name()] = gi
			}
		}
	}
	for fn := range ssautil.AllFunctions(p.prog) {
		isInit := fn.Name() == "init" && fn.Parent() == nil && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					gi := p.globals[g.Pkg.Pkg.Path()+"."+g.Name()]
					if gi == nil {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && isInit {
							if k, ok := x.Val.(*ssa.Const); ok && gi.init == nil {
								gi.init = k
								continue
							}
						}
					}
					gi.assigned = true
				}
			}
		}
	}
	for n, gi := range p.globals {
		if gi.init == nil && !gi.assigned && !gi.external {
			// never stored: zero value
			i := strings.LastIndex(n, ".")
			if pk := p.prog.ImportedPackage(n[:i]); pk != nil {
				if g := pk.Var(n[i+1:]); g != nil {
					t := deref(g.Type())
					if b, ok := t.Underlying().(*types.Basic); ok {
						var cv constant.Value
						switch {
						case b.Info()&types.IsInteger != 0:
							cv = constant.MakeInt64(0)
						case b.Info()&types.IsBoolean != 0:
							cv = constant.MakeBool(false)
						case b.Info()&types.IsString != 0:
							cv = constant.MakeString("")
						}
						if cv != nil {
							gi.init = ssa.NewConst(cv, t)
						}
					}
				}
			}
		}
	}
}

// ContractResult is the outcome of one contract.
type ContractResult struct {
	Name        string
	Doc         string
	Obligations int
	Discharged  int
	Simplified  int
	LoopInv     int
	Failed      []FailedOb
	Unsupported string
	Assumptions []string
	Inlined     []string
	Ensures     []string
	Covers      []string
	Solvers     map[string]int
	SolverTime  float64
	Time        float64
	Bounded     bool
}

// FailedOb is an obligation the solvers did not accept.
type FailedOb struct {
	Name   string
	Kind   string
	Pos    string
	Status string
	Model  string
	Inputs string
}

func verify(p *Program, ct *Contract, budget time.Duration) (res *ContractResult) {
	res = &ContractResult{Name: ct.name, Doc: ct.doc, Solvers: map[string]int{}}
	t0 := time.Now()
	ex := newExec(p, ct)
	defer ex.inc.close()
	ex.deadline = t0.Add(budget)
	defer func() { res.Time = time.Since(t0).Seconds() }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					res.Unsupported = u.msg
					return
				}
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, false)]
				res.Unsupported = fmt.Sprintf("internal error: %v\n%s", r, buf)
			}
		}()
		ex.runContract()
	}()
	res.LoopInv = ex.loopInv
	for k := range ex.assumed {
		res.Assumptions = append(res.Assumptions, k)
	}
	sort.Strings(res.Assumptions)
	for k := range ex.inlined {
		if k != ct.fn.RelString(nil) {
			res.Inlined = append(res.Inlined, k)
		}
	}
	sort.Strings(res.Inlined)
	for k := range ex.ensures {
		res.Ensures = append(res.Ensures, k)
	}
	sort.Strings(res.Ensures)
	for k := range ex.covers {
		res.Covers = append(res.Covers, k)
	}
	sort.Strings(res.Covers)
	// discharge
	var obls []*Oblig
	seen := map[string]bool{}
	dup := 0
	for _, o := range ex.obls {
		k := o.name + "|" + o.pos
		for _, a := range o.ass {
			k += fmt.Sprintf(",%d", a.id)
		}
		k += fmt.Sprintf("=>%d", o.goal.id)
		if seen[k] {
			dup++
			continue
		}
		seen[k] = true
		obls = append(obls, o)
	}
	res.Obligations = ex.nOblig - dup
	res.Simplified = ex.trivial
	tmo := 20 * time.Second
	if s := ct.dir["timeout"]; s != "" {
		var n int
		fmt.Sscanf(s, "%d", &n)
		tmo = time.Duration(n) * time.Second
	}
	type job struct {
		o *Oblig
		q string
	}
	var jobs []job
	for _, o := range obls {
		// quantifier-free obligations: incremental solver first
		if !o.goal.quant && ex.inc.unsat(ex.relevant(o.ass, ex.c.Not(o.goal))) {
			o.status, o.res = "ok", "z3-new (incremental)"
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					o.status = "error"
					o.out = fmt.Sprint(r)
					if u, ok := r.(unsupported); ok {
						o.out = u.msg
					}
				}
			}()
			jobs = append(jobs, job{o, ex.c.query(o.ass, o.goal, nil)})
		}()
	}
	nfail := 0
	var mu sync.Mutex
	parallel(len(jobs), func(i int) {
		o := jobs[i].o
		mu.Lock()
		t := tmo
		if nfail >= 6 {
			t = 4 * time.Second
		}
		mu.Unlock()
		r := discharge(jobs[i].q, t, ct.dir["solver"])
		o.time = r.Time
		if r.Res == "unsat" {
			o.status, o.res = "ok", r.Solver
		} else {
			o.status = r.Res
			o.out = r.Out
			mu.Lock()
			nfail++
			mu.Unlock()
			if dumpDir != "" {
				dumpQuery(ct.name+"-"+o.name, jobs[i].q)
			}
		}
	})
	for _, o := range obls {
		res.SolverTime += o.time.Seconds()
		if o.status == "ok" {
			res.Solvers[o.res]++
			continue
		}
		out := o.out
		if len(out) > 3000 {
			out = out[:3000]
		}
		res.Failed = append(res.Failed, FailedOb{Name: o.name, Kind: o.kind, Pos: o.pos, Status: o.status, Model: out})
	}
	res.SolverTime += ex.inc.T.Seconds()
	res.Solvers["simplifier"] = ex.trivial
	res.Discharged = res.Obligations - len(res.Failed)
	return res
}

func (ex *Exec) runContract() {
	fn := ex.contract.fn
	if fn == nil || len(fn.Blocks) == 0 {
		unsup("contract has no body")
	}
	st := ex.newState()
	sts := []*State{st}
	argss := [][]Val{nil}
	for i, p := range fn.Params {
		var ns []*State
		var na [][]Val
		for j, s := range sts {
			t := p.Type()
			mkSlice := func(s *State) Val {
				sl := types.Unalias(t).Underlying().(*types.Slice)
				l := ex.c.Fresh("len:"+p.Name(), SInt, bigZero, maxLen)
				k := ex.c.Fresh("cap:"+p.Name(), SInt, bigZero, maxLen)
				s.assume(ex.c.Le(l, k))
				return &SliceV{ex.c.Int(int64(1000 + 10*i)), ex.c.zero, l, k, sl.Elem()}
			}
			switch types.Unalias(t).Underlying().(type) {
			case *types.Slice:
				s2 := s.clone()
				ns = append(ns, s)
				na = append(na, append(append([]Val{}, argss[j]...), mkSlice(s)))
				if ex.contract.dir["nonil"] == "" {
					ns = append(ns, s2)
					na = append(na, append(append([]Val{}, argss[j]...), ex.zeroVal(t)))
				}
			case *types.Map:
				ns = append(ns, s)
				m := ex.c.Int(int64(1000 + 10*i))
				na = append(na, append(append([]Val{}, argss[j]...), m))
			default:
				v := ex.paramVal(s, p.Name(), t)
				ns = append(ns, s)
				na = append(na, append(append([]Val{}, argss[j]...), v))
			}
		}
		sts, argss = ns, na
	}
	for i, s := range sts {
		outs := ex.runFn(s, nil, fn, argss[i], nil)
		n := 0
		for _, o := range outs {
			if o.kind == OReturn {
				n++
				fr := &Frame{fn: fn, pos: ex.pos(nil, fn.Pos())}
				ex.checkLocksFree(o.st, fr)
			}
		}
		debugf("%s: %d paths", ex.contract.name, n)
	}
	if len(ex.ensures) == 0 && (ex.contract.dir["endless"] == "" || len(ex.covers) == 0) {
		unsup("no postcondition was reached")
	}
}

func (ex *Exec) paramVal(st *State, name string, t types.Type) Val {
	return ex.freshVal(st, "in:"+name, t)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id(s), comma separated")
	only := flag.String("only", "", "regexp of contracts to run")
	out := flag.String("out", "", "JSON result file")
	verbose := flag.Bool("v", false, "verbose")
	budget := flag.Duration("budget", 300*time.Second, "time budget per contract")
	flag.StringVar(&dumpDir, "dump", "", "directory for failing queries")
	flag.Parse()
	t0 := time.Now()
	p, cts, err := load(*repo, *verif, strings.Split(*prop, ","))
	type report struct {
		LoadError string
		LoadTime  float64
		Contracts []*ContractResult
		Time      float64
	}
	rep := report{}
	if err != nil {
		rep.LoadError = err.Error()
	}
	rep.LoadTime = time.Since(t0).Seconds()
	if err == nil {
		var re *regexp.Regexp
		if *only != "" {
			re = regexp.MustCompile(*only)
		}
		sem := make(chan struct{}, 4)
		results := make([]*ContractResult, len(cts))
		parallel(len(cts), func(i int) {
			if re != nil && !re.MatchString(cts[i].name) || cts[i].dir["bounded"] != "" {
				return
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = verify(p, cts[i], *budget)
			if *verbose {
				printResult(results[i])
			}
		})
		for _, r := range results {
			if r != nil {
				rep.Contracts = append(rep.Contracts, r)
			}
		}
	}
	rep.Time = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	bad := 0
	if rep.LoadError != "" {
		fmt.Println(rep.LoadError)
		bad++
	}
	for _, r := range rep.Contracts {
		if r.Unsupported != "" || len(r.Failed) > 0 {
			bad++
		}
	}
	fmt.Printf("%d contracts, %d not verified, load %.1fs, total %.1fs\n", len(rep.Contracts), bad, rep.LoadTime, rep.Time)
	if bad > 0 {
		os.Exit(3)
	}
}

func printResult(r *ContractResult) {
	var b bytes.Buffer
	st := "ok"
	if r.Unsupported != "" || len(r.Failed) > 0 {
		st = "FAIL"
	}
	fmt.Fprintf(&b, "%-5s %s: %d/%d obligations, %d simplified, %d loop invariants, %.1fs (solver %.1fs) %v covers=%v\n", st, r.Name, r.Discharged, r.Obligations, r.Simplified, r.LoopInv, r.Time, r.SolverTime, r.Solvers, r.Covers)
	if r.Unsupported != "" {
		fmt.Fprintf(&b, "      unsupported: %s\n", r.Unsupported)
	}
	for i, f := range r.Failed {
		if i >= 8 {
			fmt.Fprintf(&b, "      ... %d more\n", len(r.Failed)-i)
			break
		}
		m := f.Model
		if i := strings.Index(m, "\n"); i > 0 {
			m = m[:i]
		}
		fmt.Fprintf(&b, "      %s [%s] at %s: %s %s\n", f.Name, f.Kind, f.Pos, f.Status, m)
	}
	os.Stdout.Write(b.Bytes())
}
