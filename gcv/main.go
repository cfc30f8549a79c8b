package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/trim21/go-phpserialize"

type Verifier struct {
	impls       map[*ssa.Function]*Contract
	implList    []*ssa.Function
	specs       *Specs
	prog        *ssa.Program
	pkgs        []*ssa.Package
	repo        string
	timeoutMs   int
	portfolioTO time.Duration
	fns         map[string]*ssa.Function

	mu      sync.Mutex
	backs   map[string]int
	typeIDs map[string]int
	globIDs map[*ssa.Global]int
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	names   map[*ssa.Function]string
	types   map[string]types.Type
	mutable map[*ssa.Global]bool
	known   []types.Type
}

func (v *Verifier) addBack(b string) {
	v.mu.Lock()
	v.backs[b]++
	v.mu.Unlock()
}

var pathRe = regexp.MustCompile(`([A-Za-z0-9_.\-]+/)+`)

func (v *Verifier) fname(fn *ssa.Function) string {
	v.mu.Lock()
	defer v.mu.Unlock()
	if s, ok := v.names[fn]; ok {
		return s
	}
	s := pathRe.ReplaceAllString(fn.String(), "")
	v.names[fn] = s
	return s
}

func (v *Verifier) typeID(name string) int {
	v.mu.Lock()
	defer v.mu.Unlock()
	if id, ok := v.typeIDs[name]; ok {
		return id
	}
	id := len(v.typeIDs) + 1
	v.typeIDs[name] = id
	return id
}

func (v *Verifier) globalID(g *ssa.Global) int {
	v.mu.Lock()
	defer v.mu.Unlock()
	if id, ok := v.globIDs[g]; ok {
		return id
	}
	id := len(v.globIDs) + 1
	v.globIDs[g] = id
	return id
}

func (v *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	v.mu.Lock()
	defer v.mu.Unlock()
	if l, ok := v.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	v.loops[fn] = l
	return l
}

func (v *Verifier) rankOf(t types.Type) string { return "" }

func (v *Verifier) contract(k string, from *ssa.Function) *Contract {
	if from != nil {
		p := fnPkgPath(from)
		if c := v.specs.Contracts[k+"@"+p[strings.LastIndex(p, "/")+1:]]; c != nil {
			return c
		}
	}
	return v.specs.Contracts[k]
}

// findImpls makes the contract of an interface method the contract of every method that implements it.
func (v *Verifier) findImpls() {
	v.impls = map[*ssa.Function]*Contract{}
	for _, c := range v.specs.Order {
		if c.Kind != "iface" || c.Opts["impls"] == "" {
			continue
		}
		i := strings.LastIndex(c.Name, ".")
		t := v.types[c.Name[:i]]
		if t == nil {
			continue
		}
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for _, n := range sortedTypes(v.types) {
			nt, ok := v.types[n].(*types.Named)
			if !ok || types.IsInterface(nt) || nt.Obj().Pkg() != t.(*types.Named).Obj().Pkg() {
				continue
			}
			p := types.NewPointer(nt)
			if !types.Implements(p, it) {
				continue
			}
			fn := v.prog.LookupMethod(p, nt.Obj().Pkg(), c.Name[i+1:])
			if fn == nil {
				continue
			}
			m := &Contract{Kind: "func", Name: v.fname(fn), Params: c.Params, Results: c.Results, Pos: c.Pos, Opts: map[string]string{}, Clauses: append([]*Clause(nil), c.Clauses...)}
			for k, x := range c.Opts {
				m.Opts[k] = x
			}
			m.Opts["impl"] = c.Name
			m.Self = p
			m.Iface = t
			if x := v.specs.Contracts["func:"+m.Name]; x != nil {
				m.Clauses = append(m.Clauses, x.Clauses...)
				for k, y := range x.Opts {
					m.Opts[k] = y
				}
			}
			v.impls[fn] = m
			v.implList = append(v.implList, fn)
		}
	}
}

func sortedTypes(m map[string]types.Type) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (v *Verifier) contractFor(fn, from *ssa.Function) *Contract {
	if c := v.contract("extern:"+v.fname(fn), from); c != nil {
		return c
	}
	return v.contractOf(fn)
}

func (v *Verifier) contractOf(fn *ssa.Function) *Contract {
	if c := v.impls[fn]; c != nil {
		return c
	}
	n := v.fname(fn)
	if c := v.specs.Contracts["func:"+n]; c != nil {
		return c
	}
	if c := v.specs.Contracts["extern:"+n]; c != nil {
		return c
	}
	if o := fn.Origin(); o != nil && o != fn {
		return v.contractOf(o)
	}
	return nil
}

func (v *Verifier) closureType(fn *ssa.Function) *Contract {
	for _, c := range v.specs.Order {
		if c.Kind != "functype" {
			continue
		}
		t := v.types[c.Name]
		if t == nil {
			continue
		}
		if s, ok := t.Underlying().(*types.Signature); ok && types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic())) && fn.Signature.Recv() == nil {
			return c
		}
	}
	return nil
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (v *Verifier) isModule(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(fn), modulePath)
}

func (v *Verifier) specParamType(n string) types.Type {
	if n == "str" {
		return types.Typ[types.String]
	}
	if strings.Contains(n, ".") {
		return v.typeByName(n)
	}
	return nil
}

func (v *Verifier) ghostSort(g string) Sort {
	if g == "iter" {
		return SInt
	}
	if s, ok := v.specs.Ghosts[g]; ok {
		return sortOfName(s)
	}
	panic(specErr{"undeclared ghost $" + g})
}

func (v *Verifier) typeByName(n string) types.Type {
	v.mu.Lock()
	defer v.mu.Unlock()
	if t := v.typeOf(n); t != nil {
		return t
	}
	panic(specErr{"unknown Go type " + n})
}

func (v *Verifier) load() error {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedModule, Dir: v.repo, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	for _, p := range pk {
		if len(p.Errors) > 0 {
			return fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	v.prog = prog
	v.fns = map[string]*ssa.Function{}
	for _, p := range sp {
		if p == nil || strings.Contains(p.Pkg.Path(), "/internal/test") {
			continue
		}
		if !strings.HasPrefix(p.Pkg.Path(), modulePath) {
			continue
		}
		v.pkgs = append(v.pkgs, p)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if v.isModule(fn) && fn.Blocks != nil {
			n := v.fname(fn)
			if old := v.fns[n]; old == nil || old.Synthetic != "" {
				v.fns[n] = fn
			}
		}
	}
	// named types, by package name
	for _, p := range pk {
		var visit func(tp *types.Package, depth int)
		seen := map[*types.Package]bool{}
		visit = func(tp *types.Package, depth int) {
			if seen[tp] || depth > 2 {
				return
			}
			seen[tp] = true
			sc := tp.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
						nm := v.tname(tn.Type())
						if strings.HasPrefix(tp.Path(), modulePath) || v.types[nm] == nil {
							v.types[nm] = tn.Type()
							v.types["*"+nm] = types.NewPointer(tn.Type())
						}
					}
				}
			}
			for _, im := range tp.Imports() {
				visit(im, depth+1)
			}
		}
		visit(p.Types, 0)
	}
	for _, b := range types.Typ {
		v.types[b.Name()] = b
		v.types["*"+b.Name()] = types.NewPointer(b)
	}
	v.types["[]uint8"] = types.NewSlice(types.Typ[types.Uint8])
	v.findMutable()
	// the packages the contracts speak about must be there
	have := map[string]int{}
	for n := range v.fns {
		for _, p := range []string{"decoder.", "encoder.", "phpserialize."} {
			if strings.Contains(n, p) {
				have[p]++
			}
		}
	}
	if have["decoder."] < 20 || have["encoder."] < 20 || have["phpserialize."] < 2 {
		return fmt.Errorf("packages not loaded: %v", have)
	}
	return nil
}

// findMutable marks globals that may change after package initialisation.
func (v *Verifier) findMutable() {
	v.mutable = map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(v.prog) {
		if !v.isModule(fn) {
			continue
		}
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && isInit {
							continue
						}
					case *ssa.IndexAddr, *ssa.FieldAddr:
						ro := true
						for _, r := range *in.(ssa.Value).Referrers() {
							switch u := r.(type) {
							case *ssa.UnOp:
							case *ssa.Store:
								if !(isInit && u.Addr == in.(ssa.Value)) {
									ro = false
								}
							default:
								ro = false
							}
						}
						if ro {
							continue
						}
					case *ssa.Slice:
						// slices of tables: contents may be stored through; assume mutable unless only read
						ro := true
						for _, r := range *x.Referrers() {
							switch r.(type) {
							case *ssa.IndexAddr, *ssa.DebugRef:
							default:
								ro = false
							}
						}
						if ro {
							continue
						}
					}
					v.mutable[g] = true
				}
			}
		}
	}
}

// ---- verification of one function ----

type Result struct {
	Name    string
	Kind    string
	Obs     []*Oblig
	Paths   int
	Queries int
	Solver  float64
	Time    float64
	Trusted []string
	Called  []string
	Pos     string
}

func (v *Verifier) verifyFn(fn *ssa.Function, ct *Contract) (res *Result) {
	t0 := time.Now()
	ex := newExec(v, fn)
	defer ex.s.Close()
	res = &Result{Name: v.fname(fn), Kind: "func", Pos: ex.poss(fn.Pos())}
	ex.c = ct
	ex.absBytes = strings.HasSuffix(fnPkgPath(fn), "internal/encoder") && ct.Opts["rawbytes"] == ""
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case unsupportedErr:
				msg = e.msg
			case specErr:
				msg = "specification: " + e.msg
			case string, error:
				if os.Getenv("GCV_PANIC") != "" {
					panic(r)
				}
				msg = fmt.Sprint("internal: ", e)
			default:
				panic(r)
			}
			tags := append([]string(nil), ex.safetyTags()...)
			for _, cl := range ct.Clauses {
				tags = append(tags, cl.Tags...)
			}
			o := &Oblig{Fn: res.Name, Kind: "supported", Desc: "function within the verifier's reach", Tags: uniq(tags), Pos: res.Pos, Why: msg, Count: 1}
			if ex.cur != nil {
				o.Path = ex.cur.path
			}
			ex.obs["unsupported"] = o
			ex.order = append(ex.order, "unsupported")
		}
		for _, k := range ex.order {
			res.Obs = append(res.Obs, ex.obs[k])
		}
		res.Paths = ex.paths
		res.Queries = ex.s.Queries
		res.Solver = ex.s.Time.Seconds()
		res.Time = time.Since(t0).Seconds()
		for t := range ex.trusted {
			res.Trusted = append(res.Trusted, t)
		}
		for t := range ex.called {
			res.Called = append(res.Called, t)
		}
		sort.Strings(res.Trusted)
		sort.Strings(res.Called)
	}()
	ex.runInit()
	st := ex.newState()
	pt := map[string]types.Type{}
	ex.params = map[string]Val{}
	var args []Val
	for i, p := range fn.Params {
		n := p.Name()
		a := ex.paramVal(n, p.Type())
		args = append(args, a)
		name := n
		if i < len(ct.Params) {
			name = ct.Params[i]
		}
		if i == 0 && ct.Self != nil {
			ex.params["self"] = a
			pt["self"] = ct.Self
			ex.params[name] = ex.mkIface(a, ct.Self)
			pt[name] = ct.Iface
			continue
		}
		ex.params[name] = a
		pt[name] = p.Type()
	}
	if len(ct.Params) > len(fn.Params) {
		panic(unsupported("contract names more parameters than the function has"))
	}
	var binds []Val
	for _, f := range fn.FreeVars {
		b := ex.paramVal(f.Name(), f.Type())
		binds = append(binds, b)
		ex.params[f.Name()] = b
		pt[f.Name()] = f.Type()
	}
	ex.ptypes = pt
	for _, cl := range ct.Clauses {
		if cl.Kind == "forall" {
			ex.params[cl.Vars[0]] = ex.tt.Fresh(cl.Vars[0], sortOfName(cl.Vars[1]))
		}
	}
	ex.entry = st.clone()
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := under(fn.Signature.Recv().Type()).(*types.Pointer); ok {
			ex.assume(ex.tt.Ne(ex.refTerm(args[0]), ex.tt.Int(0)))
		}
	}
	ex.assumeRequires(st, ct)
	if !ex.feasible() {
		ex.prove(st, ex.tt.Bool(false), "vacuity", "preconditions are satisfiable", ex.safetyTags(), ct.Pos)
	} else {
		ex.obs["vac"] = &Oblig{Fn: res.Name, Kind: "vacuity", Desc: "preconditions are satisfiable", Tags: ex.safetyTags(), Pos: ct.Pos, OK: true, Back: "z3", Count: 1}
		ex.order = append(ex.order, "vac")
	}
	fr := ex.newFrame(fn, args, binds)
	fr.onRet = func(s *State, rs []Val) bool {
		ex.paths++
		ex.proveEnsures(s, ct, fn, rs)
		return false
	}
	st.frames = []*frame{fr}
	ex.cur = st
	ex.run(st)
	if ex.paths == 0 && ct.Opts["noreturn"] == "" {
		ex.prove(st, ex.tt.Bool(false), "vacuity", "some return is reachable", ex.safetyTags(), ct.Pos)
	}
	return res
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var o []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			o = append(o, x)
		}
	}
	sort.Strings(o)
	return o
}

func (ex *Exec) newState() *State {
	st := &State{heap: map[string]*Term{}, regver: map[*Region]int{}}
	return st
}

func (ex *Exec) paramVal(n string, t types.Type) Val {
	v := ex.freshVal(n, t)
	ex.markRefs(v, t)
	return v
}

// markRefs records that references reachable as parameters are not allocated by this function.
func (ex *Exec) markRefs(v Val, t types.Type) {
	mark := func(x *Term) {
		if !x.isConst() && x.sort == SInt {
			ex.nonneg[x] = true
			ex.assume(ex.tt.Le(ex.tt.Int(0), x))
		}
	}
	switch x := v.(type) {
	case *Term:
		if isOpaqueStruct(t) {
			mark(x)
			return
		}
		switch under(t).(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
			mark(x)
		}
	case *SliceV:
		mark(x.base)
	case *StructV:
		for i, f := range x.fields {
			ex.markRefs(f, x.typ.Field(i).Type())
		}
	}
}

func (ex *Exec) assumeRequires(st *State, ct *Contract) {
	env := ex.specEnv(st)
	for _, cl := range ct.Clauses {
		if cl.Kind == "requires" || cl.Kind == "given" {
			ex.assume(ex.asTerm(ex.evalClause(env, cl, cl.E[0])))
		}
		if cl.Kind == "init" {
			ex.assume(ex.tt.Eq(ex.ghost(st, strings.TrimPrefix(cl.Label, "$")), ex.asTerm(ex.evalClause(env, cl, cl.E[0]))))
		}
		if cl.Kind == "given" {
			ex.trusted["given "+cl.Pos+" "+cl.Src] = true
		}
	}
}

func (ex *Exec) evalClause(env *senv, cl *Clause, e *Expr) tval {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				panic(unsupported(cl.Pos + ": " + se.msg))
			}
			panic(r)
		}
	}()
	return ex.eval(env, e)
}

func (ex *Exec) proveEnsures(st *State, ct *Contract, fn *ssa.Function, rs []Val) {
	ex.bumpEpoch(st)
	env := ex.specEnv(st)
	for i, n := range ct.Results {
		if i < len(rs) {
			env.vars[n] = tval{rs[i], fn.Signature.Results().At(i).Type()}
		}
	}
	ex.curExact = ct.Opts["exact"] != ""
	for _, cl := range ct.Clauses {
		if cl.Kind == "use" {
			ex.useLemma(env, cl.E[0], cl, nil, nil)
		}
	}
	ex.curExact = false
	for _, cl := range ct.Clauses {
		if cl.Kind == "returns" {
			ex.proveReturns(st, env, ct, cl)
		}
		if cl.Kind != "ensures" {
			continue
		}
		ex.curExact = ct.Opts["exact"] != ""
		t := ex.asTerm(ex.evalClause(env, cl, cl.E[0]))
		ex.curExact = false
		lbl := cl.Label
		if lbl == "" {
			lbl = cl.Src
		}
		tags := cl.Tags
		if tags == nil {
			tags = ex.safetyTags()
		}
		ex.proveNoAssume(st, t, "ensures", lbl, tags, cl.Pos)
	}
}

func (ex *Exec) proveNoAssume(st *State, goal *Term, kind, desc string, tags []string, pos string) {
	ex.s.Push()
	ex.prove(st, goal, kind, desc, tags, pos)
	ex.s.Pop()
}

// useLemma instantiates a lemma, optionally under a guard: guard ==> name(args).
func (ex *Exec) useLemma(env *senv, e *Expr, cl *Clause, self *Contract, selfMeasure []*Term) {
	var guard *Term
	for e.K == "bin" && e.S == "==>" {
		g := ex.asTerm(ex.evalClause(env, cl, e.A[0]))
		if guard == nil {
			guard = g
		} else {
			guard = ex.tt.And(guard, g)
		}
		e = e.A[1]
	}
	if e.K != "call" {
		panic(unsupported(cl.Pos + ": use needs a lemma instance"))
	}
	lm := ex.v.specs.Contracts["lemma:"+e.S]
	if lm == nil {
		panic(unsupported(cl.Pos + ": unknown lemma " + e.S))
	}
	ne := &senv{vars: map[string]tval{}, st: env.st, old: env.old}
	for i, p := range lm.Params {
		ne.vars[strings.Fields(p)[0]] = ex.evalClause(env, cl, e.A[i])
	}
	ne.ovar = ne.vars
	if guard == nil {
		guard = ex.tt.Bool(true)
	}
	for _, c := range lm.Clauses {
		if c.Kind == "requires" {
			t := ex.asTerm(ex.evalClause(ne, c, c.E[0]))
			guard = ex.tt.And(guard, t)
		}
	}
	if self != nil && (lm == self || lm.Opts["group"] != "" && lm.Opts["group"] == self.Opts["group"]) {
		d := ex.decreasesOf(lm)
		if d == nil {
			panic(unsupported("recursive lemma without measure"))
		}
		var m []*Term
		for _, x := range d.E {
			m = append(m, ex.asTerm(ex.evalClause(ne, d, x)))
		}
		g := ex.tt.Bool(false)
		for i := len(m) - 1; i >= 0; i-- {
			lt := ex.tt.And(ex.tt.Le(ex.tt.Int(0), selfMeasure[i]), ex.tt.Lt(m[i], selfMeasure[i]))
			g = ex.tt.Or(lt, ex.tt.And(ex.tt.Eq(m[i], selfMeasure[i]), g))
		}
		ex.proveNoAssume(nil, ex.tt.Imp(guard, g), "termination", "induction hypothesis applied to a smaller instance", ex.lemmaTags(), cl.Pos)
	} else if self != nil {
		if lemmaIndex(ex.v.specs, lm) >= lemmaIndex(ex.v.specs, self) {
			panic(unsupported("lemma used before its proof"))
		}
	}
	for _, c := range lm.Clauses {
		if c.Kind == "ensures" {
			ex.assume(ex.tt.Imp(guard, ex.asTerm(ex.evalClause(ne, c, c.E[0]))))
		}
	}
}

func lemmaIndex(s *Specs, c *Contract) int {
	for i, x := range s.Order {
		if x == c {
			return i
		}
	}
	return -1
}

func (ex *Exec) lemmaTags() []string {
	if s := ex.c.Opts["tags"]; s != "" {
		return splitComma(s)
	}
	return []string{"C01"}
}

func (v *Verifier) verifyLemma(ct *Contract) (res *Result) {
	t0 := time.Now()
	ex := newExec(v, nil)
	ex.lemmaName = "lemma " + ct.Name
	defer ex.s.Close()
	ex.c = ct
	res = &Result{Name: "lemma " + ct.Name, Kind: "lemma", Pos: ct.Pos}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if e, ok := r.(unsupportedErr); ok {
				msg = e.msg
			} else if os.Getenv("GCV_PANIC") != "" {
				panic(r)
			}
			ex.obs["unsupported"] = &Oblig{Fn: res.Name, Kind: "supported", Desc: "lemma well formed", Tags: ex.lemmaTags(), Pos: ct.Pos, Why: msg, Count: 1}
			ex.order = append(ex.order, "unsupported")
		}
		for _, k := range ex.order {
			res.Obs = append(res.Obs, ex.obs[k])
		}
		res.Queries = ex.s.Queries
		res.Solver = ex.s.Time.Seconds()
		res.Time = time.Since(t0).Seconds()
	}()
	st := ex.newState()
	env := &senv{vars: map[string]tval{}, st: st}
	for _, p := range ct.Params {
		f := strings.Fields(p)
		env.vars[f[0]] = tval{ex.tt.Fresh(f[0], sortOfName(f[1])), v.specParamType(f[1])}
	}
	env.ovar = env.vars
	for _, cl := range ct.Clauses {
		if cl.Kind == "requires" {
			ex.assume(ex.asTerm(ex.evalClause(env, cl, cl.E[0])))
		}
	}
	if !ex.feasible() {
		panic(unsupported("lemma hypotheses are contradictory"))
	}
	var m []*Term
	if d := ex.decreasesOf(ct); d != nil {
		for _, x := range d.E {
			m = append(m, ex.asTerm(ex.evalClause(env, d, x)))
		}
	}
	for _, cl := range ct.Clauses {
		switch cl.Kind {
		case "use":
			ex.useLemma(env, cl.E[0], cl, ct, m)
		case "prove":
			ex.prove(st, ex.asTerm(ex.evalClause(env, cl, cl.E[0])), "lemma step", cl.Src, ex.lemmaTags(), cl.Pos)
		}
	}
	for _, cl := range ct.Clauses {
		if cl.Kind == "ensures" {
			ex.proveNoAssume(st, ex.asTerm(ex.evalClause(env, cl, cl.E[0])), "lemma", cl.Src, ex.lemmaTags(), cl.Pos)
		}
	}
	return res
}

// runInit executes the package initialisers to learn the contents of tables.
func (ex *Exec) runInit() {
	pkg := fnPkgPath(ex.fn)
	for _, p := range ex.v.pkgs {
		if p.Pkg.Path() != pkg {
			continue
		}
		c := ex.c
		ex.c = nil
		ex.initing = true
		st := ex.newState()
		ab := ex.absBytes
		ex.absBytes = false
		func() {
			defer func() {
				ex.initing = false
				ex.c = c
				ex.absBytes = ab
				if r := recover(); r != nil {
					if e, ok := r.(unsupportedErr); ok {
						if os.Getenv("GCV_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, "init:", e.msg)
						}
						ex.trusted["package tables unknown: "+e.msg] = true
						return
					}
					panic(r)
				}
			}()
			fr := ex.newFrame(p.Func("init"), nil, nil)
			done := false
			fr.onRet = func(s *State, rs []Val) bool {
				if done {
					panic(unsupported("package initialiser branches"))
				}
				done = true
				ex.initHeap = map[string]*Term{}
				for n, t := range s.heap {
					ex.initHeap[n] = t
				}
				for _, m := range p.Members {
					if g, ok := m.(*ssa.Global); ok && ex.v.mutable[g] {
						ex.forgetGlobal(g)
					}
				}
				return false
			}
			st.frames = []*frame{fr}
			// before initialisation every global holds its zero value
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					t := g.Type().(*types.Pointer).Elem()
					if b, ok := t.(*types.Basic); ok && b.Kind() == types.Bool {
						ex.store(st, ex.ptrTo(ex.tt.Int(int64(-1000000-ex.v.globalID(g))), t), ex.tt.Bool(false))
					}
				}
			}
			ex.run(st)
		}()
	}
}

func (ex *Exec) forgetGlobal(g *ssa.Global) {
	base := ex.tt.Int(int64(-1000000 - ex.v.globalID(g)))
	t := g.Type().(*types.Pointer).Elem()
	p := ex.ptrTo(base, t)
	if a, ok := under(t).(*types.Array); ok {
		for _, c := range ex.comps(a.Elem()) {
			n := "E:" + ex.v.tname(a.Elem()) + c.suffix
			if h, ok := ex.initHeap[n]; ok {
				ex.initHeap[n] = ex.tt.Store(h, base, ex.tt.Fresh("g."+g.Name(), SArr(c.sort)))
			}
		}
		return
	}
	for _, c := range ex.comps(t) {
		n := p.heap + c.suffix
		if h, ok := ex.initHeap[n]; ok {
			ex.initHeap[n] = ex.tt.Store(h, base, ex.tt.Fresh("g."+g.Name(), c.sort))
		}
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	only := flag.String("fn", "", "verify only functions whose name matches this regular expression")
	prop := flag.String("property", "", "verify only what carries obligations of these properties (comma separated)")
	out := flag.String("json", "", "write results here")
	list := flag.Bool("list", false, "list functions and whether they have a contract")
	to := flag.Int("timeout", 4000, "solver timeout per query (ms)")
	pto := flag.Int("ptimeout", 20, "portfolio timeout (s)")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel jobs")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	sp, err := loadSpecs(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	abs, _ := filepath.Abs(*repo)
	v := &Verifier{specs: sp, repo: abs, timeoutMs: *to, portfolioTO: time.Duration(*pto) * time.Second, backs: map[string]int{}, typeIDs: map[string]int{},
		globIDs: map[*ssa.Global]int{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, names: map[*ssa.Function]string{},
		types: map[string]types.Type{}}
	if err := v.load(); err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *list {
		var ns []string
		for n := range v.fns {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			m := " "
			if v.contractOf(v.fns[n]) != nil {
				m = "*"
			}
			fmt.Println(m, n)
		}
		return
	}
	v.findImpls()
	type job struct {
		fn *ssa.Function
		ct *Contract
	}
	var jobsL []job
	var missing []*Oblig
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	props := map[string]bool{}
	for _, p := range splitComma(*prop) {
		props[p] = true
	}
	for _, c := range sp.Order {
		if re != nil && !re.MatchString(c.Name) {
			continue
		}
		if len(props) > 0 && !contractServes(c, props) {
			continue
		}
		switch c.Kind {
		case "func":
			fn := v.fns[c.Name]
			if fn != nil && v.impls[fn] != nil {
				continue
			}
			if fn == nil {
				if c.Opts["optional"] != "" {
					continue
				}
				tags := []string{}
				for _, cl := range c.Clauses {
					tags = append(tags, cl.Tags...)
				}
				missing = append(missing, &Oblig{Fn: c.Name, Kind: "present", Desc: "function under contract exists in the source", Tags: uniq(append(tags, contractSafety(c)...)), Pos: c.Pos, Why: "not found", Count: 1})
				continue
			}
			jobsL = append(jobsL, job{fn, c})
		case "lemma":
			jobsL = append(jobsL, job{nil, c})
		case "functype":
			for _, n := range sortedKeys(v.fns) {
				fn := v.fns[n]
				if len(fn.FreeVars) >= 0 && fn.Parent() != nil && c.Opts["ondemand"] == "" && v.closureType(fn) == c && v.specs.Contracts["func:"+n] == nil {
					jobsL = append(jobsL, job{fn, c})
				}
			}
		}
	}
	for _, fn := range v.implList {
		c := v.impls[fn]
		if re != nil && !re.MatchString(c.Name) || len(props) > 0 && !contractServes(c, props) {
			continue
		}
		jobsL = append(jobsL, job{fn, c})
	}
	// types known to the verifier get their identifiers in a fixed order
	res := make([]*Result, len(jobsL))
	var wg sync.WaitGroup
	sem := make(chan struct{}, *jobs)
	for i, j := range jobsL {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if j.fn == nil {
				res[i] = v.verifyLemma(j.ct)
			} else {
				res[i] = v.verifyFn(j.fn, j.ct)
			}
		}()
	}
	wg.Wait()
	if len(missing) > 0 {
		for _, m := range missing {
			res = append(res, &Result{Name: m.Fn, Kind: "func", Obs: []*Oblig{m}, Pos: m.Pos})
		}
	}
	nf, no, bad := 0, 0, 0
	for _, r := range res {
		nf++
		fails := 0
		for _, o := range r.Obs {
			no++
			if !o.OK {
				bad++
				fails++
			}
			if *verbose && o.OK {
				fmt.Printf("  ok   %s: %s: %s (%s) [%s] x%d %v\n", o.Fn, o.Kind, o.Desc, o.Pos, o.Back, o.Count, o.Tags)
			}
			if !o.OK {
				fmt.Printf("  FAIL %s: %s: %s (%s) %s %v\n", o.Fn, o.Kind, o.Desc, o.Pos, o.Why, o.Tags)
				if o.Model != "" {
					fmt.Printf("       model %s\n", trunc(o.Model, 400))
				}
				if len(o.Path) > 0 {
					fmt.Printf("       path %s\n", trunc(strings.Join(o.Path, " "), 600))
				}
			}
		}
		fmt.Printf("%s %s: %d obligations, %d failed, %d paths, %d queries, %.1fs\n", map[bool]string{true: "PASS", false: "FAIL"}[fails == 0], r.Name, len(r.Obs), fails, r.Paths, r.Queries, r.Time)
	}
	fmt.Printf("TOTAL %d functions, %d obligations, %d failed\n", nf, no, bad)
	if *out != "" {
		b, _ := json.MarshalIndent(map[string]any{"results": res, "backends": v.backs, "functions": nf, "obligations": no, "failed": bad}, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func sortedKeys(m map[string]*ssa.Function) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func contractSafety(c *Contract) []string {
	if s := c.Opts["safety"]; s != "" {
		return splitComma(s)
	}
	return []string{"C01"}
}

func contractServes(c *Contract, props map[string]bool) bool {
	for _, t := range contractSafety(c) {
		if props[t] {
			return true
		}
	}
	for _, t := range append(append(splitComma(c.Opts["tags"]), splitComma(c.Opts["frametags"])...), splitComma(c.Opts["owntags"])...) {
		if props[t] {
			return true
		}
	}
	for _, t := range splitComma(c.Opts["for"]) {
		if props[t] {
			return true
		}
	}
	var chk func(cl *Clause) bool
	chk = func(cl *Clause) bool {
		for _, t := range cl.Tags {
			if props[t] {
				return true
			}
		}
		for _, s := range cl.Sub {
			if chk(s) {
				return true
			}
		}
		return false
	}
	for _, cl := range c.Clauses {
		if chk(cl) {
			return true
		}
	}
	return false
}
