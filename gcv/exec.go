package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation generated from the current source.
type Oblig struct {
	Fn     string
	Kind   string
	Desc   string
	Tags   []string
	Pos    string
	OK     bool
	Why    string // failure reason
	Back   string
	Path   []string
	Model  string
	Count  int
	replay map[string]string
}

type frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	block   *ssa.BasicBlock
	pc      int
	retTo   *ssa.Call
	defers  []*ssa.Defer
	dvals   [][]Val
	rets    []Val
	loops   []*loopCtx
	inDefer bool
	onRet   func(st *State, rets []Val) bool // nil: store to caller; returns true to continue
	calls   int
}

type State struct {
	heap     map[string]*Term
	frames   []*frame
	path     []string
	suberr   *Term // some sub-call reported an error on this path
	bytesV   map[string]*BytesV
	regver   map[*Region]int
	strict   bool
	havocs   []havocRec
	freedReg map[*Region]bool
	freed    map[*Term]bool
	stale    map[*Region][]iv
	stored   map[*Region]bool
	sealed   map[*Term]string
	alive    map[*Term]*aliveRec // objects allocated since the last point where others could see them
	pend     []pendInv
}

// havocRec: every heap array matching pat and not read before has an unknown value.
type havocRec struct {
	pat string
	id  int
}

func (h havocRec) match(n string) bool {
	return h.pat == n || strings.HasSuffix(h.pat, "*") && strings.HasPrefix(n, h.pat[:len(h.pat)-1])
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(st.heap)), suberr: st.suberr, path: append([]string(nil), st.path...), havocs: append([]havocRec(nil), st.havocs...)}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	if st.bytesV != nil {
		n.bytesV = map[string]*BytesV{}
		for k, v := range st.bytesV {
			n.bytesV[k] = v
		}
	}
	n.regver = map[*Region]int{}
	for k, v := range st.regver {
		n.regver[k] = v
	}
	n.freed, n.freedReg, n.stored, n.sealed = st.freed, st.freedReg, st.stored, st.sealed
	n.alive, n.pend = st.alive, st.pend
	if st.stale != nil {
		n.stale = map[*Region][]iv{}
		for k, v := range st.stale {
			n.stale[k] = v
		}
	}
	for _, f := range st.frames {
		c := *f
		c.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = append([]*ssa.Defer(nil), f.defers...)
		c.dvals = append([][]Val(nil), f.dvals...)
		c.loops = append([]*loopCtx(nil), f.loops...)
		n.frames = append(n.frames, &c)
	}
	return n
}

type Exec struct {
	zeroing    bool
	curPos     token.Pos
	v          *Verifier
	tt         *termTable
	s          *Solver
	fn         *ssa.Function
	c          *Contract // contract of the function under verification
	absBytes   bool
	funcs      map[*Term]*FuncV
	nregion    int
	nalloc     int64
	allocTyp   map[int64]string
	obs        map[string]*Oblig
	order      []string
	mute       int
	entry      *State // entry heap for old()
	params     map[string]Val
	paths      int
	steps      int
	spec       specEnvBase
	inited     bool
	initing    bool
	initHeap   map[string]*Term
	cur        *State
	nonneg     map[*Term]bool
	rets       int
	ifaceMk    map[*Term]types.Type
	mkVal      map[*Term]Val
	deadline   int
	stopLoop   *loopCtx
	fuel       map[*Term]int
	trusted    map[string]bool
	called     map[string]bool
	written    map[string]bool
	ovDepth    int
	failed     bool
	rtypes     map[*Term]types.Type
	lemmaName  string
	curExact   bool
	filled     map[*Term]string
	freshFloor int64
	cmpLits    map[*Term]string // literals compared with in the current function
	dynDepth   int
	ptypes     map[string]types.Type
	dynTypes   map[string]types.Type
	lastEnv    *senv
}

type specEnvBase struct{}

func newExec(v *Verifier, fn *ssa.Function) *Exec {
	tt := newTermTable()
	tt.isRec = func(n string) bool {
		f := v.specs.Funs[strings.TrimPrefix(n, "sp:")]
		return strings.HasPrefix(n, "sp:") && f != nil && f.Rec
	}
	ex := &Exec{v: v, tt: tt, fn: fn, funcs: map[*Term]*FuncV{}, obs: map[string]*Oblig{}, nonneg: map[*Term]bool{},
		ifaceMk: map[*Term]types.Type{}, mkVal: map[*Term]Val{}, allocTyp: map[int64]string{}, fuel: map[*Term]int{}, trusted: map[string]bool{}, called: map[string]bool{}, rtypes: map[*Term]types.Type{}, filled: map[*Term]string{}, dynTypes: map[string]types.Type{}}
	tt.distinct = func(a, b *Term) bool {
		return a.op == "const" && a.val != nil && a.val.Sign() < 0 && ex.nonneg[b] || b.op == "const" && b.val != nil && b.val.Sign() < 0 && ex.nonneg[a]
	}
	ex.s = NewSolver(tt, v.timeoutMs)
	return ex
}

// ---- assumptions and obligations ----

func (ex *Exec) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			ex.assume(a)
		}
		return
	}
	ex.s.rawAssert(t)
	ex.unfold(t, 0)
}

func (ex *Exec) unfold(t *Term, level int) {
	if !t.specs {
		return
	}
	t.walk(func(x *Term) bool {
		if !x.specs {
			return false
		}
		if x.op == "app" && strings.HasPrefix(x.name, "sp:") {
			f := ex.v.specs.Funs[x.name[3:]]
			if f != nil && f.Rec && level < ex.fuelOf(f) {
				if !ex.isUnfolded(x) {
					fr := ex.s.frames[len(ex.s.frames)-1]
					fr.unfolded[x] = level + 1
					def := ex.specBody(f, x.args)
					eq := ex.tt.Eq(x, def)
					ex.s.rawAssert(eq)
					ex.unfold(def, level+1)
					// arguments
				}
			}
		}
		return true
	})
}

// fuelOf bounds how deep a definition is unfolded in one go; deep only where the contract asks for it.
func (ex *Exec) fuelOf(f *SpecFun) int {
	if f.Fuel > 1 && (ex.c == nil || ex.c.Opts["deep"] == "") {
		return 1
	}
	return f.Fuel
}

func (ex *Exec) isUnfolded(x *Term) bool {
	for _, f := range ex.s.frames {
		if f.unfolded[x] > 0 {
			return true
		}
	}
	return false
}

// valid checks whether t follows from the current path.
func (ex *Exec) valid(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return !ex.feasible()
	}
	ex.s.Push()
	ex.assume(ex.tt.Not(t))
	r := ex.s.Check()
	ex.s.Pop()
	return r == "unsat"
}

func (ex *Exec) feasible() bool { return ex.s.Check() != "unsat" }

func (ex *Exec) poss(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	pp := ex.v.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, ex.v.repo+"/"), pp.Line)
}

// prove checks an obligation and then assumes it.
func (ex *Exec) prove(st *State, goal *Term, kind, desc string, tags []string, pos string) bool {
	if goal.isTrue() && ex.mute > 0 {
		return true
	}
	if ex.mute > 0 {
		ex.assume(goal)
		return true
	}
	if goal.op == "and" {
		ok := true
		for _, g := range goal.args {
			if !ex.prove(st, g, kind, desc, tags, pos) {
				ok = false
			}
		}
		return ok
	}
	if goal.op == "or" {
		// A ==> B && C
		for i, g := range goal.args {
			if g.op == "and" {
				rest := append(append([]*Term(nil), goal.args[:i]...), goal.args[i+1:]...)
				ok := true
				for _, c := range g.args {
					if !ex.prove(st, ex.tt.Or(append(rest, c)...), kind, desc, tags, pos) {
						ok = false
					}
				}
				return ok
			}
		}
	}
	key := kind + "|" + desc + "|" + pos
	o := ex.obs[key]
	if o == nil {
		o = &Oblig{Fn: ex.curName(), Kind: kind, Desc: desc, Tags: tags, Pos: pos, OK: true}
		ex.obs[key] = o
		ex.order = append(ex.order, key)
	}
	o.Count++
	if goal.isTrue() {
		if o.Back == "" {
			o.Back = "simplifier"
		}
		return true
	}
	if !o.OK {
		ex.assume(goal)
		return false
	}
	if dok, handled := ex.proveDyn(st, goal, kind, desc, tags, pos); handled {
		if o.Back == "" {
			o.Back = "nested proof"
		}
		if !dok && o.OK {
			o.OK = false
			ex.failed = true
			o.Why = "an obligation of the nested proof failed"
			if st != nil {
				o.Path = append([]string(nil), st.path...)
			}
		}
		ex.assume(goal)
		return dok
	}
	if ex.proveWords(goal) {
		o.Back = "word matching + z3"
		ex.v.addBack("word matching + z3")
		ex.assume(goal)
		return true
	}
	ex.s.Push()
	ex.assume(ex.tt.Not(goal))
	r := ex.s.Check()
	back := "z3"
	if r == "unknown" || (r == "sat" && ex.hasSpecs(goal)) {
		if r == "unknown" {
			r, back = ex.s.Portfolio(ex.v.portfolioTO)
		}
		if r != "unsat" {
			// unfold one more level and retry
			ex.deepUnfold()
			r2 := ex.s.Check()
			back = "z3"
			if r2 == "unknown" {
				r2, back = ex.s.Portfolio(ex.v.portfolioTO)
			}
			if r2 != "unsat" {
				// a last try: more definitions, more time
				ex.deepUnfold()
				if r3, b3 := ex.s.Portfolio(2 * ex.v.portfolioTO); r3 == "unsat" {
					r2, back = r3, b3
				}
			}
			r = r2
		}
	}
	if r == "unsat" {
		ex.v.addBack(back)
		o.Back = back
	} else {
		o.OK = false
		ex.failed = true
		o.Why = r
		if st != nil {
			o.Path = append([]string(nil), st.path...)
		}
		o.Model = ""
		if r == "sat" {
			o.Model = ex.modelText()
		}
		if d := os.Getenv("GCV_DUMPFAIL"); d != "" {
			os.WriteFile(d, []byte(ex.s.dump(nil)+"(check-sat)\n; goal "+goal.String()+"\n"), 0o644)
		}
		if os.Getenv("GCV_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "FAIL %s %s %s [%s]\n  goal %s\n  path %v\n", kind, desc, pos, r, trunc(goal.String(), 600), o.Path)
		}
	}
	ex.s.Pop()
	ex.assume(goal)
	return r == "unsat"
}

func (ex *Exec) curName() string {
	if ex.fn == nil {
		return ex.lemmaName
	}
	return ex.v.fname(ex.fn)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (ex *Exec) hasSpecs(t *Term) bool { return true }

// deepUnfold unfolds every not yet unfolded recursive application in the current frames once.
func (ex *Exec) deepUnfold() {
	var apps []*Term
	seen := map[*Term]bool{}
	for _, f := range ex.s.frames {
		for _, a := range f.asserts {
			a.walk(func(x *Term) bool {
				if !x.specs || seen[x] {
					return false
				}
				seen[x] = true
				if x.op == "app" && strings.HasPrefix(x.name, "sp:") {
					if sf := ex.v.specs.Funs[x.name[3:]]; sf != nil && sf.Rec && !ex.isUnfolded(x) {
						apps = append(apps, x)
					}
				}
				return true
			})
		}
	}
	if len(apps) > 120 {
		apps = apps[:120]
	}
	for _, x := range apps {
		f := ex.v.specs.Funs[x.name[3:]]
		ex.s.frames[len(ex.s.frames)-1].unfolded[x] = 9
		ex.s.rawAssert(ex.tt.Eq(x, ex.specBody(f, x.args)))
	}
}

func (ex *Exec) modelText() string {
	// values of the parameters in the counterexample
	var names []string
	for n := range ex.params {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		var ts []*Term
		switch x := ex.params[n].(type) {
		case *Term:
			ts = []*Term{x}
		case *SliceV:
			ts = []*Term{x.len, x.off}
			if ex.entry != nil && x.elem != nil {
				ln, err := 0, error(nil)
				ev := ex.s.Eval([]*Term{x.len})
				ln, err = strconv.Atoi(ev[x.len])
				if err == nil && ln <= 64 {
					arr := ex.sliceArr(ex.entry, x)
					if arr != nil {
						for i := 0; i < ln; i++ {
							ts = append(ts, ex.tt.Select(arr, ex.tt.Add(x.off, ex.tt.Int(int64(i)))))
						}
					}
				}
			}
		default:
			continue
		}
		ev := ex.s.Eval(ts)
		fmt.Fprintf(&sb, "%s =", n)
		for _, t := range ts {
			fmt.Fprintf(&sb, " %s", ev[t])
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

func (ex *Exec) safetyTags() []string {
	if ex.c != nil {
		if s := ex.c.Opts["safety"]; s != "" {
			return splitComma(s)
		}
	}
	return []string{"C01"}
}

func (ex *Exec) safe(st *State, goal *Term, desc string, pos token.Pos) {
	ex.prove(st, goal, "safety", desc, ex.safetyTags(), ex.poss(pos))
}

// ---- heap ----

func (ex *Exec) heapGet(st *State, name string, sort Sort) *Term {
	if t, ok := st.heap[name]; ok {
		if t.sort != sort {
			panic(unsupported(fmt.Sprintf("heap %s used at sorts %s and %s", name, t.sort, sort)))
		}
		return t
	}
	for i := len(st.havocs) - 1; i >= 0; i-- {
		if st.havocs[i].match(name) {
			t := ex.tt.Var(fmt.Sprintf("h:%s!%d", name, st.havocs[i].id), sort)
			st.heap[name] = t
			return t
		}
	}
	// first use: the entry value, shared by all states
	t := ex.tt.Var("h:"+name, sort)
	if g, ok := ex.initHeap[name]; ok && !ex.initing {
		t = g
		if t.sort != sort {
			panic(unsupported("heap sort mismatch for " + name))
		}
	}
	st.heap[name] = t
	if ex.entry != nil && ex.entry != st {
		if _, ok := ex.entry.heap[name]; !ok {
			ex.entry.heap[name] = t
		}
	}
	return t
}

func (ex *Exec) heapSet(st *State, name string, t *Term) {
	st.heap[name] = t
	ex.noteWrite(st, name, nil)
}

func (ex *Exec) noteWrite(st *State, name string, base *Term) {
	for _, f := range st.frames {
		for _, l := range f.loops {
			if l.writes != nil {
				if l.writes[name] == nil {
					l.writes[name] = map[*Term]bool{}
				}
				l.writes[name][base] = true
				if t := st.heap[name]; t != nil {
					l.wsort[name] = t.sort
				}
			}
		}
	}
}

func (ex *Exec) isFreshRef(t *Term) bool {
	return t.op == "const" && t.val != nil && t.val.Sign() < 0 && t.val.Cmp(big.NewInt(-1000000)) > 0 && -t.val.Int64() > ex.freshFloor
}

// checkFrame: writing name[base] must be allowed by the modifies clause unless base was allocated here.
func (ex *Exec) checkFrame(st *State, name string, base *Term, pos token.Pos) {
	if ex.initing || ex.mute > 0 || ex.c == nil || ex.c.Opts["noframe"] != "" {
		return
	}
	if base != nil && ex.isFreshRef(base) {
		return
	}
	if ex.modAllowed(ex.c, name) {
		return
	}
	g := ex.tt.Bool(false)
	if base != nil {
		// maybe provably fresh
		g = ex.tt.And(ex.tt.Lt(base, ex.tt.Int(0)), ex.tt.Gt(base, ex.tt.Int(-1000000)), ex.tt.Lt(base, ex.tt.Int(-ex.freshFloor)))
	}
	ex.prove(st, g, "frame", "write to "+name+" outside the frame", ex.frameTags(), ex.poss(pos))
}

func (ex *Exec) frameTags() []string {
	if s := ex.c.Opts["frametags"]; s != "" {
		return splitComma(s)
	}
	return ex.safetyTags()
}

func (ex *Exec) modAllowed(c *Contract, name string) bool {
	for _, cl := range c.Clauses {
		if cl.Kind == "modifies" {
			for _, m := range cl.Vars {
				if m == name || strings.HasSuffix(m, "*") && strings.HasPrefix(name, m[:len(m)-1]) {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) load(st *State, p *PtrV) Val {
	if a, ok := under(p.typ).(*types.Array); ok && p.heap == "arr" {
		cs := ex.comps(a.Elem())
		if len(cs) != 1 {
			panic(unsupported("load of array of structs"))
		}
		return &ArrayV{arr: ex.tt.Select(ex.heapGet(st, "E:"+ex.v.tname(a.Elem())+cs[0].suffix, SArr(SArr(cs[0].sort))), p.base), n: a.Len(), elem: a.Elem()}
	}
	cs := ex.comps(p.typ)
	var ts []*Term
	for _, c := range cs {
		name := p.heap + c.suffix
		var t *Term
		if p.idx != nil {
			a := ex.tt.Select(ex.heapGet(st, name, SArr(SArr(c.sort))), p.base)
			t = ex.tt.Select(a, p.idx)
			if _, ok := under(p.typ).(*types.Signature); ok {
				if d := ex.decideIndex(a, p.idx); d != nil {
					t = d
				}
			}
		} else {
			t = ex.tt.Select(ex.heapGet(st, name, SArr(c.sort)), p.base)
			if ex.v.specs.Final[name] {
				t = ex.finalGet(st, name, p.base, c)
			}
		}
		ts = append(ts, t)
	}
	v, _ := ex.unflatten(ts, p.typ)
	if b, ok := v.(*BytesV); ok {
		return ex.loadBytes(st, p, b)
	}
	ex.assumeType(v, p.typ)
	return v
}

func (ex *Exec) store(st *State, p *PtrV, v Val) {
	if a, ok := under(p.typ).(*types.Array); ok && p.heap == "arr" {
		cs := ex.comps(a.Elem())
		if len(cs) != 1 {
			panic(unsupported("store of array of structs"))
		}
		n := "E:" + ex.v.tname(a.Elem()) + cs[0].suffix
		st.heap[n] = ex.tt.Store(ex.heapGet(st, n, SArr(SArr(cs[0].sort))), p.base, v.(*ArrayV).arr)
		ex.noteWrite(st, n, p.base)
		return
	}
	cs := ex.comps(p.typ)
	ts := ex.flatten(v, p.typ)
	for i, c := range cs {
		name := p.heap + c.suffix
		if p.idx != nil {
			h := ex.heapGet(st, name, SArr(SArr(c.sort)))
			in := ex.tt.Select(h, p.base)
			st.heap[name] = ex.tt.Store(h, p.base, ex.tt.Store(in, p.idx, ts[i]))
		} else {
			if ex.v.specs.Final[name] {
				ex.finalSet(st, name, p.base, ts[i])
				continue
			}
			h := ex.heapGet(st, name, SArr(c.sort))
			st.heap[name] = ex.tt.Store(h, p.base, ts[i])
		}
		ex.noteWrite(st, name, p.base)
	}
	if f, ok := v.(*FuncV); ok {
		ex.funcs[f.term] = f
	}
	if b, ok := v.(*BytesV); ok {
		ex.cacheBytes(st, p, b)
	}
}

// ptrTo turns an object reference into the address of a location of type t.
func (ex *Exec) ptrTo(v Val, t types.Type) *PtrV {
	if p, ok := v.(*PtrV); ok {
		return p
	}
	base := ex.term(v)
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
			return &PtrV{heap: ex.v.tname(t), base: base, typ: t}
		}
	}
	if _, ok := under(t).(*types.Array); ok {
		return &PtrV{heap: "arr", base: base, typ: t}
	}
	return &PtrV{heap: "cell:" + ex.v.tname(t), base: base, typ: t}
}

func (ex *Exec) alloc(t types.Type) *Term {
	ex.nalloc++
	r := ex.tt.Int(-ex.nalloc)
	ex.allocTyp[-ex.nalloc] = ex.v.tname(t)
	return r
}

func (ex *Exec) sliceHeap(s *SliceV) string {
	if s.heap != "" {
		return s.heap
	}
	return "E:" + ex.v.tname(s.elem)
}

func (ex *Exec) sliceArr(st *State, s *SliceV) *Term {
	if s.arr != nil {
		return s.arr
	}
	cs := ex.comps(s.elem)
	if len(cs) != 1 {
		return nil
	}
	return ex.tt.Select(ex.heapGet(st, ex.sliceHeap(s), SArr(SArr(cs[0].sort))), s.base)
}

// ---- strings ----

func (ex *Exec) slen(s *Term) *Term {
	if s.op == "var" && strings.HasPrefix(s.name, "str:") {
		return ex.tt.Int(int64(len(s.name) - 4))
	}
	if s.op == "app" && (s.name == "strof" || s.name == "ustrof") {
		return s.args[2]
	}
	return ex.tt.App("slen", SInt, s)
}

func (ex *Exec) strLit(s string) *Term {
	t := ex.tt.Var("str:"+s, SInt)
	return t
}

func litOf(t *Term) (string, bool) {
	if t.op == "var" && strings.HasPrefix(t.name, "str:") {
		return t.name[4:], true
	}
	return "", false
}

func (ex *Exec) schar(s, i *Term) *Term {
	if l, ok := litOf(s); ok && i.isConst() && i.val.IsInt64() && i.val.Int64() >= 0 && i.val.Int64() < int64(len(l)) {
		return ex.tt.Int(int64(l[i.val.Int64()]))
	}
	if s.op == "app" && (s.name == "strof" || s.name == "ustrof") {
		return ex.tt.Select(s.args[0], ex.tt.Add(s.args[1], i))
	}
	return ex.tt.App("schar", SInt, s, i)
}

func (ex *Exec) strEq(a, b *Term) *Term {
	la, oka := litOf(a)
	lb, okb := litOf(b)
	if oka && okb {
		return ex.tt.Bool(la == lb)
	}
	if oka {
		a, b, la, lb, oka, okb = b, a, lb, la, okb, oka
	}
	if okb && len(lb) <= 16 {
		cj := []*Term{ex.tt.Eq(ex.slen(a), ex.tt.Int(int64(len(lb))))}
		if a.op == "app" && (a.name == "strof" || a.name == "ustrof") {
			for i := 0; i < len(lb); i++ {
				cj = append(cj, ex.tt.Eq(ex.schar(a, ex.tt.Int(int64(i))), ex.tt.Int(int64(lb[i]))))
			}
			return ex.tt.And(cj...)
		}
		if len(lb) == 0 {
			return cj[0]
		}
	}
	if okb {
		ex.distinctLits(b, lb)
	}
	return ex.tt.Eq(a, b)
}

func (ex *Exec) bsEmpty() *Term { return ex.tt.Var("bs.empty", SBs) }

// ---- machine integers ----

func (ex *Exec) wrap(t *Term, typ types.Type) *Term {
	ii, ok := intOf(typ)
	if !ok {
		return t
	}
	if t.isConst() {
		return ex.tt.Big(wrapConst(t.val, ii))
	}
	in := ex.tt.And(ex.tt.Le(ex.tt.Big(ii.min()), t), ex.tt.Le(t, ex.tt.Big(ii.max())))
	if ex.valid(in) {
		return t
	}
	m := new(big.Int).Lsh(big.NewInt(1), ii.bits)
	if !ii.signed {
		return ex.tt.Mod(t, m)
	}
	h := new(big.Int).Lsh(big.NewInt(1), ii.bits-1)
	return ex.tt.Sub(ex.tt.Mod(ex.tt.Add(t, ex.tt.Big(h)), m), ex.tt.Big(h))
}

func wrapConst(x *big.Int, ii intInfo) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), ii.bits)
	r := new(big.Int).Mod(x, m)
	if ii.signed && r.Cmp(ii.max()) > 0 {
		r.Sub(r, m)
	}
	return r
}

// ---- interface values ----

func (ex *Exec) mkIface(v Val, t types.Type) *Term {
	name := ex.v.tname(t)
	var args []*Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupportedErr); !ok {
					panic(r)
				}
				args = nil
			}
		}()
		args = ex.flatten(v, t)
	}()
	if len(args) == 0 {
		args = []*Term{ex.tt.Int(0)}
	}
	m := ex.tt.App("mk:"+name, SInt, args...)
	ex.ifaceMk[m] = t
	ex.mkVal[m] = v
	ex.assume(ex.tt.Lt(ex.tt.Int(0), m))
	ex.assume(ex.tt.Eq(ex.dyn(m), ex.tid(name)))
	cs := ex.comps(t)
	if len(cs) == len(args) {
		for i, c := range cs {
			ex.assume(ex.tt.Eq(ex.tt.App("data:"+name+c.suffix, c.sort, m), args[i]))
		}
	}
	return m
}

func (ex *Exec) dyn(m *Term) *Term { return ex.tt.App("dyn", SInt, m) }

func (ex *Exec) tid(name string) *Term {
	return ex.tt.Int(int64(ex.v.typeID(name)))
}

func (ex *Exec) dataOf(m *Term, t types.Type) Val {
	if mt, ok := ex.ifaceMk[m]; ok && types.Identical(mt, t) {
		return ex.mkVal[m]
	}
	name := ex.v.tname(t)
	var ts []*Term
	for _, c := range ex.comps(t) {
		ts = append(ts, ex.tt.App("data:"+name+c.suffix, c.sort, m))
	}
	v, _ := ex.unflatten(ts, t)
	ex.assumeType(v, t)
	return v
}

// ---- evaluation of SSA operands ----

func (ex *Exec) val(st *State, v ssa.Value) Val {
	fr := st.top()
	if x, ok := fr.env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return ex.globalRef(x)
	case *ssa.Function:
		return ex.funcVal(x, nil)
	case *ssa.Builtin:
		return nil
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) of %s not available", v.Name(), v, fr.fn)))
}

func (ex *Exec) funcVal(f *ssa.Function, binds []Val) *FuncV {
	var t *Term
	name := "fn:" + ex.v.fname(f)
	if len(binds) == 0 {
		t = ex.tt.Var(name, SInt)
	} else {
		ex.nalloc++
		t = ex.tt.Var(fmt.Sprintf("%s@%d", name, ex.nalloc), SInt)
	}
	if fv := ex.funcs[t]; fv != nil {
		return fv
	}
	fv := &FuncV{term: t, fn: f, binds: binds}
	ex.funcs[t] = fv
	ex.assume(ex.tt.Lt(ex.tt.Int(0), t))
	return fv
}

func (ex *Exec) globalRef(g *ssa.Global) Val {
	id := ex.v.globalID(g)
	return ex.ptrTo(ex.tt.Int(int64(-1000000-id)), g.Type().(*types.Pointer).Elem())
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zeroVal(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.tt.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				panic(unsupported("const " + c.String()))
			}
			return ex.tt.Big(b)
		case u.Info()&types.IsFloat != 0:
			bits := 64
			if u.Kind() == types.Float32 {
				bits = 32
			}
			f, _ := constant.Float64Val(c.Value)
			return ex.fltConst(strconv.FormatFloat(f, 'g', -1, 64), bits)
		case u.Info()&types.IsString != 0:
			return ex.strLit(constant.StringVal(c.Value))
		}
	}
	panic(unsupported("constant " + c.String()))
}

// ---- main interpreter ----

type pathEnd struct{}

func (ex *Exec) run(st *State) {
	for {
		ex.steps++
		if ex.steps > 4000000 {
			panic(unsupported("step limit"))
		}
		fr := st.top()
		in := fr.block.Instrs[fr.pc]
		fr.pc++
		if os.Getenv("GCV_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "%*s%s: %s\n", len(st.frames), "", fr.fn.Name(), in)
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := ex.term(ex.val(st, x.Cond))
			bb := fr.block
			ex.branch(st, c, func(s *State) bool { return ex.enter(s, bb.Succs[0]) }, func(s *State) bool { return ex.enter(s, bb.Succs[1]) })
			return
		case *ssa.Jump:
			if !ex.enter(st, fr.block.Succs[0]) {
				return
			}
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, ex.val(st, r))
			}
			if !ex.doReturn(st, rs) {
				return
			}
		case *ssa.Panic:
			if ex.feasible() {
				ex.safe(st, ex.tt.Bool(false), "explicit panic reachable", x.Pos())
			}
			return
		case *ssa.RunDefers:
			if !ex.runDefers(st) {
				return
			}
		case *ssa.Call:
			if !ex.doCall(st, x, &x.Call) {
				return
			}
		default:
			if !ex.instr(st, in) {
				return
			}
		}
	}
}

// branch explores both outcomes of a condition.
func (ex *Exec) branch(st *State, c *Term, yes, no func(*State) bool) {
	if c.isTrue() {
		if yes(st) {
			ex.run(st)
		}
		return
	}
	if c.isFalse() {
		if no(st) {
			ex.run(st)
		}
		return
	}
	ex.s.Push()
	ex.assume(c)
	f1 := ex.feasible()
	if f1 {
		s2 := st.clone()
		s2.path = append(s2.path, ex.poss(ex.lastPos(st))+"+")
		if yes(s2) {
			ex.run(s2)
		}
	}
	ex.s.Pop()
	ex.s.Push()
	ex.assume(ex.tt.Not(c))
	if !f1 || ex.feasible() {
		st.path = append(st.path, ex.poss(ex.lastPos(st))+"-")
		if no(st) {
			ex.run(st)
		}
	}
	ex.s.Pop()
}

func (ex *Exec) lastPos(st *State) token.Pos {
	fr := st.top()
	for i := fr.pc - 1; i >= 0 && i < len(fr.block.Instrs); i-- {
		in := fr.block.Instrs[i]
		if iff, ok := in.(*ssa.If); ok {
			if p := iff.Cond.Pos(); p.IsValid() {
				return p
			}
		}
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func (ex *Exec) doReturn(st *State, rs []Val) bool {
	fr := st.top()
	for _, l := range fr.loops {
		if l.mode == "houdini" {
			return false
		}
	}
	if fr.onRet != nil {
		return fr.onRet(st, rs)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		panic("return from empty frame stack")
	}
	ex.setResult(st, fr.retTo, rs)
	return true
}

func (ex *Exec) setResult(st *State, call *ssa.Call, rs []Val) {
	if call == nil {
		return
	}
	fr := st.top()
	switch len(rs) {
	case 0:
	case 1:
		fr.env[call] = rs[0]
	default:
		fr.env[call] = TupleV(rs)
	}
}

func (ex *Exec) runDefers(st *State) bool {
	fr := st.top()
	if len(fr.defers) == 0 {
		return true
	}
	d := fr.defers[len(fr.defers)-1]
	args := fr.dvals[len(fr.dvals)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	fr.dvals = fr.dvals[:len(fr.dvals)-1]
	fr.pc-- // come back to RunDefers
	return ex.callCommon(st, nil, &d.Call, args, d.Pos())
}

func (ex *Exec) instr(st *State, in ssa.Instruction) bool {
	fr := st.top()
	tt := ex.tt
	if p := in.Pos(); p.IsValid() {
		ex.curPos = p
	}
	switch x := in.(type) {
	case *ssa.Phi:
		panic(unsupported("phi outside block entry"))
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		r := ex.alloc(t)
		p := ex.ptrTo(r, t)
		ex.zeroInit(st, p)
		ex.noOwner(r, t)
		fr.env[x] = ex.refOf(p)
	case *ssa.BinOp:
		fr.env[x] = ex.binop(st, x)
	case *ssa.UnOp:
		v, ok := ex.unop(st, x)
		if !ok {
			return false
		}
		fr.env[x] = v
	case *ssa.ChangeType:
		fr.env[x] = ex.retype(ex.val(st, x.X), x.Type())
	case *ssa.ChangeInterface:
		fr.env[x] = ex.val(st, x.X)
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, x)
	case *ssa.MultiConvert:
		panic(unsupported("generic conversion"))
	case *ssa.MakeInterface:
		fr.env[x] = ex.mkIface(ex.val(st, x.X), x.X.Type())
	case *ssa.Extract:
		tv, ok := ex.val(st, x.Tuple).(TupleV)
		if !ok {
			panic(unsupported("extract of non tuple"))
		}
		fr.env[x] = tv[x.Index]
	case *ssa.Field:
		sv, ok := ex.val(st, x.X).(*StructV)
		if !ok {
			panic(unsupported("field of opaque struct " + x.X.Type().String()))
		}
		fr.env[x] = sv.fields[x.Field]
	case *ssa.FieldAddr:
		fr.env[x] = ex.fieldAddr(st, ex.val(st, x.X), x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field, x.Pos())
	case *ssa.IndexAddr:
		fr.env[x] = ex.indexAddr(st, x)
	case *ssa.Index:
		i := ex.term(ex.val(st, x.Index))
		switch a := ex.val(st, x.X).(type) {
		case *ArrayV:
			ex.safe(st, tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, tt.Int(a.n))), "array index in range", x.Pos())
			fr.env[x] = tt.Select(a.arr, i)
		default:
			s := ex.term(a)
			ex.safe(st, tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, ex.slen(s))), "string index in range", x.Pos())
			r := ex.schar(s, i)
			ex.assumeType(r, types.Typ[types.Uint8])
			fr.env[x] = r
		}
	case *ssa.Lookup:
		ex.lookup(st, x)
	case *ssa.Slice:
		fr.env[x] = ex.slice(st, x)
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok && ex.resultSlot(a) {
			return true
		}
		p := ex.addr(st, ex.val(st, x.Addr), x.Addr.Type(), x.Pos())
		v := ex.val(st, x.Val)
		if !ex.storeHook(st, p, v, x.Pos()) {
			return false
		}
		ex.checkFrame(st, p.heap, p.base, x.Pos())
		ex.store(st, p, v)
	case *ssa.MapUpdate:
		ex.mapUpdate(st, x)
	case *ssa.MakeMap:
		r := ex.alloc(x.Type())
		ex.newMap(st, r, x.Type())
		fr.env[x] = r
	case *ssa.MakeSlice:
		n := ex.term(ex.val(st, x.Len))
		c := ex.term(ex.val(st, x.Cap))
		ex.safe(st, tt.And(tt.Le(tt.Int(0), n), tt.Le(n, c), tt.Le(c, tt.Int(1<<46))), "make slice size in range", x.Pos())
		et := x.Type().Underlying().(*types.Slice).Elem()
		if ex.absBytes && isByteSlice(x.Type()) {
			rg := ex.newRegion("make", true)
			b := &BytesV{region: rg, n: n}
			if n.isConst() && n.val.Sign() == 0 {
				b.t = ex.bsEmpty()
			} else {
				b.t = tt.App("zeros", SBs, n)
				ex.assume(tt.Eq(ex.bslen(b.t), n))
			}
			fr.env[x] = b
			break
		}
		r := ex.alloc(types.NewArray(et, 0))
		for _, c := range ex.comps(et) {
			h := ex.heapGet(st, "E:"+ex.v.tname(et)+c.suffix, SArr(SArr(c.sort)))
			z := ex.zeroOf(c)
			st.heap["E:"+ex.v.tname(et)+c.suffix] = tt.Store(h, r, tt.ConstArr(z))
			ex.noteWrite(st, "E:"+ex.v.tname(et)+c.suffix, r)
		}
		ex.noOwner(r, types.NewArray(et, 0))
		fr.env[x] = &SliceV{base: r, off: tt.Int(0), len: n, cap: c, elem: et}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, ex.val(st, b))
		}
		f := ex.funcVal(x.Fn.(*ssa.Function), bs)
		fr.env[x] = f
		ex.closureMade(st, f, x)
	case *ssa.TypeAssert:
		return ex.typeAssert(st, x)
	case *ssa.Defer:
		var as []Val
		if x.Call.IsInvoke() {
			as = append(as, ex.val(st, x.Call.Value))
		}
		for _, a := range x.Call.Args {
			as = append(as, ex.val(st, a))
		}
		fr.defers = append(fr.defers, x)
		fr.dvals = append(fr.dvals, as)
	case *ssa.Range:
		fr.env[x] = ex.rangeMap(st, x)
	case *ssa.Next:
		return ex.next(st, x)
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.Send, *ssa.MakeChan, *ssa.Go:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T %s", in, in)))
	}
	return true
}

func (ex *Exec) zeroOf(c comp) *Term {
	return ex.flatten(ex.zeroVal(c.typ), c.typ)[compIndex(ex, c)]
}
func compIndex(ex *Exec, c comp) int {
	cs := ex.comps(c.typ)
	for i, k := range cs {
		if strings.HasSuffix(c.suffix, k.suffix) && k.sort == c.sort {
			if len(cs) == 1 || k.suffix != "" {
				return i
			}
		}
	}
	return 0
}

func (ex *Exec) zeroInit(st *State, p *PtrV) {
	if a, ok := under(p.typ).(*types.Array); ok {
		for _, c := range ex.comps(a.Elem()) {
			n := "E:" + ex.v.tname(a.Elem()) + c.suffix
			h := ex.heapGet(st, n, SArr(SArr(c.sort)))
			st.heap[n] = ex.tt.Store(h, p.base, ex.tt.ConstArr(ex.zeroOf(c)))
			ex.noteWrite(st, n, p.base)
		}
		return
	}
	ex.zeroing = true
	ex.store(st, p, ex.zeroVal(p.typ))
	ex.zeroing = false
	ex.birth(st, p)
}

// refOf gives the Val for a pointer to a whole object.
func (ex *Exec) refOf(p *PtrV) Val {
	if p.idx == nil && (p.heap == "arr" || strings.HasPrefix(p.heap, "cell:") || p.heap == ex.v.tname(p.typ)) {
		return p.base
	}
	return p
}

func (ex *Exec) retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *SliceV:
		n := *x
		if s, ok := under(t).(*types.Slice); ok {
			n.elem = s.Elem()
		}
		return &n
	case *StructV:
		n := *x
		n.named = t
		return &n
	}
	return v
}

// addr interprets v as an address and checks that it is not nil.
func (ex *Exec) addr(st *State, v Val, pt types.Type, pos token.Pos) *PtrV {
	if p, ok := v.(*PtrV); ok {
		return p
	}
	b := ex.term(v)
	if !(b.isConst() && b.val.Sign() != 0) {
		ex.safe(st, ex.tt.Ne(b, ex.tt.Int(0)), "nil pointer dereference", pos)
	}
	return ex.ptrTo(b, under(pt).(*types.Pointer).Elem())
}

func (ex *Exec) fieldAddr(st *State, v Val, t types.Type, field int, pos token.Pos) Val {
	p, ok := v.(*PtrV)
	if !ok {
		b := ex.term(v)
		if !(b.isConst() && b.val.Sign() != 0) {
			ex.safe(st, ex.tt.Ne(b, ex.tt.Int(0)), "nil pointer dereference", pos)
		}
		p = ex.ptrTo(b, t)
	}
	f := under(t).(*types.Struct).Field(field)
	return &PtrV{heap: p.heap + "." + f.Name(), base: p.base, idx: p.idx, typ: f.Type()}
}

func (ex *Exec) indexAddr(st *State, x *ssa.IndexAddr) Val {
	tt := ex.tt
	i := ex.term(ex.val(st, x.Index))
	switch u := under(x.X.Type()).(type) {
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		p := ex.addr(st, ex.val(st, x.X), x.X.Type(), x.Pos())
		ex.safe(st, tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, tt.Int(a.Len()))), "array index in range", x.Pos())
		if p.heap != "arr" {
			panic(unsupported("array inside a struct"))
		}
		return &PtrV{heap: "E:" + ex.v.tname(a.Elem()), base: p.base, idx: i, typ: a.Elem()}
	case *types.Slice:
		s, ok := ex.val(st, x.X).(*SliceV)
		if !ok {
			panic(unsupported("element address of an abstract byte slice"))
		}
		ex.safe(st, tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, s.len)), "slice index in range", x.Pos())
		return &PtrV{heap: ex.sliceHeap(s), base: s.base, idx: tt.Add(s.off, i), typ: u.Elem()}
	}
	panic(unsupported("IndexAddr on " + x.X.Type().String()))
}

func (ex *Exec) slice(st *State, x *ssa.Slice) Val {
	tt := ex.tt
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.term(ex.val(st, v))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = tt.Int(0)
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Pointer: // array pointer
		a := under(u.Elem()).(*types.Array)
		p := ex.addr(st, ex.val(st, x.X), x.X.Type(), x.Pos())
		n := tt.Int(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		ex.safe(st, tt.And(tt.Le(tt.Int(0), lo), tt.Le(lo, hi), tt.Le(hi, mx), tt.Le(mx, n)), "slice bounds in range", x.Pos())
		if ex.absBytes && isByteSlice(x.Type()) {
			return ex.bytesFromArray(st, p, lo, hi)
		}
		return &SliceV{base: p.base, off: lo, len: tt.Sub(hi, lo), cap: tt.Sub(mx, lo), elem: a.Elem()}
	case *types.Slice:
		v := ex.val(st, x.X)
		if b, ok := v.(*BytesV); ok {
			return ex.sliceBytes(st, b, lo, hi, mx, x.Pos())
		}
		s := v.(*SliceV)
		if hi == nil {
			hi = s.len
		}
		if mx == nil {
			mx = s.cap
		}
		ex.safe(st, tt.And(tt.Le(tt.Int(0), lo), tt.Le(lo, hi), tt.Le(hi, mx), tt.Le(mx, s.cap)), "slice bounds in range", x.Pos())
		return &SliceV{base: s.base, off: tt.Add(s.off, lo), len: tt.Sub(hi, lo), cap: tt.Sub(mx, lo), elem: s.elem, arr: s.arr, heap: s.heap}
	case *types.Basic: // string
		s := ex.term(ex.val(st, x.X))
		if hi == nil {
			hi = ex.slen(s)
		}
		ex.safe(st, tt.And(tt.Le(tt.Int(0), lo), tt.Le(lo, hi), tt.Le(hi, ex.slen(s))), "string slice bounds in range", x.Pos())
		if s.op == "app" && (s.name == "strof" || s.name == "ustrof") {
			as := append([]*Term{s.args[0], tt.Add(s.args[1], lo), tt.Sub(hi, lo)}, s.args[3:]...)
			return tt.App(s.name, SInt, as...)
		}
		r := tt.App("substr", SInt, s, lo, hi)
		ex.assume(tt.Eq(ex.slen(r), tt.Sub(hi, lo)))
		return r
	}
	panic(unsupported("slice of " + x.X.Type().String()))
}

func (ex *Exec) unop(st *State, x *ssa.UnOp) (Val, bool) {
	tt := ex.tt
	v := ex.val(st, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			return ex.loadGlobal(st, g), true
		}
		if a, ok := x.X.(*ssa.Alloc); ok && ex.resultSlot(a) {
			return ex.val(st, slotStore(x, a).Val), true
		}
		p := ex.addr(st, v, x.X.Type(), x.Pos())
		ex.checkFreed(st, p.base, x.Pos())
		v := ex.load(st, p)
		ex.loadHook(st, p, v)
		return v, true
	case token.NOT:
		return tt.Not(ex.term(v)), true
	case token.SUB:
		t := ex.term(v)
		if t.sort == SFlt {
			return tt.App("fneg", SFlt, t), true
		}
		return ex.wrap(tt.Neg(t), x.Type()), true
	case token.XOR:
		ii, ok := intOf(x.Type())
		t := ex.term(v)
		if ok {
			if ii.signed {
				return tt.Sub(tt.Int(-1), t), true
			}
			return tt.Sub(tt.Big(ii.max()), t), true
		}
	}
	panic(unsupported("unary " + x.Op.String()))
}

func (ex *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	p := ex.globalRef(g)
	t := g.Type().(*types.Pointer).Elem()
	pv := ex.ptrTo(p, t)
	v := ex.load(st, pv)
	ex.loadHook(st, pv, v)
	if m, ok := v.(*Term); ok && !ex.initing {
		if t, ok := ex.rtypes[m]; ok {
			ex.rtypeOf(t)
		}
	}
	return v
}

func (ex *Exec) isStr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) binop(st *State, x *ssa.BinOp) Val {
	tt := ex.tt
	a, b := ex.val(st, x.X), ex.val(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case ex.isStr(x.X.Type()):
			r = ex.strEq(ex.term(a), ex.term(b))
		default:
			r = ex.valEq(a, b, x.X.Type())
		}
		if x.Op == token.NEQ {
			r = tt.Not(r)
		}
		return r
	}
	s, t := ex.term(a), ex.term(b)
	if ex.isStr(x.X.Type()) {
		switch x.Op {
		case token.ADD:
			la, ok1 := litOf(s)
			lb, ok2 := litOf(t)
			if ok1 && ok2 {
				return ex.strLit(la + lb)
			}
			r := tt.App("strcat", SInt, s, t)
			ex.assume(tt.Eq(ex.slen(r), tt.Add(ex.slen(s), ex.slen(t))))
			return r
		}
		return tt.App("strcmp"+x.Op.String(), SBool, s, t)
	}
	if s.sort == SFlt {
		return ex.fltOp(x.Op, s, t)
	}
	switch x.Op {
	case token.LSS:
		return tt.Lt(s, t)
	case token.LEQ:
		return tt.Le(s, t)
	case token.GTR:
		return tt.Gt(s, t)
	case token.GEQ:
		return tt.Ge(s, t)
	case token.ADD:
		if ex.c != nil && ex.c.Opts["mathadd"] != "" {
			ex.trusted["additions in "+ex.c.Name+" do not overflow"] = true
			return tt.Add(s, t)
		}
		return ex.wrap(tt.Add(s, t), x.Type())
	case token.SUB:
		return ex.wrap(tt.Sub(s, t), x.Type())
	case token.MUL:
		return ex.wrap(tt.Mul(s, t), x.Type())
	case token.QUO:
		ex.safe(st, tt.Ne(t, tt.Int(0)), "division by zero", x.Pos())
		return ex.wrap(tt.Quo(s, t), x.Type())
	case token.REM:
		ex.safe(st, tt.Ne(t, tt.Int(0)), "division by zero", x.Pos())
		return ex.wrap(tt.Rem(s, t), x.Type())
	case token.SHL, token.SHR:
		if t.isConst() && t.val.IsInt64() && t.val.Int64() >= 0 && t.val.Int64() < 256 {
			p := new(big.Int).Lsh(big.NewInt(1), uint(t.val.Int64()))
			if x.Op == token.SHL {
				return ex.wrap(tt.Mul(tt.Big(p), s), x.Type())
			}
			if s.isConst() {
				return tt.Big(new(big.Int).Rsh(s.val, uint(t.val.Int64())))
			}
			return tt.mk("div", "", SInt, s, tt.Big(p))
		}
	case token.AND:
		for i := 0; i < 2; i++ {
			if t.isConst() {
				m := new(big.Int).Add(t.val, big.NewInt(1))
				if t.val.Sign() >= 0 && new(big.Int).And(m, t.val).Sign() == 0 { // 2^k-1
					return tt.Mod(s, m)
				}
			}
			s, t = t, s
		}
	}
	ii, ok := intOf(x.Type())
	if ok {
		r := tt.App("bitop"+x.Op.String()+strconv.Itoa(int(ii.bits)), SInt, s, t)
		ex.assumeType(r, x.Type())
		return r
	}
	panic(unsupported("binary " + x.Op.String() + " on " + x.X.Type().String()))
}

func (ex *Exec) fltOp(op token.Token, a, b *Term) Val {
	switch op {
	case token.LSS:
		return ex.tt.App("flt.lt", SBool, a, b)
	case token.GTR:
		return ex.tt.App("flt.lt", SBool, b, a)
	case token.LEQ:
		return ex.tt.App("flt.le", SBool, a, b)
	case token.GEQ:
		return ex.tt.App("flt.le", SBool, b, a)
	}
	return ex.tt.App("flt"+op.String(), SFlt, a, b)
}

func (ex *Exec) valEq(a, b Val, t types.Type) *Term {
	tt := ex.tt
	if sa, ok := a.(*SliceV); ok { // comparison with nil
		sb := b.(*SliceV)
		if sb.base.isConst() && sb.base.val.Sign() == 0 {
			return tt.Eq(sa.base, tt.Int(0))
		}
		return tt.Eq(sb.base, tt.Int(0))
	}
	if ba, ok := a.(*BytesV); ok {
		bb := b.(*BytesV)
		if bb.nilv {
			return tt.App("bsnil", SBool, ba.t)
		}
		return tt.App("bsnil", SBool, bb.t)
	}
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		var cj []*Term
		for i := range sa.fields {
			cj = append(cj, ex.valEq(sa.fields[i], sb.fields[i], sa.typ.Field(i).Type()))
		}
		return tt.And(cj...)
	}
	x, y := ex.term(a), ex.term(b)
	if x.sort == SFlt {
		return tt.App("flt.eq", SBool, x, y)
	}
	if ex.isStr(t) {
		return ex.strEq(x, y)
	}
	return tt.Eq(x, y)
}

func (ex *Exec) convert(st *State, x *ssa.Convert) Val {
	tt := ex.tt
	v := ex.val(st, x.X)
	from, to := x.X.Type(), x.Type()
	_, fi := intOf(from)
	_, ti := intOf(to)
	switch {
	case fi && ti:
		return ex.wrap(ex.term(v), to)
	case ex.isStr(to) && isByteSlice(from):
		if b, ok := v.(*BytesV); ok {
			r := tt.App("bs2str", SInt, b.t)
			return r
		}
		s := v.(*SliceV)
		r := tt.App("strof", SInt, ex.sliceArr(st, s), s.off, s.len)
		ex.assume(tt.Eq(tt.App("slen", SInt, r), s.len))
		return r
	case isByteSlice(to) && ex.isStr(from):
		s := ex.term(v)
		if ex.absBytes {
			return &BytesV{t: ex.bsOfStr(s), region: ex.newRegion("bytes(str)", true)}
		}
		r := ex.alloc(types.NewArray(types.Typ[types.Uint8], 0))
		var arr *Term
		if l, ok := litOf(s); ok {
			arr = tt.ConstArr(tt.Int(0))
			for i := 0; i < len(l); i++ {
				arr = tt.Store(arr, tt.Int(int64(i)), tt.Int(int64(l[i])))
			}
		} else {
			arr = tt.App("bytesof", SArr(SInt), s)
		}
		n := "E:" + ex.v.tname(to.Underlying().(*types.Slice).Elem())
		st.heap[n] = tt.Store(ex.heapGet(st, n, SArr(SArr(SInt))), r, arr)
		ex.noteWrite(st, n, r)
		return &SliceV{base: r, off: tt.Int(0), len: ex.slen(s), cap: ex.slen(s), elem: to.Underlying().(*types.Slice).Elem()}
	case ex.isStr(to) && fi:
		r := tt.App("str.ofrune", SInt, ex.term(v))
		return r
	}
	fb, okf := under(from).(*types.Basic)
	tb, okt := under(to).(*types.Basic)
	if okf && okt {
		switch {
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			t := ex.term(v)
			if tb.Kind() == types.Float32 && fb.Kind() == types.Float64 {
				// rounding to float32 is idempotent, widening is the identity on terms
				return ex.f32(t)
			}
			return t
		case fi && tb.Info()&types.IsFloat != 0:
			return tt.App("flt.ofint", SFlt, ex.term(v))
		case fb.Info()&types.IsFloat != 0 && ti:
			r := tt.App("flt.toint", SInt, ex.term(v))
			r2 := tt.Fresh("f2i", SInt)
			ex.assumeType(r2, to)
			_ = r
			return r2
		}
	}
	if okt && tb.Kind() == types.UnsafePointer || okf && fb.Kind() == types.UnsafePointer {
		return v
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String()))
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert) bool {
	tt := ex.tt
	m := ex.term(ex.val(st, x.X))
	fr := st.top()
	var ok *Term
	var v Val
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		if mt, known := ex.ifaceMk[m]; known {
			ok = tt.Bool(types.Implements(mt, it))
		} else if it.NumMethods() == 0 {
			ok = tt.Ne(m, tt.Int(0))
		} else {
			ok = tt.And(tt.Ne(m, tt.Int(0)), tt.App("impl:"+ex.v.tname(x.AssertedType), SBool, ex.dyn(m)))
		}
		v = m
	} else {
		if mt, known := ex.ifaceMk[m]; known {
			ok = tt.Bool(types.Identical(mt, x.AssertedType))
		} else {
			ok = tt.And(tt.Ne(m, tt.Int(0)), tt.Eq(ex.dyn(m), ex.tid(ex.v.tname(x.AssertedType))))
		}
		v = nil
	}
	data := func() Val {
		if v != nil {
			return v
		}
		d := ex.dataOf(m, x.AssertedType)
		// an interface value holding a known dynamic type is mk_T(data)
		if _, known := ex.ifaceMk[m]; !known {
			cs := ex.comps(x.AssertedType)
			var as []*Term
			for _, c := range cs {
				as = append(as, tt.App("data:"+ex.v.tname(x.AssertedType)+c.suffix, c.sort, m))
			}
			if len(as) > 0 {
				mm := tt.App("mk:"+ex.v.tname(x.AssertedType), SInt, as...)
				ex.assume(tt.Eq(m, mm))
				ex.ifaceMk[mm] = x.AssertedType
				ex.mkVal[mm] = d
				ex.alias(m, mm, x.AssertedType)
			}
		}
		return d
	}
	if !x.CommaOk {
		ex.safe(st, ok, "type assertion to "+ex.v.tname(x.AssertedType), x.Pos())
		fr.env[x] = data()
		return true
	}
	ex.branch(st, ok, func(s *State) bool {
		s.top().env[x] = TupleV{data(), tt.Bool(true)}
		return true
	}, func(s *State) bool {
		z := ex.zeroVal(x.AssertedType)
		s.top().env[x] = TupleV{z, tt.Bool(false)}
		return true
	})
	return false
}

// alias is a hook for predicates over interface values whose dynamic type became known.
func (ex *Exec) alias(m, mm *Term, t types.Type) {
	ex.dynUnfold(m, mm, t)
}

// resultSlot reports whether an allocation is a result variable the compiler introduced for a function with deferred
// calls: only loads and stores use it, and each load follows a store to it in the same block.
func (ex *Exec) resultSlot(a *ssa.Alloc) bool {
	refs := a.Referrers()
	if refs == nil || a.Parent().Recover == nil && !hasDefer(a.Parent()) {
		return false
	}
	loads := 0
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(a) || x.Val == ssa.Value(a) {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			if x.Block() == a.Parent().Recover {
				continue
			}
			if slotStore(x, a) == nil {
				return false
			}
			loads++
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return loads > 0
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// slotStore is the last store to a slot before a load in the load's block.
func slotStore(l *ssa.UnOp, a *ssa.Alloc) *ssa.Store {
	var last *ssa.Store
	for _, in := range l.Block().Instrs {
		if in == ssa.Instruction(l) {
			return last
		}
		if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			last = s
		}
	}
	return nil
}

// distinctLits records a literal something is compared with: different literals are different strings.
func (ex *Exec) distinctLits(b *Term, lb string) {
	if ex.initing {
		return
	}
	if ex.cmpLits == nil {
		ex.cmpLits = map[*Term]string{}
	}
	ex.cmpLits[b] = lb
	var ls []*Term
	for c, l := range ex.cmpLits {
		if l != lb {
			ls = append(ls, c)
		}
	}
	sortTerms(ls)
	for _, c := range ls {
		k := ex.tt.App("distinctlit", SBool, c, b)
		if !ex.isUnfolded(k) {
			ex.s.frames[len(ex.s.frames)-1].unfolded[k] = 1
			ex.assume(ex.tt.Ne(c, b))
		}
	}
}
