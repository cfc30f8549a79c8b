package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- declarations used by the encoder contracts ----

// Rule rewrites a specification term at the head of a byte string.
type Rule struct {
	Fun    string
	Params []string
	Rhs    *Expr
	Cond   *Expr
	Pos    string
}

// Pred is a universally quantified predicate: proved with a fresh constant, used through rules.
type Pred struct {
	Name   string
	Params []string
	Types  []string
	Var    string
	VSort  string
	Body   *Expr
	Pos    string
}

// HeapInv is an invariant over everything stored in one kind of heap location.
type HeapInv struct {
	MOwner     string // ghost owner of the map itself
	Set, Later bool
	Params     []string
	Owner      string
	E          *Expr
	Tags       []string
	Filled     bool
	Pos        string
}

// Axiom is a fact about an uninterpreted specification function, instantiated for every application.
type Axiom struct {
	Params []string
	E      *Expr
	Pos    string
}

var axiomRe = regexp.MustCompile(`^axiom\s+(\w+)\(([^)]*)\)\s*::\s*(.*)$`)
var ruleRe = regexp.MustCompile(`^rule\s+(\w+)\(([^)]*)\)\s*=>\s*(.*?)\s+when\s+(.*)$`)
var predRe = regexp.MustCompile(`^pred\s+(\w+)\(([^)]*)\)\s+forall\s+(\w+)\s+(\w+)\s*::\s*(.*)$`)
var hinvRe = regexp.MustCompile(`^(mapinv|fieldinv|eleminv)(\[[^\]]*\])?\s+(\S+)\s*\(([^)]*)\)\s*(?:(owner|mowner)\s+(\w+))?\s*(filled|set|later)?\s*::\s*(.*)$`)

func (sp *Specs) parseDecl(t, pos string) {
	switch {
	case strings.HasPrefix(t, "immutable "):
		sp.Immutable = append(sp.Immutable, splitComma(t[10:])...)
	case strings.HasPrefix(t, "axiom "):
		m := axiomRe.FindStringSubmatch(t)
		if m == nil {
			panic("bad axiom")
		}
		sp.Axioms[m[1]] = append(sp.Axioms[m[1]], &Axiom{Params: splitComma(m[2]), E: parseExpr(m[3]), Pos: pos})
	case strings.HasPrefix(t, "rule "):
		m := ruleRe.FindStringSubmatch(t)
		if m == nil {
			panic("bad rule")
		}
		r := &Rule{Fun: m[1], Params: splitComma(m[2]), Rhs: parseExpr(m[3]), Cond: parseExpr(m[4]), Pos: pos}
		sp.Rules[m[1]] = append(sp.Rules[m[1]], r)
	case strings.HasPrefix(t, "pred "):
		m := predRe.FindStringSubmatch(t)
		if m == nil {
			panic("bad pred")
		}
		p := &Pred{Name: m[1], Var: m[3], VSort: m[4], Body: parseExpr(m[5]), Pos: pos}
		for _, q := range splitComma(m[2]) {
			x := strings.Fields(q)
			p.Params = append(p.Params, x[0])
			p.Types = append(p.Types, x[1])
		}
		sp.Preds[p.Name] = p
	default:
		m := hinvRe.FindStringSubmatch(t)
		if m == nil {
			panic("bad heap invariant: " + t)
		}
		h := &HeapInv{Params: splitComma(m[4]), E: parseExpr(m[8]), Filled: m[7] != "", Set: m[7] == "set", Later: m[7] == "later", Pos: pos}
		if m[5] == "mowner" {
			h.MOwner = m[6]
		} else {
			h.Owner = m[6]
		}
		if m[2] != "" {
			h.Tags = splitComma(strings.Trim(m[2], "[]"))
		}
		switch m[1] {
		case "mapinv":
			sp.MapInvs["map:"+m[3]] = h
		case "fieldinv":
			sp.FieldInvs[m[3]] = h
		case "eleminv":
			sp.ElemInvs["E:"+m[3]] = h
		}
	}
}

// checkLocal finds out whether a recursive function over arrays reads them only at k-1 and recurses
// with the same arrays at k-1; then entries at k and above do not matter.
func (f *SpecFun) checkLocal() {
	if !f.Rec || f.Body == nil {
		return
	}
	arrs := map[string]bool{}
	k := ""
	for i, t := range f.Types {
		if t == "arr" || t == "barr" {
			arrs[f.Params[i]] = true
		}
		if t == "int" && f.Params[i] == "k" {
			k = "k"
			f.LocalK = i
		}
	}
	if len(arrs) == 0 || k == "" {
		return
	}
	isKm1 := func(e *Expr) bool {
		return e.K == "bin" && e.S == "-" && e.A[0].K == "ident" && e.A[0].S == k && e.A[1].K == "num" && e.A[1].S == "1"
	}
	ok := true
	var chk func(e *Expr)
	chk = func(e *Expr) {
		if e.K == "ident" && arrs[e.S] {
			ok = false
			return
		}
		if e.K == "call" && e.S == "select" && len(e.A) == 2 && e.A[0].K == "ident" && arrs[e.A[0].S] {
			if !isKm1(e.A[1]) {
				ok = false
			}
			return
		}
		if e.K == "call" && e.S == f.Name {
			for i, a := range e.A {
				switch {
				case arrs[f.Params[i]]:
					if a.K != "ident" || a.S != f.Params[i] {
						ok = false
					}
				case i == f.LocalK:
					if !isKm1(a) {
						ok = false
					}
				default:
					chk(a)
				}
			}
			return
		}
		for _, a := range e.A {
			chk(a)
		}
	}
	chk(f.Body)
	f.Local = ok
}

func (ex *Exec) stripStores(f *SpecFun, as []*Term) []*Term {
	out := append([]*Term(nil), as...)
	k := as[f.LocalK]
	for i, t := range f.Types {
		if t != "arr" && t != "barr" {
			continue
		}
		for out[i].op == "store" {
			d := ex.tt.Sub(out[i].args[1], k)
			if d.isConst() && d.val.Sign() >= 0 {
				out[i] = out[i].args[0]
				continue
			}
			break
		}
	}
	return out
}

func (v *Verifier) globalByName(n string) *ssa.Global {
	for _, p := range v.pkgs {
		if strings.HasPrefix(n, p.Pkg.Name()+".") {
			if g, ok := p.Members[n[len(p.Pkg.Name())+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	panic(specErr{"unknown global " + n})
}

// ---- byte buffers: who owns the memory, and which versions are still intact ----

type iv struct{ lo, hi int }

func (ex *Exec) newSeq(st *State, r *Region) int {
	st.regver[r]++
	return st.regver[r]
}

// useBytes checks that the content of b was not overwritten or handed back to a pool.
func (ex *Exec) useBytes(st *State, b *BytesV, pos token.Pos) {
	if b == nil || b.region == nil {
		return
	}
	if o := b.region.owner; o != nil && st.freed[o] || st.freedReg[b.region] {
		ex.prove(st, ex.tt.Bool(false), "ownership", "buffer used after its owner went back to the pool", ex.ownTags(), ex.poss(pos))
	}
	for _, i := range st.stale[b.region] {
		if i.lo < b.seq && b.seq <= i.hi {
			ex.prove(st, ex.tt.Bool(false), "ownership", "buffer content used after being overwritten", ex.ownTags(), ex.poss(pos))
		}
	}
}

func (ex *Exec) ownTags() []string {
	if ex.c != nil {
		if s := ex.c.Opts["owntags"]; s != "" {
			return splitComma(s)
		}
	}
	return []string{"C09", "C10"}
}

// bump makes n a new version of its region derived from b by writing behind b's end.
func (ex *Exec) bump(st *State, b, n *BytesV) {
	cur := st.regver[b.region]
	lo := b.seq
	if b.cut {
		lo = -1
	}
	if lo < cur {
		if st.stale == nil {
			st.stale = map[*Region][]iv{}
		}
		st.stale[b.region] = append(append([]iv(nil), st.stale[b.region]...), iv{lo, cur})
	}
	n.cut = false
	n.seq = ex.newSeq(st, b.region)
}

// clobber: the callee may use the scratch buffers of this object.
func (ex *Exec) clobber(st *State, owner *Term, except *Region) {
	for r, cur := range st.regver {
		if r != except && r.owner == owner && r.owner != nil {
			if st.stale == nil {
				st.stale = map[*Region][]iv{}
			}
			st.stale[r] = append(append([]iv(nil), st.stale[r]...), iv{-1, cur})
		}
	}
}

func (ex *Exec) copyBytes(st *State, d *BytesV, src Val, pos token.Pos) Val {
	tt := ex.tt
	var t *Term
	switch s := src.(type) {
	case *BytesV:
		ex.useBytes(st, s, pos)
		t = s.t
	case *Term:
		t = ex.bsOfStr(s)
	default:
		panic(unsupported("copy source"))
	}
	n := ex.bslen(d.t)
	sl := ex.bslen(t)
	if !ex.valid(tt.Eq(n, sl)) {
		t = tt.Fresh("bs.copied", SBs)
		ex.assume(tt.Eq(ex.bslen(t), n))
	}
	nb := *d
	nb.t = t
	nb.zero = false
	nb.seq = ex.newSeq(st, d.region)
	for _, f := range st.frames {
		for k, v := range f.env {
			if o, ok := v.(*BytesV); ok && o.region == d.region {
				if o.t == d.t {
					f.env[k] = &nb
				} else {
					panic(unsupported("copy into a shared byte slice"))
				}
			}
		}
	}
	return tt.Ite(tt.Le(n, sl), n, sl)
}

// ---- pools ----

func (ex *Exec) poolPut(st *State, x *Term, pos token.Pos) {
	if t, ok := ex.ifaceMk[x]; ok {
		_ = t
		if d, ok := ex.mkVal[x].(*Term); ok {
			x = d
		}
	}
	if st.freed[x] {
		ex.prove(st, ex.tt.Bool(false), "ownership", "object put into the pool twice", ex.ownTags(), ex.poss(pos))
	}
	n := map[*Term]bool{x: true}
	for k := range st.freed {
		n[k] = true
	}
	st.freed = n
	// the buffers it holds go with it
	for k, b := range st.bytesV {
		if b.region != nil && strings.HasSuffix(k, "@"+x.String()) {
			m := map[*Region]bool{b.region: true}
			for r := range st.freedReg {
				m[r] = true
			}
			st.freedReg = m
		}
	}
}

func (ex *Exec) checkFreed(st *State, base *Term, pos token.Pos) {
	if base != nil && st.freed[base] {
		ex.prove(st, ex.tt.Bool(false), "ownership", "object used after it went back to the pool", ex.ownTags(), ex.poss(pos))
	}
}

// ---- sealed objects: captured variables of finished encoders, published caches ----

func (ex *Exec) seal(st *State, r *Term, why string) {
	n := map[*Term]string{r: why}
	for k, v := range st.sealed {
		n[k] = v
	}
	st.sealed = n
}

func (ex *Exec) checkSealed(st *State, base *Term, pos token.Pos) {
	if w := st.sealed[base]; w != "" && ex.mute == 0 {
		ex.prove(st, ex.tt.Bool(false), "immutability", "write to "+w, []string{"C10", "C09"}, ex.poss(pos))
	}
}

func (ex *Exec) sealClosure(st *State, f *FuncV, depth int) {
	if depth > 6 {
		return
	}
	for i, b := range f.binds {
		t, ok := b.(*Term)
		if !ok || !ex.isFreshRef(t) {
			continue
		}
		if _, done := st.sealed[t]; done {
			continue
		}
		if f.fn.Synthetic != "" {
			continue // bound method: the receiver is not a captured variable
		}
		ex.seal(st, t, "variable "+f.fn.FreeVars[i].Name()+" captured by a finished encoder")
		pt, ok := f.fn.FreeVars[i].Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if _, ok := pt.Elem().Underlying().(*types.Signature); ok {
			v := ex.load(st, ex.ptrTo(t, pt.Elem()))
			if g, ok := v.(*FuncV); ok {
				ex.sealClosure(st, g, depth+1)
			}
		}
	}
}

// ---- heap invariants ----

func (ex *Exec) invTerm(st *State, h *HeapInv, vals ...tval) *Term {
	env := &senv{vars: map[string]tval{}, st: st, old: ex.entry}
	for i, p := range h.Params {
		env.vars[p] = vals[i]
	}
	env.ovar = env.vars
	return ex.asTerm(ex.evalClause(env, &Clause{Pos: h.Pos}, h.E))
}

func (h *HeapInv) tags(ex *Exec) []string {
	if h.Tags != nil {
		return h.Tags
	}
	return ex.safetyTags()
}

func (ex *Exec) mapReadInv(st *State, m, k, in *Term, v Val, t types.Type) {
	n, mt := ex.mapHeap(t)
	h := ex.v.specs.MapInvs[strings.TrimSuffix(n, "")]
	if h == nil {
		return
	}
	g := ex.invTerm(st, h, tval{m, t}, tval{k, mt.Key()}, tval{v, mt.Elem()})
	if h.Owner != "" {
		g = ex.tt.And(g, ex.tt.Eq(ex.tt.App("u:"+h.Owner, SInt, ex.term(v)), k))
	}
	ex.assume(ex.tt.Imp(in, g))
}

func (ex *Exec) mapWriteInv(st *State, m, k *Term, v Val, t types.Type, pos token.Pos) {
	ex.checkSealed(st, m, pos)
	n, mt := ex.mapHeap(t)
	h := ex.v.specs.MapInvs[n]
	if h == nil || ex.initing {
		return
	}
	if h.Owner != "" {
		o := ex.term(v)
		own := ex.tt.Eq(ex.tt.App("u:"+h.Owner, SInt, o), k)
		key := "$own:" + h.Owner + ":" + o.String()
		if ex.isFreshRef(o) && st.heap[key] == nil {
			// first use of a new object: its ghost owner is defined here
			st.heap[key] = k
			ex.assume(own)
		} else {
			ex.prove(st, own, "invariant", "object stored in a map under one key only", h.tags(ex), ex.poss(pos))
		}
	}
	ex.prove(st, ex.invTerm(st, h, tval{m, t}, tval{k, mt.Key()}, tval{v, mt.Elem()}), "invariant", "map entry: "+h.E.String(), h.tags(ex), ex.poss(pos))
}

// storeHook checks field invariants before a store.
func (ex *Exec) storeHook(st *State, p *PtrV, v Val, pos token.Pos) bool {
	if ex.initing {
		return true
	}
	for _, q := range ex.invFields(p, v) {
		if !ex.storeHook(st, q.p, q.v, pos) {
			return false
		}
	}
	ex.checkFreed(st, p.base, pos)
	ex.checkSealed(st, p.base, pos)
	if b, ok := v.(*BytesV); ok {
		if b.region != nil {
			n := map[*Region]bool{b.region: true}
			for k := range st.stored {
				n[k] = true
			}
			st.stored = n
		}
		_ = b
	}
	if h := ex.v.specs.FieldInvs[p.heap]; h != nil && p.idx == nil && st.alive[p.base] != nil {
		st.pend = append(append([]pendInv(nil), st.pend...), pendInv{h, p, v, pos})
	} else if h != nil && p.idx == nil {
		g := ex.fieldGoal(st, h, p, v)
		ex.prove(st, g, "invariant", "field "+p.heap+": "+h.E.String(), h.tags(ex), ex.poss(pos))
		if f, ok := v.(*FuncV); ok {
			ex.sealClosure(st, f, 0)
		}
	}
	for n, h := range ex.v.specs.ElemInvs {
		if (p.heap == n || strings.HasPrefix(p.heap, n+".")) && p.idx != nil {
			ex.prove(st, ex.tt.Eq(ex.tt.App("u:"+h.Owner, SInt, p.base), ex.tt.Int(0)), "immutability", "write to an element of a finished "+n[2:]+" list", h.tags(ex), ex.poss(pos))
		}
	}
	return true
}

func (ex *Exec) elemInv(name string) (string, *HeapInv) {
	for n, h := range ex.v.specs.ElemInvs {
		if name == n || strings.HasPrefix(name, n+".") {
			return n, h
		}
	}
	return "", nil
}

func (ex *Exec) loadHook(st *State, p *PtrV, v Val) {
	if ex.initing {
		return
	}
	for _, q := range ex.invFields(p, v) {
		ex.loadHook(st, q.p, q.v)
	}
	if h := ex.v.specs.FieldInvs[p.heap]; h != nil && p.idx == nil {
		if t, ok := v.(*Term); ok {
			ex.assume(ex.tt.Or(ex.tt.Eq(t, ex.tt.Int(0)), ex.invTerm(st, h, tval{p.base, nil}, tval{v, p.typ})))
			if h.Set {
				if st.alive[p.base] == nil {
					ex.assume(ex.tt.Ne(t, ex.tt.Int(0)))
				}
			} else if h.Filled {
				ex.filled[t] = p.heap
			}
		}
	}
	if p.idx != nil {
		if n, h := ex.elemInv(p.heap); h != nil {
			et := ex.v.typeByName(n[2:])
			cs := ex.comps(et)
			var ts []*Term
			for _, c := range cs {
				ts = append(ts, ex.tt.Select(ex.tt.Select(ex.heapGet(st, n+c.suffix, SArr(SArr(c.sort))), p.base), p.idx))
			}
			e, _ := ex.unflatten(ts, et)
			ex.assume(ex.tt.Or(ex.tt.Eq(ex.tt.App("u:"+h.Owner, SInt, p.base), ex.tt.Int(0)), ex.invTerm(st, h, tval{p.base, nil}, tval{e, et})))
		}
	}
}

// appendElems proves the element invariant for appended elements and defines the owner of the result.
func (ex *Exec) appendElems(st *State, s, t *SliceV, r *Term, pos token.Pos) {
	n := ex.sliceHeap(s)
	h := ex.v.specs.ElemInvs[n]
	if h == nil || ex.initing {
		return
	}
	tt := ex.tt
	own := func(b *Term) *Term { return tt.App("u:"+h.Owner, SInt, b) }
	o := ""
	if ex.c != nil {
		o = ex.c.Opts["owner"]
	}
	if o == "" {
		return
	}
	R := ex.asTerm(ex.eval(ex.specEnv(st), parseExpr(o)))
	ex.prove(st, tt.Or(tt.Eq(s.len, tt.Int(0)), tt.Eq(own(s.base), R)), "invariant", "list extended for the same owner", h.tags(ex), ex.poss(pos))
	if !t.len.isConst() || !t.len.val.IsInt64() || t.len.val.Int64() > 8 {
		return
	}
	ex.bumpEpoch(st) // the list makes the appended objects visible
	cs := ex.comps(s.elem)
	for i := int64(0); i < t.len.val.Int64(); i++ {
		var ts []*Term
		for _, c := range cs {
			ts = append(ts, tt.Select(tt.Select(ex.heapGet(st, n+c.suffix, SArr(SArr(c.sort))), t.base), tt.Add(t.off, tt.Int(i))))
		}
		e, _ := ex.unflatten(ts, s.elem)
		ex.assume(tt.Eq(own(r), R))
		ex.prove(st, ex.invTerm(st, h, tval{r, nil}, tval{e, s.elem}), "invariant", "list element: "+h.E.String(), h.tags(ex), ex.poss(pos))
	}
}

// ---- predicates over function values, proved by executing the function ----

func (ex *Exec) dynApp(st *State, name string, args []*Term) *Term {
	return ex.tt.App("dynp:"+name, SBool, args...)
}

func (ex *Exec) dynUnfold(m, mm *Term, t types.Type) {}

func (ex *Exec) closureMade(st *State, f *FuncV, x *ssa.MakeClosure) {}

// dynAtom finds a predicate over a known function value among the disjuncts of a goal.
func (ex *Exec) dynAtom(goal *Term) (*Term, []*Term) {
	ds := []*Term{goal}
	if goal.op == "or" {
		ds = goal.args
	}
	for i, d := range ds {
		if d.op == "app" && strings.HasPrefix(d.name, "dynp:") && ex.funcs[d.args[0]] != nil {
			rest := append(append([]*Term(nil), ds[:i]...), ds[i+1:]...)
			return d, rest
		}
		if d.op == "app" && strings.HasPrefix(d.name, "pred:") {
			rest := append(append([]*Term(nil), ds[:i]...), ds[i+1:]...)
			return d, rest
		}
	}
	return nil, nil
}

// proveDyn proves a goal with such an atom; handled is false if the goal has another shape.
func (ex *Exec) proveDyn(st *State, goal *Term, kind, desc string, tags []string, pos string) (ok, handled bool) {
	a, rest := ex.dynAtom(goal)
	if a == nil || st == nil {
		return false, false
	}
	if ex.known(a) {
		return true, true
	}
	ex.s.Push()
	for _, r := range rest {
		ex.assume(ex.tt.Not(r))
	}
	if !ex.feasible() {
		ex.s.Pop()
		return true, true
	}
	failed := ex.failed
	ex.failed = false
	if strings.HasPrefix(a.name, "pred:") {
		p := ex.v.specs.Preds[a.name[5:]]
		env := &senv{vars: map[string]tval{}, st: st, old: ex.entry}
		for i, n := range p.Params {
			env.vars[n] = tval{a.args[i], nil}
		}
		sk := ex.tt.Fresh(p.Var, sortOfName(p.VSort))
		if v, ok := ex.params[p.Var]; ok {
			sk = ex.term(v)
		}
		env.vars[p.Var] = tval{sk, nil}
		env.ovar = env.vars
		ex.prove(st, ex.asTerm(ex.evalClause(env, &Clause{Pos: p.Pos}, p.Body)), kind, desc, tags, pos)
	} else {
		ex.execDyn(st, a)
	}
	ok = !ex.failed
	ex.failed = failed || ex.failed
	ex.s.Pop()
	return ok, true
}

// known: the predicate already follows (cheaply) from the path.
func (ex *Exec) known(a *Term) bool {
	for _, f := range ex.s.frames {
		for _, t := range f.asserts {
			if t == a {
				return true
			}
		}
	}
	return false
}

// execDyn proves that a known function value meets the contract of its function type on every argument of
// the given type: its body is executed with fresh arguments, in an arbitrary later state.
func (ex *Exec) execDyn(st *State, a *Term) {
	f := ex.funcs[a.args[0]]
	ct := ex.v.closureTypeSig(f.fn.Signature)
	if ct == nil {
		panic(unsupported("no contract for the type of function " + ex.v.fname(f.fn)))
	}
	if ex.dynDepth > 4 {
		panic(unsupported("nested encoder proofs too deep"))
	}
	ex.dynDepth++
	oc, op, oe, ofl, opth := ex.c, ex.params, ex.entry, ex.freshFloor, ex.paths
	defer func() {
		ex.c, ex.params, ex.entry, ex.freshFloor = oc, op, oe, ofl
		ex.paths = opth
		ex.dynDepth--
	}()
	ns := ex.newState()
	for n, t := range st.heap {
		if ex.v.isImmutable(n) {
			ns.heap[n] = t
		}
	}
	ex.tt.fresh++
	ns.havocs = []havocRec{{"*", ex.tt.fresh}}
	ns.path = append(append([]string(nil), st.path...), "in "+ex.v.fname(f.fn))
	// mutable globals may have changed
	for g := range ex.v.mutable {
		t := g.Type().(*types.Pointer).Elem()
		base := ex.tt.Int(int64(-1000000 - ex.v.globalID(g)))
		p := ex.ptrTo(base, t)
		if p.heap == "arr" || isOpaqueStruct(t) {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			for _, c := range ex.comps(t) {
				if h, ok := ns.heap[p.heap+c.suffix]; ok {
					ns.heap[p.heap+c.suffix] = ex.tt.Store(h, base, ex.tt.Fresh("g."+g.Name(), c.sort))
				}
			}
		}()
	}
	ex.freshFloor = ex.nalloc
	ex.c = ct
	ex.params = map[string]Val{}
	var args []Val
	off := len(ct.Params) - f.fn.Signature.Params().Len()
	ex.params[ct.Params[0]] = a.args[0]
	for i := 0; i < f.fn.Signature.Params().Len(); i++ {
		v := ex.paramVal(ct.Params[i+off], f.fn.Signature.Params().At(i).Type())
		args = append(args, v)
		ex.params[ct.Params[i+off]] = v
	}
	for i := 0; i < f.fn.Signature.Params().Len(); i++ {
		ex.dynTypes[ct.Params[i+off]] = f.fn.Signature.Params().At(i).Type()
	}
	ex.s.Push()
	defer ex.s.Pop()
	ex.entry = ns.clone()
	ex.assumeRequires(ns, ct)
	env := ex.specEnv(ns)
	env.vars["key"] = tval{a.args[1], nil}
	for _, cl := range ct.Clauses {
		if cl.Kind == "closure" {
			// what the predicate fixes about the arguments
			ex.assume(ex.asTerm(ex.evalClause(env, cl, parseExpr(cl.Src))))
		}
	}
	ex.assume(a)
	if !ex.feasible() {
		return
	}
	fr := ex.newFrame(f.fn, args, f.binds)
	// a function with a contract of its own is used through it
	if own := ex.v.contractOf(f.fn); own != nil && len(f.binds) == 0 {
		ns.frames = []*frame{fr}
		oc := ex.cur
		ex.cur = ns
		rs := ex.applyContract(ns, own, args, f.fn.Signature, f.fn.Pos())
		if cond, yes := ex.returnsOf(ns, own, rs); cond != nil {
			for i, c := range []*Term{cond, ex.tt.Not(cond)} {
				s := ns.clone()
				ex.cur = s
				ex.s.Push()
				ex.assume(c)
				if ex.feasible() {
					r := yes
					if i == 1 {
						r = rs
					}
					ex.proveEnsures(s, ct, f.fn, r)
				}
				ex.s.Pop()
			}
		} else {
			ex.proveEnsures(ns, ct, f.fn, rs)
		}
		ex.cur = oc
		return
	}
	fr.onRet = func(s *State, rs []Val) bool {
		ex.proveEnsures(s, ct, f.fn, rs)
		return false
	}
	ns.frames = []*frame{fr}
	oc2 := ex.cur
	ex.run(ns)
	ex.cur = oc2
}

func (v *Verifier) isImmutable(n string) bool {
	for _, p := range v.specs.Immutable {
		if p == n || strings.HasSuffix(p, "*") && strings.HasPrefix(n, p[:len(p)-1]) {
			return true
		}
	}
	return false
}

func (v *Verifier) closureTypeSig(sg *types.Signature) *Contract {
	for _, c := range v.specs.Order {
		if c.Kind != "functype" {
			continue
		}
		t := v.types[c.Name]
		if t == nil {
			continue
		}
		if s, ok := t.Underlying().(*types.Signature); ok && types.Identical(s.Params(), sg.Params()) && types.Identical(s.Results(), sg.Results()) {
			return c
		}
	}
	return nil
}

// ---- equality of byte strings ----

func (ex *Exec) bsGoal(goal *Term) (l, r *Term, rest []*Term) {
	ds := []*Term{goal}
	if goal.op == "or" {
		ds = goal.args
	}
	for i, d := range ds {
		if d.op == "=" && d.args[0].sort == SBs {
			return d.args[0], d.args[1], append(append([]*Term(nil), ds[:i]...), ds[i+1:]...)
		}
	}
	return nil, nil, nil
}

func (ex *Exec) proveWords(goal *Term) bool {
	l, r, rest := ex.bsGoal(goal)
	if l == nil {
		return false
	}
	ex.s.Push()
	defer ex.s.Pop()
	for _, d := range rest {
		ex.assume(ex.tt.Not(d))
	}
	if !ex.feasible() {
		return true
	}
	w := &words{ex: ex, budget: 400}
	ok := w.eq(ex.bsParts(l), ex.bsParts(r), 0)
	if !ok && os.Getenv("GCV_WORDS") != "" && (ex.mute == 0 || os.Getenv("GCV_WORDS") == "2") {
		fmt.Fprintf(os.Stderr, "WORDS %s\n   L %s\n   R %s\n", w.why, wstr(w.l), wstr(w.r))
	}
	return ok
}

func wstr(ts []*Term) string {
	var o []string
	for _, t := range ts {
		o = append(o, trunc(t.String(), 300))
	}
	return strings.Join(o, " · ")
}

type words struct {
	ex     *Exec
	budget int
	why    string
	l, r   []*Term
	used   map[*Term]bool
	und    int // undecided unfoldings since bytes were last matched
}

const maxUndecided = 3

func (w *words) fail(why string, l, r []*Term) bool {
	w.why, w.l, w.r = why, l, r
	return false
}

func (w *words) eq(l, r []*Term, depth int) bool {
	rest, ok := w.strip(l, r, depth, func(rest []*Term) bool { return w.empty(rest, depth) })
	_ = rest
	return ok
}

func (w *words) empty(l []*Term, depth int) bool {
	for len(l) > 0 {
		if depth > 80 {
			return false
		}
		depth++
		n, ok := w.expand(l[0])
		if ok && len(n) > 0 && n[0].op == "ite" {
			if w.und++; w.und > maxUndecided {
				return w.fail("not empty", l, nil)
			}
		}
		if !ok {
			if alt, ok2 := w.alts(l[0]); ok2 {
				return w.both(alt, func(t *Term) bool { return w.empty(append(w.ex.bsParts(t), l[1:]...), depth) })
			}
			return w.fail("not empty", l, nil)
		}
		l = append(append([]*Term(nil), n...), l[1:]...)
	}
	return true
}

// same: two parts denote the same bytes.
func (w *words) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "app" && b.op == "app" && a.name == b.name && len(a.args) == len(b.args) {
		for i := range a.args {
			if a.args[i] == b.args[i] {
				continue
			}
			if a.args[i].sort != b.args[i].sort {
				return false
			}
			if a.args[i].sort == SBs {
				x := &words{ex: w.ex, budget: w.budget / 2}
				if !x.eq(w.ex.bsParts(a.args[i]), w.ex.bsParts(b.args[i]), 0) {
					return false
				}
				continue
			}
			w.budget--
			if w.budget < 0 {
				return false
			}
			x, y := a.args[i], b.args[i]
			if t := w.ruled(x); t != nil {
				x = t
			}
			if t := w.ruled(y); t != nil {
				y = t
			}
			if x != y && !w.ex.valid(w.ex.tt.Eq(x, y)) && !w.viaRules(x, y) && !w.viaRules(y, x) {
				return false
			}
		}
		return true
	}
	return false
}

// expand unfolds a part using definitions and rules; the choice between branches must be decided by the path.
// viaRules: x is known to equal an application that a rule rewrites to y.
func (w *words) viaRules(x, y *Term) bool {
	if x.sort != SInt {
		return false
	}
	for _, f := range w.ex.s.frames {
		for _, t := range f.asserts {
			if t.op != "=" || t.args[0].sort != SInt {
				continue
			}
			for i := 0; i < 2; i++ {
				if e := t.args[1-i]; t.args[i] == x && e.op == "app" {
					if n := w.ruled(e); n != nil && (n == y || w.ex.valid(w.ex.tt.Eq(n, y))) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (w *words) expand(p *Term) ([]*Term, bool) {
	ex := w.ex
	w.budget--
	if w.budget < 0 {
		return nil, false
	}
	if p.op != "app" {
		return nil, false
	}
	if t, ok := w.rules(p); ok {
		return t, true
	}
	if strings.HasPrefix(p.name, "sp:") {
		f := ex.v.specs.Funs[p.name[3:]]
		if f != nil && f.Body != nil {
			oe := ex.curExact
			ex.curExact = true
			t := ex.specBody(f, p.args)
			ex.curExact = oe
			if t == p {
				return nil, false
			}
			return ex.bsParts(t), true
		}
	}
	return nil, false
}

func (w *words) rules(p *Term) ([]*Term, bool) {
	if t := w.ruled(p); t != nil {
		return w.ex.bsParts(t), true
	}
	return nil, false
}

// ruled rewrites an application by the first rule whose condition holds.
func (w *words) ruled(p *Term) *Term {
	if p.op != "app" {
		return nil
	}
	n := strings.TrimPrefix(strings.TrimPrefix(p.name, "sp:"), "u:")
	if n == p.name {
		return nil
	}
	for _, r := range w.ex.v.specs.Rules[n] {
		if t := w.rule(r, p); t != nil {
			return t
		}
	}
	return nil
}

// decided replaces conditional subterms by the branch the path fixes.
func (w *words) decided(t *Term) *Term {
	for t.op == "ite" {
		if w.ex.valid(t.args[0]) {
			t = t.args[1]
		} else if w.ex.valid(w.ex.tt.Not(t.args[0])) {
			t = t.args[2]
		} else {
			break
		}
	}
	return t
}

func (w *words) rule(r *Rule, p *Term) *Term {
	ex := w.ex
	env := &senv{vars: map[string]tval{}, st: ex.cur}
	for i, n := range r.Params {
		env.vars[n] = tval{p.args[i], nil}
	}
	env.ovar = env.vars
	c := ex.asTerm(ex.evalClause(env, &Clause{Pos: r.Pos}, r.Cond))
	if !ex.valid(c) {
		return nil
	}
	return ex.asTerm(ex.evalClause(env, &Clause{Pos: r.Pos}, r.Rhs))
}

func (w *words) alts(p *Term) ([3]*Term, bool) {
	if p.op == "ite" {
		return [3]*Term{p.args[0], p.args[1], p.args[2]}, true
	}
	return [3]*Term{}, false
}

func (w *words) both(a [3]*Term, f func(*Term) bool) bool {
	ex := w.ex
	und := w.und
	defer func() { w.und = und }()
	for i, c := range []*Term{a[0], ex.tt.Not(a[0])} {
		w.und = und
		ex.s.Push()
		ex.assume(c)
		ok := !ex.feasible() || f(a[i+1])
		ex.s.Pop()
		if !ok {
			return false
		}
	}
	return true
}

// equations phi.X == W assumed on the path, for a variable phi
func (w *words) equations(phi *Term) [][2]*Term {
	var out [][2]*Term
	for _, f := range w.ex.s.frames {
		for _, t := range f.asserts {
			if t.op != "=" || t.args[0].sort != SBs {
				continue
			}
			for i := 0; i < 2; i++ {
				ps := w.ex.bsParts(t.args[i])
				if len(ps) > 0 && ps[0] == phi {
					out = append(out, [2]*Term{t.args[i], t.args[1-i]})
				}
			}
		}
	}
	return out
}

// equationsLike finds equations about the same list read from another version of the heap.
func (w *words) equationsLike(hd *Term) [][2]*Term {
	var out [][2]*Term
	for _, f := range w.ex.s.frames {
		for _, t := range f.asserts {
			if t.op != "=" || t.args[0].sort != SBs {
				continue
			}
			for i := 0; i < 2; i++ {
				ps := w.ex.bsParts(t.args[i])
				if len(ps) == 0 || ps[0].op != "app" || ps[0].name != hd.name {
					continue
				}
				cand := true
				for j, a := range ps[0].args {
					if b := hd.args[j]; a != b && (a.op != "select" && b.op != "select") {
						cand = false
					}
				}
				if cand && w.same(ps[0], hd) {
					out = append(out, [2]*Term{t.args[i], t.args[1-i]})
				}
			}
		}
	}
	return out
}

// strip removes r as a prefix of l and hands the remainder to k.
func (w *words) strip(l, r []*Term, depth int, k func([]*Term) bool) ([]*Term, bool) {
	ex := w.ex
	for {
		depth++
		if depth > 120 || w.budget < 0 {
			return nil, w.fail("too deep", l, r)
		}
		for len(l) > 0 && len(r) > 0 && l[0] == r[0] {
			l, r = l[1:], r[1:]
			w.und = 0
		}
		if len(r) == 0 {
			return nil, k(l)
		}
		if len(l) > 0 {
			a, aok := bsLit(l[0])
			b, bok := bsLit(r[0])
			if aok && bok {
				n := 0
				for n < len(a) && n < len(b) && a[n] == b[n] {
					n++
				}
				if n == 0 {
					return nil, w.fail("literals differ", l, r)
				}
				nl := append([]*Term(nil), l[1:]...)
				nr := append([]*Term(nil), r[1:]...)
				if n < len(a) {
					nl = append([]*Term{ex.bsOfStr(ex.strLit(a[n:]))}, nl...)
				}
				if n < len(b) {
					nr = append([]*Term{ex.bsOfStr(ex.strLit(b[n:]))}, nr...)
				}
				l, r = nl, nr
				w.und = 0
				continue
			}
			// a decimal number against literal digits
			if aok != bok {
				x, y, lit := &r, &l, a
				if bok {
					x, y, lit = &l, &r, b
				}
				if h := (*x)[0]; h.op == "app" && h.name == "u:itoa" {
					n := 0
					for n < len(lit) && (lit[n] >= '0' && lit[n] <= '9' || n == 0 && lit[n] == '-') {
						n++
					}
					if k, ok := new(big.Int).SetString(lit[:n], 10); ok && ex.valid(ex.tt.Eq(h.args[0], ex.tt.Big(k))) {
						*x = append([]*Term{ex.bsOfStr(ex.strLit(k.String()))}, (*x)[1:]...)
						_ = y
						continue
					}
				}
			}
			// what is known about function values and lists
			if n, ok := w.rules(r[0]); ok {
				r = append(append([]*Term(nil), n...), r[1:]...)
				continue
			}
			if n, ok := w.rules(l[0]); ok {
				l = append(append([]*Term(nil), n...), l[1:]...)
				continue
			}
			if w.same(l[0], r[0]) {
				l, r = l[1:], r[1:]
				w.und = 0
				continue
			}
		}
		if os.Getenv("GCV_WORDS") == "3" {
			fmt.Fprintf(os.Stderr, "STRIP\n   L %s\n   R %s\n", wstr(l), wstr(r))
		}
		// conditional heads: the branch the path fixes, otherwise both
		split := false
		for side, x := range []*[]*Term{&l, &r} {
			if len(*x) == 0 || (*x)[0].op != "ite" {
				continue
			}
			d := w.decided((*x)[0])
			if d != (*x)[0] {
				*x = append(append([]*Term(nil), ex.bsParts(d)...), (*x)[1:]...)
				split = true
				continue
			}
			a, _ := w.alts(d)
			rest := (*x)[1:]
			return nil, w.both(a, func(t *Term) bool {
				n := append(append([]*Term(nil), ex.bsParts(t)...), rest...)
				var ok bool
				if side == 0 {
					_, ok = w.strip(n, r, depth, k)
				} else {
					_, ok = w.strip(l, n, depth, k)
				}
				return ok
			})
		}
		if split {
			continue
		}
		// a list prefix with a known equation
		if len(l) > 0 {
			if w.used == nil {
				w.used = map[*Term]bool{}
			}
			done := false
			for side, hd := range []*Term{l[0], r[0]} {
				if hd.op != "app" || !strings.HasPrefix(hd.name, "sp:") || w.used[hd] {
					continue
				}
				if f := ex.v.specs.Funs[hd.name[3:]]; f == nil || !f.Local {
					continue
				}
				es := w.equations(hd)
				if len(es) == 0 {
					es = w.equationsLike(hd)
				}
				if len(es) == 0 {
					continue
				}
				w.used[hd] = true
				for _, e := range es {
					x := ex.bsParts(e[0])[1:]
					y := ex.bsParts(e[1])
					me, other := l, r
					if side == 1 {
						me, other = r, l
					}
					w.strip(me[1:], x, depth, func(z []*Term) bool {
						n := append(append([]*Term(nil), y...), z...)
						ok := false
						if side == 0 {
							_, ok = w.strip(n, other, depth, k)
						} else {
							_, ok = w.strip(other, n, depth, k)
						}
						done = ok
						return ok
					})
					if done {
						return nil, true
					}
				}
				delete(w.used, hd)
			}
		}
		// expand one side, preferring a definition whose branch is decided by the path
		var ln []*Term
		lok := false
		rn, rok := w.expand(r[0])
		if rok && !(len(rn) > 0 && rn[0].op == "ite") {
			r = append(append([]*Term(nil), rn...), r[1:]...)
			continue
		}
		if len(l) > 0 {
			ln, lok = w.expand(l[0])
			if lok && !(len(ln) > 0 && ln[0].op == "ite") {
				l = append(append([]*Term(nil), ln...), l[1:]...)
				continue
			}
		}
		if len(l) > 0 {
			// a variable with a known equation: phi.X == W, so phi.X.Y == W.Y
			if w.used == nil {
				w.used = map[*Term]bool{}
			}
			if l[0].op == "var" && !w.used[l[0]] {
				phi := l[0]
				w.used[phi] = true
				for _, e := range w.equations(phi) {
					x := ex.bsParts(e[0])[1:]
					done := false
					w.strip(l[1:], x, depth, func(y []*Term) bool {
						_, ok := w.strip(append(append([]*Term(nil), ex.bsParts(e[1])...), y...), r, depth, k)
						done = ok
						return ok
					})
					if done {
						return nil, true
					}
				}
				delete(w.used, phi)
			}
			if r[0].op == "var" && !w.used[r[0]] {
				phi := r[0]
				w.used[phi] = true
				for _, e := range w.equations(phi) {
					x := ex.bsParts(e[0])[1:]
					done := false
					w.strip(r[1:], x, depth, func(y []*Term) bool {
						_, ok := w.strip(l, append(append([]*Term(nil), ex.bsParts(e[1])...), y...), depth, k)
						done = ok
						return ok
					})
					if done {
						return nil, true
					}
				}
				delete(w.used, phi)
			}
		}
		if lok && !rok {
			if w.und++; w.und > maxUndecided {
				return nil, w.fail("stuck", l, r)
			}
			l = append(append([]*Term(nil), ln...), l[1:]...)
			continue
		}
		if rok {
			if w.und++; w.und > maxUndecided {
				return nil, w.fail("stuck", l, r)
			}
			r = append(append([]*Term(nil), rn...), r[1:]...)
			continue
		}
		if a, ok := w.alts(r[0]); ok {
			rr := r[1:]
			return nil, w.both(a, func(t *Term) bool {
				_, ok := w.strip(l, append(append([]*Term(nil), ex.bsParts(t)...), rr...), depth, k)
				return ok
			})
		}
		if len(l) > 0 {
			if a, ok := w.alts(l[0]); ok {
				ll := l[1:]
				return nil, w.both(a, func(t *Term) bool {
					_, ok := w.strip(append(append([]*Term(nil), ex.bsParts(t)...), ll...), r, depth, k)
					return ok
				})
			}
		}
		return nil, w.fail("stuck", l, r)
	}
}

// ---- byte slices kept in memory ----

func (ex *Exec) bytesKey(p *PtrV) string {
	if p.idx != nil {
		return ""
	}
	return p.heap + "@" + p.base.String()
}

// loadBytes gives repeated loads of one location the same backing memory while its value is unchanged.
func (ex *Exec) loadBytes(st *State, p *PtrV, b *BytesV) Val {
	k := ex.bytesKey(p)
	if k == "" {
		ex.assumeType(b, p.typ)
		return b
	}
	if c := st.bytesV[k]; c != nil && c.t == b.t {
		return c
	}
	ex.assumeType(b, p.typ)
	n := *b
	if n.region == nil {
		n.region = ex.newRegion("field "+p.heap, false)
	}
	n.region.owner = p.base
	n.cut = true
	ex.setBytes(st, k, &n)
	return &n
}

func (ex *Exec) setBytes(st *State, k string, b *BytesV) {
	if st.bytesV == nil {
		st.bytesV = map[string]*BytesV{}
	}
	st.bytesV[k] = b
}

func (ex *Exec) cacheBytes(st *State, p *PtrV, b *BytesV) {
	if k := ex.bytesKey(p); k != "" {
		ex.setBytes(st, k, b)
	}
}

// noOwner: a new array is not a finished list of anything.
func (ex *Exec) noOwner(r *Term, t types.Type) {
	a, ok := under(t).(*types.Array)
	if !ok {
		return
	}
	if h := ex.v.specs.ElemInvs["E:"+ex.v.tname(a.Elem())]; h != nil && !ex.initing {
		ex.assume(ex.tt.Eq(ex.tt.App("u:"+h.Owner, SInt, r), ex.tt.Int(0)))
	}
}

// usesForall: the clause speaks about a universally quantified variable of the contract.
func (c *Contract) usesForall(cl *Clause) bool {
	vars := map[string]bool{}
	for _, k := range c.Clauses {
		if k.Kind == "forall" {
			for _, v := range k.Vars {
				vars[strings.Fields(v)[0]] = true
			}
		}
	}
	if len(vars) == 0 {
		return false
	}
	u := false
	for _, e := range cl.E {
		walkExpr(e, func(x *Expr) {
			if x.K == "ident" && vars[x.S] {
				u = true
			}
		})
	}
	return u
}

// returnsOf evaluates the returns clause of a contract after a call.
func (ex *Exec) returnsOf(st *State, ct *Contract, rs []Val) (*Term, []Val) {
	for _, cl := range ct.Clauses {
		if cl.Kind != "returns" {
			continue
		}
		env := ex.lastEnv
		c := ex.asTerm(ex.evalClause(env, cl, cl.E[0]))
		t := ex.asTerm(ex.evalClause(env, cl, cl.E[1]))
		// machine assumption: what is in memory is smaller than the address space
		ex.assume(ex.tt.And(ex.tt.Le(ex.tt.Int(0), ex.bslen(t)), ex.tt.Le(ex.bslen(t), ex.tt.Int(1<<45))))
		for i, n := range ct.Results {
			if n == cl.Label {
				b, ok := rs[i].(*BytesV)
				if !ok {
					panic(unsupported(cl.Pos + ": returns needs an abstract byte slice"))
				}
				nb := *b
				nb.t = t
				yes := append([]Val(nil), rs...)
				yes[i] = &nb
				return c, yes
			}
		}
		panic(unsupported(cl.Pos + ": unknown result"))
	}
	return nil, nil
}

func (ex *Exec) proveReturns(st *State, env *senv, ct *Contract, cl *Clause) {
	c := ex.asTerm(ex.evalClause(env, cl, cl.E[0]))
	ex.s.Push()
	defer ex.s.Pop()
	if c.isFalse() {
		return
	}
	ex.assume(c)
	if !ex.feasible() {
		return
	}
	b, ok := env.vars[cl.Label].v.(*BytesV)
	if !ok {
		panic(unsupported(cl.Pos + ": returns needs an abstract byte slice"))
	}
	ex.useBytes(st, b, token.NoPos)
	tags := cl.Tags
	if tags == nil {
		tags = ex.safetyTags()
	}
	if ct.Opts["samebuf"] != "" {
		if a, ok := env.vars[ct.Opts["samebuf"]].v.(*BytesV); ok {
			ex.prove(st, ex.tt.Bool(a.region == b.region), "ensures", "the result extends the buffer it was given", tags, cl.Pos)
		}
	}
	t := ex.asTerm(ex.evalClause(env, cl, cl.E[1]))
	ex.prove(st, ex.tt.Eq(b.t, t), "ensures", cl.Src, tags, cl.Pos)
}

// axioms instantiates the declared facts about an application of an uninterpreted function.
func (ex *Exec) axioms(name string, t *Term, args []tval) {
	as := ex.v.specs.Axioms[name]
	if len(as) == 0 || t.op != "app" || ex.initing {
		return
	}
	if ex.isUnfolded(t) {
		return
	}
	ex.s.frames[len(ex.s.frames)-1].unfolded[t] = 1
	ct := ex.c
	for _, a := range as {
		if len(a.Params) != len(args) {
			panic(specErr{"axiom of " + name + " has the wrong number of parameters"})
		}
		env := &senv{vars: map[string]tval{}}
		for i, p := range a.Params {
			env.vars[p] = args[i]
		}
		env.ovar = env.vars
		ex.assume(ex.asTerm(ex.evalClause(env, &Clause{Pos: a.Pos}, a.E)))
	}
	ex.c = ct
	ex.trusted["axioms about "+name] = true
}

// becomes: the object behind a value changes in place; every copy of the value now denotes the new content.
func (ex *Exec) becomes(st *State, old, nw *Term) {
	for fi, f := range st.frames {
		for k, v := range f.env {
			if v == Val(old) {
				f.env[k] = nw
				for _, g := range st.frames {
					for _, l := range g.loops {
						if l.writes == nil {
							continue
						}
						key := assignedKey{fi, k}
						if !l.assigned[key] {
							l.assigned[key] = true
							l.changed = true
						}
					}
				}
			}
		}
	}
	for k, v := range st.heap {
		if v == old {
			st.heap[k] = nw
		}
	}
}

type assignedKey struct {
	frame int
	v     ssa.Value
}

// floats

func (ex *Exec) fltConst(s string, bits int) *Term {
	f, err := strconv.ParseFloat(s, bits)
	if err != nil {
		panic(specErr{"bad float " + s})
	}
	e := constant.MakeFloat64(f).ExactString()
	if e == "0" {
		return ex.tt.Var("flt.0", SFlt)
	}
	return ex.tt.Var("flt."+e, SFlt)
}

// f32 rounds to single precision; rounding twice changes nothing.
func (ex *Exec) f32(t *Term) *Term {
	if t.op == "app" && t.name == "u:f32" {
		return t
	}
	return ex.tt.App("u:f32", SFlt, t)
}

// decide rewrites select(table, i) to the entry when the path fixes the index.
func (ex *Exec) decideIndex(arr, i *Term) *Term {
	if i.isConst() || arr.op != "store" {
		return nil
	}
	n := 0
	for a := arr; a.op == "store" && n < 64; a = a.args[0] {
		n++
		if a.args[1].isConst() && ex.valid(ex.tt.Eq(i, a.args[1])) {
			return ex.tt.Select(arr, a.args[1])
		}
	}
	return nil
}
