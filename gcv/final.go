package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type aliveRec struct {
	typ  string
	set  map[string]bool
	pos  token.Pos
	term *Term
}

type pendInv struct {
	h   *HeapInv
	p   *PtrV
	v   Val
	pos token.Pos
}

// birth records a new object: until something else can see it, its final fields may be assigned and
// its field invariants are not checked yet.
func (ex *Exec) birth(st *State, p *PtrV) {
	if ex.initing || strings.HasPrefix(p.heap, "cell:") || p.idx != nil {
		return
	}
	n := map[*Term]*aliveRec{}
	for k, v := range st.alive {
		n[k] = v
	}
	n[p.base] = &aliveRec{typ: p.heap, term: p.base}
	st.alive = n
}

func (ex *Exec) finalGet(st *State, name string, base *Term, c comp) *Term {
	if a := st.alive[base]; a != nil && !a.set[name] {
		return ex.zeroOf(c)
	}
	return ex.tt.App("fin:"+name, c.sort, base)
}

func (ex *Exec) finalSet(st *State, name string, base, v *Term) {
	if ex.zeroing {
		return
	}
	a := st.alive[base]
	if a == nil || a.set[name] {
		ex.prove(st, ex.tt.Bool(false), "immutability", "field "+name+" assigned after its object became visible", []string{"C10"}, ex.poss(ex.curPos))
		return
	}
	b := &aliveRec{typ: a.typ, term: a.term, set: map[string]bool{name: true}}
	for k := range a.set {
		b.set[k] = true
	}
	n := map[*Term]*aliveRec{}
	for k, v := range st.alive {
		n[k] = v
	}
	n[base] = b
	st.alive = n
	ex.assume(ex.tt.Eq(ex.tt.App("fin:"+name, v.sort, base), v))
}

func (ex *Exec) fieldGoal(st *State, h *HeapInv, p *PtrV, v Val) *Term {
	t := ex.term(v)
	g := ex.invTerm(st, h, tval{p.base, nil}, tval{v, p.typ})
	if h.Later {
		return ex.tt.Or(ex.tt.Eq(t, ex.tt.Int(0)), g)
	}
	return ex.tt.And(ex.tt.Ne(t, ex.tt.Int(0)), g)
}

// bumpEpoch: from here on other code may see the objects made so far.
func (ex *Exec) bumpEpoch(st *State) {
	if len(st.alive) == 0 || ex.initing {
		return
	}
	alive, pend := st.alive, st.pend
	st.alive, st.pend = nil, nil
	last := map[string]int{}
	for i, q := range pend {
		last[q.p.heap+q.p.base.String()] = i
	}
	var as []*aliveRec
	for _, a := range alive {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].term.val.Cmp(as[j].term.val) > 0 })
	for _, a := range as {
		for n := range ex.v.specs.Final {
			if strings.HasPrefix(n, a.typ+".") && !a.set[n] && !strings.Contains(n[len(a.typ)+1:], ".") {
				ex.finalZero(n, a)
			}
		}
		for n, h := range ex.v.specs.FieldInvs {
			if _, ok := last[n+a.term.String()]; h.Set && strings.HasPrefix(n, a.typ+".") && !ok {
				ex.prove(st, ex.tt.Bool(false), "invariant", "field "+n+" set by the constructor", h.tags(ex), ex.poss(ex.curPos))
			}
		}
	}
	for i, q := range pend {
		if last[q.p.heap+q.p.base.String()] == i {
			ex.prove(st, ex.fieldGoal(st, q.h, q.p, q.v), "invariant", "field "+q.p.heap+": "+q.h.E.String(), q.h.tags(ex), ex.poss(q.pos))
		}
	}
}

func (ex *Exec) finalZero(n string, a *aliveRec) {
	t := ex.v.types[a.typ]
	if t == nil {
		return
	}
	for _, c := range ex.comps(t) {
		if a.typ+c.suffix == n {
			ex.assume(ex.tt.Eq(ex.tt.App("fin:"+n, c.sort, a.term), ex.zeroOf(c)))
		}
	}
}

// usesLocal: the clause speaks about the function's own ghosts, which callers do not see.
func (v *Verifier) usesLocal(cl *Clause) bool {
	found := false
	for _, e := range cl.E {
		walkExpr(e, func(x *Expr) {
			if v.specs.LocalG[strings.TrimPrefix(x.S, "$")] && strings.HasPrefix(x.S, "$") {
				found = true
			}
		})
	}
	return found
}

// invFields lists the fields with an invariant when a whole struct is copied.
func (ex *Exec) invFields(p *PtrV, v Val) []pendInv {
	s, ok := v.(*StructV)
	if !ok || p.idx != nil {
		return nil
	}
	var r []pendInv
	for i := 0; i < s.typ.NumFields() && i < len(s.fields); i++ {
		n := p.heap + "." + s.typ.Field(i).Name()
		if h := ex.v.specs.FieldInvs[n]; h != nil {
			r = append(r, pendInv{h: h, p: &PtrV{heap: n, base: p.base, typ: s.typ.Field(i).Type()}, v: s.fields[i]})
		}
	}
	return r
}

func (v *Verifier) typeOf(n string) types.Type {
	n = strings.ReplaceAll(strings.TrimSpace(n), "interface{}", "any")
	if t, ok := v.types[n]; ok {
		return t
	}
	switch {
	case n == "any":
		return types.Universe.Lookup("any").Type()
	case strings.HasPrefix(n, "[]"):
		if e := v.typeOf(n[2:]); e != nil {
			return types.NewSlice(e)
		}
	case strings.HasPrefix(n, "*"):
		if e := v.typeOf(n[1:]); e != nil {
			return types.NewPointer(e)
		}
	case strings.HasPrefix(n, "map["):
		if i := strings.Index(n, "]"); i > 0 {
			if k, e := v.typeOf(n[4:i]), v.typeOf(n[i+1:]); k != nil && e != nil {
				return types.NewMap(k, e)
			}
		}
	}
	return nil
}
