package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	phis   []*ssa.Phi
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := res[h]
			if l == nil {
				l = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				for _, in := range h.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						l.phis = append(l.phis, p)
					}
				}
				res[h] = l
			}
			var stack []*ssa.BasicBlock
			if !l.blocks[b] {
				l.blocks[b] = true
				stack = append(stack, b)
			}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				for _, p := range x.Preds {
					if !l.blocks[p] {
						l.blocks[p] = true
						stack = append(stack, p)
					}
				}
			}
		}
	}
	return res
}

type cand struct {
	desc string
	tags []string
	eval func(st *State, ph map[*ssa.Phi]Val) *Term
	dead bool
	repl func(ph map[*ssa.Phi]Val) // rewrite of the loop-head values that makes the invariant hold
}

type measure struct {
	desc string
	eval func(st *State, ph map[*ssa.Phi]Val) *Term
	dead bool
}

type loopCtx struct {
	li       *loopInfo
	mode     string // unroll, houdini, final
	count    int
	writes   map[string]map[*Term]bool
	cands    []*cand
	measures []*measure
	head     map[*ssa.Phi]Val
	headM    map[*measure]*Term
	entry    map[*ssa.Phi]Val
	entrySt  *State
	changed  bool
	cheap    bool
	freshAt  int
	allocAt  int64
	backs    int
	seenW    map[string]bool
	wsort    map[string]Sort
	assigned map[assignedKey]bool
}

func (ex *Exec) phiVals(st *State, to, from *ssa.BasicBlock) map[*ssa.Phi]Val {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	m := map[*ssa.Phi]Val{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[p] = ex.val(st, p.Edges[idx])
	}
	return m
}

func (ex *Exec) setBlock(st *State, to *ssa.BasicBlock, ph map[*ssa.Phi]Val) {
	fr := st.top()
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[p] = ph[p]
		n++
	}
	fr.block = to
	fr.pc = n
}

func (ex *Exec) enter(st *State, to *ssa.BasicBlock) bool {
	fr := st.top()
	from := fr.block
	for len(fr.loops) > 0 && !fr.loops[len(fr.loops)-1].li.blocks[to] {
		l := fr.loops[len(fr.loops)-1]
		fr.loops = fr.loops[:len(fr.loops)-1]
		if l.mode == "houdini" {
			return false
		}
	}
	ph := ex.phiVals(st, to, from)
	li := ex.v.loopsOf(fr.fn)[to]
	if li == nil {
		ex.setBlock(st, to, ph)
		return true
	}
	if n := len(fr.loops); n > 0 && fr.loops[n-1].li == li {
		l := fr.loops[n-1]
		if l.mode == "unroll" {
			c := *l
			c.count++
			if c.count > 300 {
				panic(unsupported("unrolling limit"))
			}
			fr.loops[n-1] = &c
			ex.setBlock(st, to, ph)
			return true
		}
		ex.backEdge(st, l, ph)
		return false
	}
	ex.loopEntry(st, li, ph)
	return false
}

func (ex *Exec) loopEntry(st *State, li *loopInfo, ph map[*ssa.Phi]Val) {
	ex.bumpEpoch(st)
	fr := st.top()
	if n, diff := ex.tripBound(st, li, ph); n != nil {
		l := &loopCtx{li: li, mode: "unroll"}
		if diff.isConst() {
			fr.loops = append(fr.loops, l)
			ex.setBlock(st, li.header, ph)
			ex.run(st)
			return
		}
		// split on the trip count
		for k := int64(-1); k <= maxSplit; k++ {
			ex.s.Push()
			var c *Term
			if k < 0 {
				c = ex.tt.Lt(diff, ex.tt.Int(0))
			} else {
				c = ex.tt.Eq(diff, ex.tt.Int(k))
			}
			ex.assume(c)
			if ex.feasible() {
				s2 := st.clone()
				s2.path = append(s2.path, fmt.Sprintf("trip=%d", k))
				if k >= 0 {
					ex.substDiff(s2, diff, k)
				}
				ph2 := map[*ssa.Phi]Val{}
				for p := range ph {
					ph2[p] = ph[p]
				}
				f2 := s2.top()
				f2.loops = append(f2.loops, l)
				ex.setBlock(s2, li.header, ph2)
				ex.run(s2)
			}
			ex.s.Pop()
		}
		return
	}
	l := &loopCtx{li: li, writes: map[string]map[*Term]bool{}, seenW: map[string]bool{}, wsort: map[string]Sort{}, assigned: map[assignedKey]bool{}, entry: ph, entrySt: st.clone(), freshAt: ex.tt.fresh, allocAt: ex.nalloc}
	l.cands = ex.candidates(st, li, ph)
	l.measures = ex.loopMeasures(st, li, ph)
	for _, c := range l.cands {
		t := ex.evalCand(c, st, ph)
		if t == nil || !ex.valid(t) {
			c.dead = true
		}
	}
	// Houdini: weaken until inductive
	ex.mute++
	l.cheap = true // byte sequences are compared once the rest is stable
	for it := 0; ; it++ {
		if it > 90 {
			panic(unsupported("no inductive invariant found"))
		}
		l.changed = false
		l.mode = "houdini"
		l.backs = 0
		ex.s.Push()
		s2 := ex.havocLoop(st, l)
		ex.run(s2)
		ex.s.Pop()
		if !l.changed {
			if !l.cheap {
				break
			}
			l.cheap = false
		} else {
			l.cheap = true
		}
	}
	ex.mute--
	// final pass
	fin := *l
	fin.mode = "final"
	fin.changed = false
	ex.s.Push()
	if os.Getenv("GCV_LOOPS") != "" && ex.mute == 0 {
		fmt.Fprintf(os.Stderr, "loop %s block %d:\n", fr.fn.Name(), li.header.Index)
		for _, c := range l.cands {
			if !c.dead {
				fmt.Fprintf(os.Stderr, "   inv %s\n", c.desc)
			}
		}
		for _, m := range l.measures {
			if !m.dead {
				fmt.Fprintf(os.Stderr, "   measure %s\n", m.desc)
			}
		}
		for n, b := range l.writes {
			fmt.Fprintf(os.Stderr, "   writes %s %d\n", n, len(b))
		}
	}
	term := l.backs == 0
	for _, m := range l.measures {
		if !m.dead {
			term = true
		}
	}
	ex.prove(st, ex.tt.Bool(term), "termination", "loop has a decreasing measure", ex.safetyTags(), ex.poss(loopPos(li)))
	s2 := ex.havocLoop(st, &fin)
	ex.run(s2)
	ex.s.Pop()
}

func loopPos(li *loopInfo) token.Pos {
	for _, in := range li.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range li.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (ex *Exec) evalCand(c *cand, st *State, ph map[*ssa.Phi]Val) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				t = nil
				return
			}
			if _, ok := r.(unsupportedErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st, ph)
}

func (ex *Exec) havocLoop(st *State, l *loopCtx) *State {
	s2 := st.clone()
	s2.path = append(s2.path, "loop@"+ex.poss(loopPos(l.li)))
	var names []string
	for n := range l.writes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		cur, ok := s2.heap[n]
		if strings.HasSuffix(n, "*") || !ok && !strings.HasPrefix(n, "$g:") && l.wsort[n] == "" {
			ex.havocName(s2, n, token.NoPos)
			continue
		}
		if !ok {
			if strings.HasPrefix(n, "$g:") {
				cur = ex.ghost(s2, n[3:])
			} else {
				cur = ex.heapGet(s2, n, l.wsort[n])
			}
		}
		whole := strings.HasPrefix(n, "$g:")
		var bases []*Term
		for b := range l.writes[n] {
			if b == nil {
				whole = true
				continue
			}
			if b.isConst() && b.val.Sign() < 0 && b.val.IsInt64() && b.val.Int64() < -l.allocAt && b.val.Int64() > -1000000 {
				continue // allocated inside the loop
			}
			if ex.variant(b, l) {
				whole = true
				continue
			}
			bases = append(bases, b)
		}
		if whole {
			s2.heap[n] = ex.tt.Fresh("h."+n, cur.sort)
			continue
		}
		sortTerms(bases)
		for _, b := range bases {
			cur = ex.tt.Store(cur, b, ex.tt.Fresh("h."+n, cur.sort.elem()))
		}
		s2.heap[n] = cur
	}
	if s2.suberr != nil {
		s2.suberr = ex.tt.Fresh("suberr", SBool)
	}
	ex.havocAssigned(s2, l)
	ph := map[*ssa.Phi]Val{}
	for _, p := range l.li.phis {
		if ev, ok := l.entry[p].(*BytesV); ok {
			ph[p] = ex.havocBytes(s2, p.Name(), ev)
			continue
		}
		if ev, ok := l.entry[p].(*FuncV); ok {
			_ = ev
		}
		ph[p] = ex.freshVal(p.Name(), p.Type())
	}
	// an object made before this point is none of those made later (the gap leaves names for those of earlier iterations)
	ex.nalloc += 64
	for _, p := range l.li.phis {
		var b *Term
		switch v := ph[p].(type) {
		case *SliceV:
			b = v.base
		case *PtrV:
			b = v.base
		}
		if b != nil {
			ex.assume(ex.tt.Or(ex.tt.Ge(b, ex.tt.Int(-ex.nalloc)), ex.tt.Le(b, ex.tt.Int(-1000000))))
		}
	}
	for _, c := range l.cands {
		if !c.dead && c.repl != nil {
			c.repl(ph)
		}
	}
	l.head = ph
	fr := s2.top()
	c := l
	fr.loops = append(fr.loops, c)
	ex.setBlock(s2, l.li.header, ph)
	for _, c := range l.cands {
		if !c.dead {
			if t := ex.evalCand(c, s2, ph); t != nil {
				ex.assume(t)
			} else {
				c.dead = true
			}
		}
	}
	l.headM = map[*measure]*Term{}
	for _, m := range l.measures {
		if !m.dead {
			if t := ex.evalCand(&cand{eval: m.eval}, s2, ph); t != nil {
				l.headM[m] = t
			} else {
				m.dead = true
			}
		}
	}
	return s2
}

func (ex *Exec) variant(t *Term, l *loopCtx) bool {
	v := false
	t.walk(func(x *Term) bool {
		if x.op == "var" {
			if k := strings.LastIndexByte(x.name, '!'); k >= 0 {
				n, err := strconv.Atoi(x.name[k+1:])
				if err == nil && n > l.freshAt {
					v = true
				}
			}
		}
		return !v
	})
	return v
}

func (ex *Exec) backEdge(st *State, l *loopCtx, ph map[*ssa.Phi]Val) {
	if !ex.feasible() {
		return
	}
	l.backs++
	for p, v := range ph {
		if b, ok := v.(*BytesV); ok {
			if h, ok := l.head[p].(*BytesV); !ok || h.region != b.region {
				panic(unsupported("byte slice " + p.Comment + " moves to other memory in a loop"))
			}
			ex.useBytes(st, b, loopPos(l.li))
		}
	}
	if l.mode == "final" {
		return // established by the last Houdini pass with identical invariants
	}
	var goals []*Term
	var cs []*cand
	for _, c := range l.cands {
		if c.dead {
			continue
		}
		t := ex.evalCand(c, st, ph)
		if t == nil {
			c.dead = true
			l.changed = true
			continue
		}
		if ex.comparesBytes(t) {
			if !l.cheap && !ex.validDeep(t) {
				c.dead = true
				l.changed = true
				if os.Getenv("GCV_LOOPS") == "2" {
					fmt.Fprintf(os.Stderr, "   drop %s\n", c.desc)
				}
			}
			continue
		}
		goals = append(goals, t)
		cs = append(cs, c)
	}
	if !ex.validDeep(ex.tt.And(goals...)) {
		for i, c := range cs {
			if !ex.validDeep(goals[i]) {
				c.dead = true
				l.changed = true
				if os.Getenv("GCV_LOOPS") == "2" {
					fmt.Fprintf(os.Stderr, "   drop %s\n", c.desc)
				}
			}
		}
	}
	for _, m := range l.measures {
		if m.dead {
			continue
		}
		t := ex.evalCand(&cand{eval: m.eval}, st, ph)
		h := l.headM[m]
		if t == nil || h == nil || !ex.valid(ex.tt.And(ex.tt.Le(ex.tt.Int(0), h), ex.tt.Lt(t, h))) {
			m.dead = true
		}
	}
	// newly written heap names force another pass
	for n, bs := range l.writes {
		stable, whole := 0, false
		for b := range bs {
			switch {
			case b == nil || ex.variant(b, l):
				whole = true
			case b.isConst() && b.val.Sign() < 0 && b.val.IsInt64() && b.val.Int64() < -l.allocAt && b.val.Int64() > -1000000:
			default:
				stable++
			}
		}
		if whole {
			stable = -1
		}
		k := fmt.Sprintf("%s/%d", n, stable)
		if !l.seenW[k] {
			l.seenW[k] = true
			l.changed = true
		}
	}
}

// validDeep retries with one more level of unfolding.
func (ex *Exec) validDeep(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if ex.absBytes {
		if t.op == "and" {
			for _, a := range t.args {
				if !ex.validDeep(a) {
					return false
				}
			}
			return true
		}
		if t.op == "=" && t.args[0].sort == SBs {
			return ex.proveWords(t)
		}
	}
	ex.s.Push()
	defer ex.s.Pop()
	ex.assume(ex.tt.Not(t))
	r := ex.s.Check()
	if r == "unsat" {
		return true
	}
	if !t.specs {
		return false
	}
	ex.deepUnfold()
	return ex.s.Check() == "unsat"
}

const maxSplit = 24

// tripBound recognises counted loops whose trip count is at most maxSplit.
func (ex *Exec) tripBound(st *State, li *loopInfo, ph map[*ssa.Phi]Val) (bound, diff *Term) {
	fr := st.top()
	if ex.c != nil && ex.c.Opts["nounroll"] != "" {
		return nil, nil
	}
	outer := func(v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			if t, ok := ex.constVal(c).(*Term); ok {
				return t
			}
			return nil
		}
		if x, ok := fr.env[v]; ok {
			if in, ok := v.(ssa.Instruction); ok && li.blocks[in.Block()] {
				return nil
			}
			if t, ok := x.(*Term); ok {
				return t
			}
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if x, ok := fr.env[c.Call.Args[0]]; ok {
					if in, ok := c.Call.Args[0].(ssa.Instruction); ok && li.blocks[in.Block()] {
						return nil
					}
					if s, ok := x.(*SliceV); ok {
						return s.len
					}
				}
			}
		}
		return nil
	}
	for b := range li.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// one successor leaves the loop
		if li.blocks[b.Succs[0]] == li.blocks[b.Succs[1]] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS || !li.blocks[b.Succs[0]] {
			continue
		}
		var phi *ssa.Phi
		switch x := cmp.X.(type) {
		case *ssa.Phi:
			phi = x
		case *ssa.BinOp:
			if x.Op == token.ADD {
				phi, _ = x.X.(*ssa.Phi)
			}
		}
		if phi == nil || phi.Block() != li.header {
			continue
		}
		// the phi must be incremented on every back edge
		inc := true
		for i, e := range phi.Edges {
			if !li.blocks[phi.Block().Preds[i]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
				inc = false
				continue
			}
			if c, ok := bo.Y.(*ssa.Const); !ok || c.Int64() <= 0 {
				inc = false
			}
		}
		if !inc {
			continue
		}
		n := outer(cmp.Y)
		p0, ok := ph[phi].(*Term)
		if n == nil || !ok {
			continue
		}
		d := ex.tt.Sub(n, p0)
		if d.isConst() {
			if d.val.IsInt64() && d.val.Int64() <= 260 {
				return n, d
			}
			continue
		}
		if ex.valid(ex.tt.Le(d, ex.tt.Int(maxSplit))) {
			return n, d
		}
	}
	return nil, nil
}

// substDiff replaces a variable of diff so that diff == k holds syntactically.
func (ex *Exec) substDiff(st *State, diff *Term, k int64) {
	l := ex.tt.linOf(diff)
	for v, c := range l.cs {
		if v.op == "var" && c.IsInt64() && (c.Int64() == 1 || c.Int64() == -1) {
			rest := ex.tt.Sub(diff, ex.tt.Mul(ex.tt.Big(c), v))
			val := ex.tt.Sub(ex.tt.Int(k), rest)
			if c.Int64() == -1 {
				val = ex.tt.Neg(val)
			}
			ok := true
			val.walk(func(x *Term) bool {
				if x == v {
					ok = false
				}
				return ok
			})
			if !ok {
				continue
			}
			m := map[*Term]*Term{v: val}
			for n, t := range st.heap {
				st.heap[n] = ex.tt.subst(t, m)
			}
			for _, f := range st.frames {
				for key, x := range f.env {
					f.env[key] = ex.substVal(x, m)
				}
			}
			return
		}
	}
}

func (ex *Exec) substVal(v Val, m map[*Term]*Term) Val {
	switch x := v.(type) {
	case *Term:
		return ex.tt.subst(x, m)
	case *SliceV:
		n := *x
		n.base, n.off, n.len, n.cap = ex.tt.subst(x.base, m), ex.tt.subst(x.off, m), ex.tt.subst(x.len, m), ex.tt.subst(x.cap, m)
		if x.arr != nil {
			n.arr = ex.tt.subst(x.arr, m)
		}
		return &n
	case *PtrV:
		n := *x
		n.base = ex.tt.subst(x.base, m)
		if x.idx != nil {
			n.idx = ex.tt.subst(x.idx, m)
		}
		return &n
	case TupleV:
		var o TupleV
		for _, e := range x {
			o = append(o, ex.substVal(e, m))
		}
		return o
	}
	return v
}

// bounds lists loop invariant integer terms a loop may compare its variables with.
func (ex *Exec) loopBounds(st *State, li *loopInfo) []*Term {
	fr := st.top()
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if t != nil && t.sort == SInt && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for b := range li.blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if in2, ok := (*op).(ssa.Instruction); ok && li.blocks[in2.Block()] {
					continue
				}
				if c, ok := (*op).(*ssa.Const); ok {
					if bo, ok := in.(*ssa.BinOp); ok && isCmp(bo.Op) {
						if t, ok := ex.constVal(c).(*Term); ok {
							add(t)
						}
					}
					continue
				}
				// a captured or address-taken variable
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					_, isFree := (*op).(*ssa.FreeVar)
					_, isAlloc := (*op).(*ssa.Alloc)
					if _, ok := intOf(u.Type()); ok && (isFree || isAlloc) {
						p, _ := fr.env[*op].(*PtrV)
						if t, ok := fr.env[*op].(*Term); ok {
							p = ex.ptrTo(t, u.Type())
						}
						if p != nil && p.idx == nil {
							if t, ok := ex.load(st, p).(*Term); ok {
								add(t)
							}
						}
					}
				}
				switch x := fr.env[*op].(type) {
				case *SliceV:
					add(x.len)
				case *Term:
					if _, ok := intOf((*op).Type()); ok {
						add(x)
					}
				}
			}
		}
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			if s, ok := v.(*SliceV); ok {
				if _, isp := k.(*ssa.Parameter); isp {
					add(s.len)
				}
			}
		}
	}
	for _, v := range ex.params {
		if s, ok := v.(*SliceV); ok {
			add(s.len)
		}
	}
	sortTerms(out)
	return out
}

func isCmp(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return true
	}
	return false
}

func (ex *Exec) candidates(st *State, li *loopInfo, ph0 map[*ssa.Phi]Val) []*cand {
	tt := ex.tt
	var out []*cand
	add := func(desc string, f func(st *State, ph map[*ssa.Phi]Val) *Term) {
		out = append(out, &cand{desc: desc, eval: f})
	}
	setrepl := func(f func(ph map[*ssa.Phi]Val)) { out[len(out)-1].repl = f }
	bounds := ex.loopBounds(st, li)
	var ints, slices, others, bytesPhis []*ssa.Phi
	for _, p := range li.phis {
		switch ph0[p].(type) {
		case *SliceV:
			slices = append(slices, p)
			continue
		case *BytesV:
			bytesPhis = append(bytesPhis, p)
			continue
		}
		if _, ok := intOf(p.Type()); ok {
			ints = append(ints, p)
		} else {
			others = append(others, p)
		}
	}
	tm := func(ph map[*ssa.Phi]Val, p *ssa.Phi) *Term { return ex.term(ph[p]) }
	for _, p := range ints {
		p0 := tm(ph0, p)
		add(p.Name()+" >= init", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ge(tm(ph, p), p0) })
		add(p.Name()+" <= init", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Le(tm(ph, p), p0) })
		add(p.Name()+" == init", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Eq(tm(ph, p), p0) })
		setrepl(func(ph map[*ssa.Phi]Val) { ph[p] = ph0[p] })
		add(p.Name()+" >= 0", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ge(tm(ph, p), tt.Int(0)) })
		for _, b := range bounds {
			add(fmt.Sprintf("%s <= %s", p.Name(), b), func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Le(tm(ph, p), b) })
			add(fmt.Sprintf("%s < %s", p.Name(), b), func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Lt(tm(ph, p), b) })
			add(fmt.Sprintf("%s >= %s", p.Name(), b), func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ge(tm(ph, p), b) })
		}
	}
	for i, p := range ints {
		for _, q := range ints[i+1:] {
			d0 := tt.Sub(tm(ph0, p), tm(ph0, q))
			add(fmt.Sprintf("%s-%s const", p.Name(), q.Name()), func(st *State, ph map[*ssa.Phi]Val) *Term {
				return tt.Eq(tt.Sub(tm(ph, p), tm(ph, q)), d0)
			})
			add(fmt.Sprintf("%s<=%s", p.Name(), q.Name()), func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Le(tm(ph, p), tm(ph, q)) })
			add(fmt.Sprintf("%s>=%s", p.Name(), q.Name()), func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ge(tm(ph, p), tm(ph, q)) })
		}
	}
	for _, p := range slices {
		s0 := ph0[p].(*SliceV)
		sl := func(ph map[*ssa.Phi]Val) *SliceV { return ph[p].(*SliceV) }
		add(p.Name()+" base", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Eq(sl(ph).base, s0.base) })
		setrepl(func(ph map[*ssa.Phi]Val) { c := *sl(ph); c.base = s0.base; ph[p] = &c })
		add(p.Name()+" off", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Eq(sl(ph).off, s0.off) })
		setrepl(func(ph map[*ssa.Phi]Val) { c := *sl(ph); c.off = s0.off; ph[p] = &c })
		add(p.Name()+" same", func(st *State, ph map[*ssa.Phi]Val) *Term {
			s := sl(ph)
			return tt.And(tt.Eq(s.base, s0.base), tt.Eq(s.off, s0.off), tt.Eq(s.len, s0.len), tt.Eq(s.cap, s0.cap))
		})
		setrepl(func(ph map[*ssa.Phi]Val) { ph[p] = s0 })
		add(p.Name()+" end", func(st *State, ph map[*ssa.Phi]Val) *Term {
			return tt.Eq(tt.Add(sl(ph).off, sl(ph).len), tt.Add(s0.off, s0.len))
		})
		add(p.Name()+" capend", func(st *State, ph map[*ssa.Phi]Val) *Term {
			return tt.Eq(tt.Add(sl(ph).off, sl(ph).cap), tt.Add(s0.off, s0.cap))
		})
		add(p.Name()+" off>=", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ge(sl(ph).off, s0.off) })
		add(p.Name()+" len<=", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Le(sl(ph).len, s0.len) })
		add(p.Name()+" len>=", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ge(sl(ph).len, s0.len) })
		add(p.Name()+" nonnil", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ne(sl(ph).base, tt.Int(0)) })
		for _, q := range ints {
			add(fmt.Sprintf("%s <= len %s", q.Name(), p.Name()), func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Le(tm(ph, q), sl(ph).len) })
			add(fmt.Sprintf("len %s >= %s+8", p.Name(), q.Name()), func(st *State, ph map[*ssa.Phi]Val) *Term {
				return tt.Le(tt.Add(tm(ph, q), tt.Int(8)), sl(ph).len)
			})
		}
	}
	for _, p := range others {
		if ph0[p] == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			p0 := tm(ph0, p)
			add(p.Name()+" == init", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Eq(tm(ph, p), p0) })
			setrepl(func(ph map[*ssa.Phi]Val) { ph[p] = ph0[p] })
			if p0.sort == SInt {
				add(p.Name()+" != 0", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Ne(tm(ph, p), tt.Int(0)) })
				add(p.Name()+" == 0", func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Eq(tm(ph, p), tt.Int(0)) })
			}
		}()
	}
	// templates from the contract
	if ex.c != nil {
		for _, cl := range ex.c.Clauses {
			if cl.Kind != "inv" && cl.Kind != "conserve" {
				continue
			}
			ex.templateCands(st, cl, li, ph0, bounds, ints, slices, bytesPhis, others, &out)
		}
	}
	return out
}

func (ex *Exec) templateCands(st *State, cl *Clause, li *loopInfo, ph0 map[*ssa.Phi]Val, bounds []*Term, ints, slices, bytesPhis, others []*ssa.Phi, out *[]*cand) {
	metas := map[string]bool{}
	walkExpr(cl.E[0], func(e *Expr) {
		if e.K == "ident" && strings.HasPrefix(e.S, "$") && len(e.S) == 2 {
			metas[e.S] = true
		}
	})
	var names []string
	for m := range metas {
		names = append(names, m)
	}
	sort.Strings(names)
	type binding map[string]any // *ssa.Phi or *Term
	var rec func(i int, b binding)
	count := 0
	rec = func(i int, b binding) {
		if count > 400 {
			return
		}
		if i == len(names) {
			count++
			bb := binding{}
			for k, v := range b {
				bb[k] = v
			}
			evalOf := func(e *Expr, st *State, ph map[*ssa.Phi]Val) *Term {
				env := ex.specEnv(st)
				for k, v := range bb {
					switch x := v.(type) {
					case *ssa.Phi:
						env.vars[k] = tval{ph[x], x.Type()}
					case *Term:
						env.vars[k] = tval{x, types.Typ[types.Int]}
					case scopeVal:
						env.vars[k] = tval(x)
					}
				}
				return ex.asTerm(ex.eval(env, e))
			}
			ev := func(st *State, ph map[*ssa.Phi]Val) *Term { return evalOf(cl.E[0], st, ph) }
			if len(cl.E) > 1 {
				// only where this holds when the loop is entered
				c := ex.evalCand(&cand{eval: func(st *State, ph map[*ssa.Phi]Val) *Term { return evalOf(cl.E[1], st, ph) }}, st, ph0)
				if c == nil || !ex.valid(c) {
					return
				}
			}
			desc := cl.Src
			for k, v := range bb {
				switch x := v.(type) {
				case *ssa.Phi:
					desc += " " + k + "=" + x.Name()
				case *Term:
					desc += " " + k + "=" + trunc(x.String(), 40)
				case scopeVal:
					desc += " " + k + "=..."
				}
			}
			if cl.Kind == "inv" {
				*out = append(*out, &cand{desc: "inv " + desc, tags: cl.Tags, eval: ev})
				return
			}
			e0 := ex.evalCand(&cand{eval: ev}, st, ph0)
			if e0 == nil {
				return
			}
			*out = append(*out, &cand{desc: "conserve " + desc, tags: cl.Tags, eval: func(st *State, ph map[*ssa.Phi]Val) *Term {
				return ex.tt.Eq(ev(st, ph), e0)
			}})
			return
		}
		n := names[i]
		var pool []any
		switch n[1] {
		case 'p', 'q', 'i', 'j':
			for _, p := range ints {
				pool = append(pool, p)
			}
		case 's', 't':
			for _, p := range slices {
				pool = append(pool, p)
			}
		case 'b':
			for _, p := range bytesPhis {
				pool = append(pool, p)
			}
		case 'r':
			for _, p := range others {
				pool = append(pool, p)
			}
		case 'x', 'f', 'v', 'o', 'l', 'd':
			pool = ex.scopePool(st, li, n[1])
		case 'n', 'm':
			for _, t := range bounds {
				pool = append(pool, t)
			}
		}
		for _, x := range pool {
			dup := false
			for _, y := range b {
				if x == y {
					dup = true
				}
			}
			if dup {
				continue
			}
			b[n] = x
			rec(i+1, b)
			delete(b, n)
		}
	}
	rec(0, binding{})
}

func (ex *Exec) loopMeasures(st *State, li *loopInfo, ph0 map[*ssa.Phi]Val) []*measure {
	tt := ex.tt
	var out []*measure
	bounds := ex.loopBounds(st, li)
	for _, p := range li.phis {
		switch ph0[p].(type) {
		case *SliceV:
			out = append(out, &measure{desc: "len " + p.Name(), eval: func(st *State, ph map[*ssa.Phi]Val) *Term { return ph[p].(*SliceV).len }})
			continue
		}
		if _, ok := intOf(p.Type()); !ok {
			continue
		}
		tm := func(ph map[*ssa.Phi]Val) *Term { return ex.term(ph[p]) }
		out = append(out, &measure{desc: p.Name(), eval: func(st *State, ph map[*ssa.Phi]Val) *Term { return tm(ph) }})
		for _, b := range bounds {
			out = append(out, &measure{desc: fmt.Sprintf("%s - %s", b, p.Name()), eval: func(st *State, ph map[*ssa.Phi]Val) *Term { return tt.Sub(b, tm(ph)) }})
		}
		for _, q := range li.phis {
			if _, ok := ph0[q].(*SliceV); ok {
				out = append(out, &measure{desc: fmt.Sprintf("len %s - %s", q.Name(), p.Name()), eval: func(st *State, ph map[*ssa.Phi]Val) *Term {
					return tt.Sub(ph[q].(*SliceV).len, tm(ph))
				}})
			}
		}
	}
	if ex.c != nil {
		var ints, slices, bytesPhis, others []*ssa.Phi
		for _, p := range li.phis {
			switch ph0[p].(type) {
			case *SliceV:
				slices = append(slices, p)
			case *BytesV:
				bytesPhis = append(bytesPhis, p)
			case *Term:
				if _, ok := intOf(p.Type()); ok {
					ints = append(ints, p)
				} else {
					others = append(others, p)
				}
			}
		}
		for _, cl := range ex.c.Clauses {
			if cl.Kind != "measure" {
				continue
			}
			k := *cl
			k.Kind = "inv"
			var cs []*cand
			ex.templateCands(st, &k, li, ph0, bounds, ints, slices, bytesPhis, others, &cs)
			for _, c := range cs {
				out = append(out, &measure{desc: c.desc, eval: c.eval})
			}
		}
	}
	// trusted finite iterators
	out = append(out, &measure{desc: "iterator", eval: func(st *State, ph map[*ssa.Phi]Val) *Term {
		t, ok := st.heap["$g:iter"]
		if !ok {
			panic(specErr{"no iterator"})
		}
		return t
	}})
	for _, r := range li.phis {
		if !types.Identical(r.Type(), r.Type()) {
			continue
		}
		if ex.v.rankOf(r.Type()) != "" {
			out = append(out, &measure{desc: "rank " + r.Name(), eval: func(st *State, ph map[*ssa.Phi]Val) *Term {
				return tt.App(ex.v.rankOf(r.Type()), SInt, ex.term(ph[r]))
			}})
		}
	}
	return out
}

// havocAssigned forgets values whose object changes in place inside the loop, keeping what the type fixes.
func (ex *Exec) havocAssigned(st *State, l *loopCtx) {
	olds := map[*Term]*Term{}
	for k := range l.assigned {
		if k.frame >= len(st.frames) {
			continue
		}
		f := st.frames[k.frame]
		if old, ok := f.env[k.v].(*Term); ok {
			nw := olds[old]
			if nw == nil {
				nw = ex.tt.Fresh("changed", old.sort)
				olds[old] = nw
				if old.sort == SInt && ex.v.specs.Funs["vtyp"] != nil {
					ex.assume(ex.tt.Lt(ex.tt.Int(0), nw))
					for _, fn := range []string{"vtyp", "ro"} {
						srt := sortOfName(ex.v.specs.Funs[fn].Res)
						ex.assume(ex.tt.Eq(ex.tt.App("u:"+fn, srt, nw), ex.tt.App("u:"+fn, srt, old)))
					}
				}
			}
		}
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			if t, ok := v.(*Term); ok && olds[t] != nil {
				f.env[k] = olds[t]
			}
		}
	}
}

type scopeVal tval

// scopePool lists the values in scope a template variable may stand for.
func (ex *Exec) scopePool(st *State, li *loopInfo, kind byte) []any {
	var out []any
	var ks []ssa.Value
	fr := st.top()
	used := map[ssa.Value]bool{}
	for b := range li.blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					used[*op] = true
					if f, ok := (*op).(*ssa.FieldAddr); ok {
						used[f.X] = true
					}
				}
			}
		}
	}
	for k := range fr.env {
		if kind == 'v' {
			in, ok := k.(ssa.Instruction)
			if _, isp := k.(*ssa.Parameter); !isp && !used[k] || ok && li.blocks[in.Block()] {
				continue
			}
		}
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
	seen := map[string]bool{}
	for _, k := range ks {
		if kind == 'o' || kind == 'l' || kind == 'd' {
			in, ok := k.(ssa.Instruction)
			if !ok || li.blocks[in.Block()] || !used[k] {
				continue
			}
			if _, ok := fr.env[k].(*SliceV); ok && kind == 'l' {
				out = append(out, scopeVal{fr.env[k], k.Type()})
			}
			if _, ok := under(k.Type()).(*types.Map); ok && kind == 'd' {
				out = append(out, scopeVal{fr.env[k], k.Type()})
			}
			if p, ok := k.Type().Underlying().(*types.Pointer); ok && kind == 'o' {
				if _, ok := under(p.Elem()).(*types.Struct); ok && !seen[fmt.Sprint(fr.env[k])] {
					seen[fmt.Sprint(fr.env[k])] = true
					out = append(out, scopeVal{fr.env[k], k.Type()})
				}
			}
			continue
		}
		switch v := fr.env[k].(type) {
		case *SliceV:
			if _, ok := under(v.elem).(*types.Struct); !ok || kind != 'f' {
				continue
			}
			key := v.base.String() + "/" + v.off.String() + "/" + v.len.String()
			if seen[key] {
				continue
			}
			seen[key] = true
			out = append(out, scopeVal{v, k.Type()})
		case *Term:
			want := map[byte]string{'x': "*reflect.MapIter", 'v': "reflect.Value"}[kind]
			if want == "" || types.TypeString(k.Type(), nil) != want || seen[v.String()] {
				continue
			}
			seen[v.String()] = true
			out = append(out, scopeVal{v, k.Type()})
		}
	}
	return out
}

// comparesBytes: the formula equates byte sequences.
func (ex *Exec) comparesBytes(t *Term) bool {
	if t.op == "=" && t.args[0].sort == SBs {
		return true
	}
	if t.sort != SBool || t.op == "app" {
		return false
	}
	for _, a := range t.args {
		if ex.comparesBytes(a) {
			return true
		}
	}
	return false
}
