package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) doCall(st *State, call *ssa.Call, c *ssa.CallCommon) bool {
	var args []Val
	if c.IsInvoke() {
		args = append(args, ex.val(st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return ex.callCommon(st, call, c, args, call.Pos())
}

// callCommon executes a call; returns whether the path continues in the current run loop.
func (ex *Exec) callCommon(st *State, call *ssa.Call, c *ssa.CallCommon, args []Val, pos token.Pos) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		r := ex.builtin(st, b, c, args, pos)
		if call != nil && r != nil {
			st.top().env[call] = r
		}
		return true
	}
	sig := c.Signature()
	var name string
	var ct *Contract
	var fn *ssa.Function
	var binds []Val
	if c.IsInvoke() {
		recv := ex.term(args[0])
		name = ex.v.tname(c.Value.Type()) + "." + c.Method.Name()
		ct = ex.v.contract("iface:"+name, ex.fn)
		if !(recv.isConst() && recv.val.Sign() != 0) {
			if w := ex.filled[recv]; w != "" {
				ex.trusted["field "+w+" is set before it is used"] = true
				ex.assume(ex.tt.Ne(recv, ex.tt.Int(0)))
			} else {
				ex.safe(st, ex.tt.Ne(recv, ex.tt.Int(0)), "method call on nil interface", pos)
			}
		}
		if mt, known := ex.ifaceMk[recv]; known {
			if m := ex.v.prog.LookupMethod(mt, c.Method.Pkg(), c.Method.Name()); m != nil {
				fn = m
				args[0] = ex.mkVal[recv]
				name = ex.v.fname(fn)
				if k := ex.v.contractFor(fn, ex.fn); k != nil {
					ct = k
				} else if ct == nil {
					ct = nil
				} else if ex.v.isModule(fn) {
					// the interface contract binds every implementation; keep the interface argument
					args[0] = recv
				}
			}
		}
		if fn == nil && ct == nil {
			if r, ok := ex.special(st, name, nil, args, c, pos); ok {
				ex.setResult(st, call, r)
				return true
			}
			panic(unsupported("call of interface method " + name + " without a contract"))
		}
	} else {
		fv := ex.val(st, c.Value)
		switch f := fv.(type) {
		case *FuncV:
			fn, binds = f.fn, f.binds
			name = ex.v.fname(fn)
		default:
			// dynamic function value
			t := ex.term(fv)
			if k, ok := ex.funcs[t]; ok {
				fn, binds = k.fn, k.binds
				name = ex.v.fname(fn)
				break
			}
			name = ex.v.tname(c.Value.Type())
			ct = ex.v.specs.Contracts["functype:"+name]
			if ct == nil {
				panic(unsupported("call of function value of type " + name + " without a contract"))
			}
			if w := ex.filled[t]; w != "" {
				ex.trusted["function field "+w+" is set before it is called"] = true
				ex.assume(ex.tt.Ne(t, ex.tt.Int(0)))
			} else {
				ex.safe(st, ex.tt.Ne(t, ex.tt.Int(0)), "call of nil function", pos)
			}
			args = append([]Val{t}, args...)
		}
	}
	if fn != nil && ct == nil {
		ct = ex.v.contractFor(fn, ex.fn)
		if ct == nil {
			if ft := ex.v.closureType(fn); ft != nil && len(binds) > 0 && !ex.absBytes {
				// closures of a contracted function type are called through that contract
				ct = ft
				args = append([]Val{ex.funcVal2(fn, binds)}, args...)
			}
		}
	}
	ex.called[name] = true
	evName, evArgs := name, args
	if ct != nil && ct.Self != nil {
		evName = ct.Opts["impl"]
		evArgs = append([]Val{ex.mkIface(args[0], ct.Self)}, args[1:]...)
	}
	after := ex.events(st, evName, evArgs, c.Signature(), pos)
	done := func(st *State, rs []Val) {
		ex.afterEvents(st, after, rs, pos)
		ex.setResult(st, call, rs)
	}
	noteErr := func(st *State, rs []Val) {
		n := sig.Results().Len()
		if n > 0 && len(rs) == n && types.TypeString(sig.Results().At(n-1).Type(), nil) == "error" {
			e := ex.tt.Ne(ex.term(rs[n-1]), ex.tt.Int(0))
			if st.suberr == nil {
				st.suberr = e
			} else {
				st.suberr = ex.tt.Or(st.suberr, e)
			}
		}
	}
	if r, ok := ex.special(st, name, fn, args, c, pos); ok {
		noteErr(st, r)
		done(st, r)
		return true
	}
	if ct != nil {
		if ct.Kind == "extern" {
			ex.trusted["extern "+ct.Name] = true
		}
		rs := ex.applyContract(st, ct, args, sig, pos)
		noteErr(st, rs)
		if cond, yes := ex.returnsOf(st, ct, rs); cond != nil {
			ex.branch(st, cond, func(s *State) bool { done(s, yes); return true }, func(s *State) bool { done(s, rs); return true })
			return false
		}
		done(st, rs)
		return true
	}
	if fn != nil && fn.Blocks != nil && ex.v.isModule(fn) {
		for _, f := range st.frames {
			if f.fn == fn {
				panic(unsupported("recursive call of " + name + " without a contract"))
			}
		}
		if len(st.frames) > 24 {
			panic(unsupported("inlining depth"))
		}
		fr := ex.newFrame(fn, args, binds)
		if len(after) > 0 {
			fr.onRet = func(s *State, rs []Val) bool {
				s.frames = s.frames[:len(s.frames)-1]
				ex.afterEvents(s, after, rs, pos)
				ex.setResult(s, call, rs)
				return true
			}
		}
		fr.retTo = call
		st.frames = append(st.frames, fr)
		return true
	}
	// external function without a contract
	if fn != nil && ex.pureExtern(fn) {
		ex.trusted["pure, total: "+name] = true
		rs := ex.freshResults(name, sig)
		noteErr(st, rs)
		done(st, rs)
		return true
	}
	panic(unsupported("call of external function " + name + " without a contract"))
}

func (ex *Exec) funcVal2(fn *ssa.Function, binds []Val) Val {
	for _, f := range ex.funcs {
		if f.fn == fn && len(f.binds) == len(binds) {
			same := true
			for i := range binds {
				if f.binds[i] != binds[i] {
					same = false
				}
			}
			if same {
				return f.term
			}
		}
	}
	return ex.funcVal(fn, binds).term
}

func (ex *Exec) newFrame(fn *ssa.Function, args, binds []Val) *frame {
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("argument count for %s: %d vs %d", fn, len(args), len(fn.Params))))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	return fr
}

func (ex *Exec) pureExtern(fn *ssa.Function) bool {
	p := fn.Pkg
	var path string
	if p != nil {
		path = p.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	switch path {
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
	case "errors", "strconv", "strings", "unicode", "unicode/utf8", "unicode/utf16", "math", "bytes", "math/bits", "slices", "cmp":
		if fn.Signature.Recv() != nil {
			return false
		}
		// functions writing through a slice argument are not pure
		if strings.HasPrefix(fn.Name(), "Append") || strings.HasPrefix(fn.Name(), "Encode") || path == "slices" {
			return false
		}
		return true
	}
	return false
}

func (ex *Exec) freshResults(name string, sig *types.Signature) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, ex.freshVal("r."+name, sig.Results().At(i).Type()))
	}
	if name == "fmt.Errorf" || name == "errors.New" {
		ex.assume(ex.tt.Lt(ex.tt.Int(0), ex.term(rs[0])))
	}
	return rs
}

type pendingEvent struct {
	cl   *Clause
	args []Val
	typs []types.Type
	sub  []*Clause
	env  map[string]tval
}

func matchCallee(pat, name string) bool {
	if pat == name {
		return true
	}
	if strings.HasPrefix(pat, "*") {
		return strings.HasSuffix(name, pat[1:])
	}
	return false
}

// events runs the "on" clauses of the contract under verification for a call.
func (ex *Exec) events(st *State, name string, args []Val, sig *types.Signature, pos token.Pos) []*pendingEvent {
	if ex.c == nil || ex.initing {
		return nil
	}
	var out []*pendingEvent
	for _, cl := range ex.c.Clauses {
		if cl.Kind != "on" || !matchCallee(cl.Call, name) {
			continue
		}
		env := map[string]tval{}
		i := 0
		for _, v := range cl.Vars {
			if v == "=>" {
				break
			}
			if i < len(args) && v != "_" {
				var t types.Type
				// receivers come first
				if k := i - (len(args) - sig.Params().Len()); k >= 0 && k < sig.Params().Len() {
					if _, ok := args[i].(*Term); ok {
						t = sig.Params().At(k).Type()
					}
				}
				env[v] = tval{args[i], t}
			}
			i++
		}
		pe := &pendingEvent{cl: cl, env: env}
		usesResult := func(sc *Clause) bool {
			found := false
			seen := false
			for _, v := range cl.Vars {
				if v == "=>" {
					seen = true
					continue
				}
				if seen {
					for _, e := range sc.E {
						walkExpr(e, func(x *Expr) {
							if x.K == "ident" && x.S == v {
								found = true
							}
						})
					}
				}
			}
			return found
		}
		for _, sc := range cl.Sub {
			if usesResult(sc) || sc.Kind == "assume" || sc.Kind == "ensures" {
				pe.sub = append(pe.sub, sc)
				continue
			}
			if sc.Kind == "set" && len(pe.sub) > 0 {
				pe.sub = append(pe.sub, sc)
				continue
			}
			ex.doSub(st, cl, sc, env, pos, name)
		}
		out = append(out, pe)
	}
	return out
}

func (ex *Exec) doSub(st *State, cl, sc *Clause, vars map[string]tval, pos token.Pos, name string) {
	env := ex.specEnv(st)
	for k, v := range vars {
		env.vars[k] = v
	}
	env.ovar = env.vars
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				panic(unsupported(sc.Pos + ": " + se.msg))
			}
			panic(r)
		}
	}()
	switch sc.Kind {
	case "requires", "ensures":
		t := ex.asTerm(ex.eval(env, sc.E[0]))
		lbl := sc.Label
		if lbl == "" {
			lbl = sc.Src
		}
		ex.prove(st, t, "call "+name, lbl, sc.Tags, ex.poss(pos))
	case "assume":
		ex.trusted["assume "+sc.Pos+" "+sc.Src] = true
		ex.assume(ex.asTerm(ex.eval(env, sc.E[0])))
	case "set":
		t := ex.asTerm(ex.eval(env, sc.E[0]))
		g := strings.TrimPrefix(sc.Label, "$")
		ex.ghost(st, g)
		st.heap["$g:"+g] = t
		ex.noteWrite(st, "$g:"+g, nil)
	}
}

func (ex *Exec) afterEvents(st *State, pes []*pendingEvent, rs []Val, pos token.Pos) {
	for _, pe := range pes {
		i := -1
		for _, v := range pe.cl.Vars {
			if v == "=>" {
				i = 0
				continue
			}
			if i >= 0 {
				if i < len(rs) && v != "_" {
					pe.env[v] = tval{rs[i], nil}
				}
				i++
			}
		}
		for _, sc := range pe.sub {
			ex.doSub(st, pe.cl, sc, pe.env, pos, pe.cl.Call)
		}
	}
}

// contractEnv binds parameter names of a contract positionally.
func (ex *Exec) contractEnv(st *State, ct *Contract, args []Val, sig *types.Signature) *senv {
	e := &senv{vars: map[string]tval{}, st: st}
	off := len(args) - sig.Params().Len()
	for i, n := range ct.Params {
		if i >= len(args) {
			break
		}
		var t types.Type
		if i-off >= 0 && i-off < sig.Params().Len() {
			t = sig.Params().At(i - off).Type()
		} else if sig.Recv() != nil {
			t = sig.Recv().Type()
		}
		e.vars[n] = tval{args[i], t}
		if i == 0 && ct.Self != nil {
			e.vars["self"] = tval{args[0], ct.Self}
			e.vars[n] = tval{ex.mkIface(args[0], ct.Self), ct.Iface}
		}
	}
	return e
}

func (ex *Exec) applyContract(st *State, ct *Contract, args []Val, sig *types.Signature, pos token.Pos) []Val {
	if ct.Kind == "func" || ct.Kind == "iface" && ct.Opts["pure"] == "" || ct.Kind == "functype" {
		ex.bumpEpoch(st)
	}
	env := ex.contractEnv(st, ct, args, sig)
	if ct.Kind != "extern" && ct.Kind != "iface" && ct.Kind != "functype" && sig.Recv() != nil {
		if _, ok := under(sig.Recv().Type()).(*types.Pointer); ok {
			r := ex.refTerm(args[0])
			if w := ex.filled[r]; w != "" {
				ex.trusted["field "+w+" is set before it is used"] = true
				ex.assume(ex.tt.Ne(r, ex.tt.Int(0)))
			} else if !r.isConst() {
				ex.safe(st, ex.tt.Ne(r, ex.tt.Int(0)), "nil receiver", pos)
			}
		}
	}
	pre := st.clone()
	env.old = pre
	env.ovar = env.vars
	fail := func(cl *Clause) {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				panic(unsupported(cl.Pos + ": " + se.msg))
			}
			panic(r)
		}
	}
	for _, cl := range ct.Clauses {
		if cl.Kind != "requires" || ct.usesForall(cl) {
			continue
		}
		func() {
			defer fail(cl)
			t := ex.asTerm(ex.eval(env, cl.E[0]))
			lbl := cl.Label
			if lbl == "" {
				lbl = cl.Src
			}
			tags := cl.Tags
			if tags == nil {
				tags = ex.safetyTags()
			}
			ex.prove(st, t, "precondition of "+ct.Name, lbl, tags, ex.poss(pos))
		}()
	}
	// termination of recursion
	if d := ex.decreasesOf(ct); d != nil && ex.c != nil && ex.entry != nil {
		if md := ex.decreasesOf(ex.c); md != nil && len(d.E) == len(md.E) {
			func() {
				defer fail(d)
				me := ex.specEnv(ex.entry)
				var callee, caller []*Term
				for i := range d.E {
					callee = append(callee, ex.asTerm(ex.eval(env, d.E[i])))
					caller = append(caller, ex.asTerm(ex.eval(me, md.E[i])))
				}
				g := ex.tt.Bool(false)
				for i := len(callee) - 1; i >= 0; i-- {
					lt := ex.tt.And(ex.tt.Le(ex.tt.Int(0), caller[i]), ex.tt.Lt(callee[i], caller[i]))
					g = ex.tt.Or(lt, ex.tt.And(ex.tt.Eq(callee[i], caller[i]), g))
				}
				tags := d.Tags
				if tags == nil {
					tags = ex.safetyTags()
				}
				ex.prove(st, g, "termination", "recursive call of "+ct.Name+" decreases the measure", tags, ex.poss(pos))
			}()
		}
	}
	// frame: everything the callee may modify is havoced
	for _, cl := range ct.Clauses {
		if cl.Kind != "modifies" {
			continue
		}
		for _, n := range cl.Vars {
			ex.havocName(st, n, pos)
		}
	}
	// results
	var rs []Val
	if p, ok := ct.Opts["pure"]; ok {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, ex.flatArg(st, a)...)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			var cs []*Term
			for _, c := range ex.comps(t) {
				nm := p
				if i > 0 {
					nm += "#" + strconv.Itoa(i)
				}
				cs = append(cs, ex.tt.App("u:"+nm+c.suffix, c.sort, ts...))
			}
			v, _ := ex.unflatten(cs, t)
			ex.assumeType(v, t)
			rs = append(rs, v)
			if len(cs) == 1 && len(ex.v.specs.Axioms[p]) > 0 {
				var vs []tval
				for _, a := range ts {
					vs = append(vs, tval{a, nil})
				}
				ex.axioms(p, cs[0], vs)
			}
		}
	} else {
		fresh := map[string]bool{}
		for _, cl := range ct.Clauses {
			if cl.Kind == "fresh" {
				for _, v := range cl.Vars {
					fresh[v] = true
				}
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if i < len(ct.Results) && fresh[ct.Results[i]] {
				if _, ok := under(t).(*types.Slice); ok {
					sv := ex.freshVal("r."+ct.Name, t).(*SliceV)
					sv.base = ex.alloc(t)
					rs = append(rs, sv)
					continue
				}
				rs = append(rs, ex.alloc(t))
				continue
			}
			rs = append(rs, ex.freshVal("r."+ct.Name, t))
		}
	}
	for _, a := range args {
		if t, ok := a.(*Term); ok && ct.Kind != "extern" && t.sort == SInt {
			var except *Region
			if b, ok := env.vars[ct.Opts["samebuf"]].v.(*BytesV); ok {
				except = b.region
			}
			ex.clobber(st, t, except)
		}
	}
	if b, ok := env.vars[ct.Opts["samebuf"]].v.(*BytesV); ok {
		ex.useBytes(st, b, pos)
		if r, ok := rs[0].(*BytesV); ok {
			n := *r
			n.region = b.region
			ex.bump(st, b, &n)
			rs[0] = &n
		}
	} else if ct.Opts["samebuf"] != "" { // result 0 is a window of the named slice argument
		if s, ok := env.vars[ct.Opts["samebuf"]].v.(*SliceV); ok {
			if r, ok := rs[0].(*SliceV); ok {
				n := *r
				n.elem = s.elem
				n.heap = s.heap
				rs[0] = &n
			}
		}
	}
	for i, n := range ct.Results {
		if i < len(rs) {
			env.vars[n] = tval{rs[i], sig.Results().At(i).Type()}
		}
	}
	env.st = st
	ex.lastEnv = env
	for _, cl := range ct.Clauses {
		switch cl.Kind {
		case "ensures", "assume":
			if ct.usesForall(cl) || ct.Kind != "extern" && ex.v.usesLocal(cl) {
				continue
			}
			func() {
				defer fail(cl)
				if ct.Kind == "extern" || cl.Kind == "assume" {
					ex.trusted[ct.Kind+" "+ct.Name] = true
				}
				ex.assume(ex.asTerm(ex.eval(env, cl.E[0])))
			}()
		case "becomes":
			func() {
				defer fail(cl)
				t := ex.asTerm(ex.eval(env, cl.E[0]))
				ex.becomes(st, ex.asTerm(env.vars[cl.Label]), t)
			}()
		case "set":
			func() {
				defer fail(cl)
				t := ex.asTerm(ex.eval(env, cl.E[0]))
				g := strings.TrimPrefix(cl.Label, "$")
				ex.ghost(st, g)
				if !ex.v.specs.LocalG[g] {
					ex.checkFrame(st, "$g:"+g, nil, pos)
				}
				st.heap["$g:"+g] = t
				ex.noteWrite(st, "$g:"+g, nil)
			}()
		}
	}
	return rs
}

func (ex *Exec) flatArg(st *State, a Val) []*Term {
	switch x := a.(type) {
	case *SliceV:
		arr := ex.sliceArr(st, x)
		if arr == nil {
			return []*Term{x.base, x.off, x.len}
		}
		return []*Term{arr, x.off, x.len}
	case *StructV:
		var out []*Term
		for _, f := range x.fields {
			out = append(out, ex.flatArg(st, f)...)
		}
		return out
	}
	return []*Term{ex.term(a)}
}

func (ex *Exec) decreasesOf(c *Contract) *Clause {
	for _, cl := range c.Clauses {
		if cl.Kind == "decreases" {
			return cl
		}
	}
	return nil
}

func (ex *Exec) havocName(st *State, n string, pos token.Pos) {
	if ex.c != nil && !ex.modAllowed(ex.c, n) && ex.c.Opts["noframe"] == "" && !ex.initing {
		ex.prove(st, ex.tt.Bool(false), "frame", "callee modifies "+n+" outside the frame", ex.frameTags(), ex.poss(pos))
	}
	for h, t := range st.heap {
		if h == n || strings.HasSuffix(n, "*") && strings.HasPrefix(h, n[:len(n)-1]) {
			st.heap[h] = ex.tt.Fresh("h."+h, t.sort)
			ex.noteWrite(st, h, nil)
		}
	}
	if strings.HasPrefix(n, "$g:") && !strings.HasSuffix(n, "*") {
		g := n[3:]
		ex.ghost(st, g)
		st.heap[n] = ex.tt.Fresh("h."+n, ex.v.ghostSort(g))
		ex.noteWrite(st, n, nil)
		return
	}
	ex.tt.fresh++
	st.havocs = append(st.havocs, havocRec{n, ex.tt.fresh})
	ex.noteWrite(st, n, nil)
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	tt := ex.tt
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return x.len
		case *BytesV:
			return ex.bslen(x.t)
		case *ArrayV:
			return tt.Int(x.n)
		}
		switch under(c.Args[0].Type()).(type) {
		case *types.Basic:
			return ex.slen(ex.term(args[0]))
		case *types.Map:
			r := tt.App("maplen", SInt, ex.mapDom(st, ex.term(args[0]), c.Args[0].Type()))
			ex.assume(tt.Le(tt.Int(0), r))
			return r
		case *types.Pointer:
			return tt.Int(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			return x.cap
		}
		r := tt.Fresh("cap", SInt)
		if x, ok := args[0].(*BytesV); ok {
			ex.assume(tt.Le(ex.bslen(x.t), r))
			return r
		}
	case "min", "max":
		r := ex.term(args[0])
		for _, a := range args[1:] {
			t := ex.term(a)
			le := tt.Le(r, t)
			if b.Name() == "max" {
				le = tt.Le(t, r)
			}
			r = tt.Ite(le, r, t)
		}
		return r
	case "copy":
		return ex.copyB(st, c, args, pos)
	case "append":
		return ex.appendB(st, c, args, pos)
	case "delete":
		ex.mapDelete(st, ex.term(args[0]), args[1], c.Args[0].Type(), pos)
		return nil
	case "SliceData":
		s := args[0].(*SliceV)
		return &PtrV{heap: ex.sliceHeap(s), base: s.base, idx: s.off, typ: s.elem}
	case "String":
		p := args[0].(*PtrV)
		n := ex.term(args[1])
		arr := tt.Select(ex.heapGet(st, p.heap, SArr(SArr(SInt))), p.base)
		u := tt.App("ustrof", SInt, arr, p.idx, n)
		ex.assume(tt.Eq(u, tt.App("strof", SInt, arr, p.idx, n)))
		return u
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return nil
	case "recover":
		return tt.Int(0)
	}
	panic(unsupported("builtin " + b.Name()))
}

func (ex *Exec) copyB(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	tt := ex.tt
	if d, ok := args[0].(*BytesV); ok {
		return ex.copyBytes(st, d, args[1], pos)
	}
	d := args[0].(*SliceV)
	n := d.len
	var sl *Term
	var srcArr, srcOff *Term
	if s, ok := args[1].(*SliceV); ok {
		sl = s.len
		srcArr, srcOff = ex.sliceArr(st, s), s.off
	} else {
		sl = ex.slen(ex.term(args[1]))
	}
	n = tt.Ite(tt.Le(d.len, sl), d.len, sl)
	if ex.valid(tt.Eq(d.len, sl)) {
		n = d.len
	}
	name := ex.sliceHeap(d)
	ex.checkFrame(st, name, d.base, pos)
	h := ex.heapGet(st, name, SArr(SArr(SInt)))
	var na *Term
	if srcArr != nil && n == d.len && d.off.isConst() && d.off.val.Sign() == 0 {
		// full copy into a whole object: the content is a shifted copy
		if srcOff.isConst() && srcOff.val.Sign() == 0 && false {
			na = srcArr
		} else {
			na = tt.App("shift", SArr(SInt), srcArr, srcOff, n)
		}
	} else {
		na = tt.Fresh("copied", SArr(SInt))
	}
	st.heap[name] = tt.Store(h, d.base, na)
	ex.noteWrite(st, name, d.base)
	return n
}

func (ex *Exec) appendB(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	tt := ex.tt
	if b, ok := args[0].(*BytesV); ok {
		return ex.appendBytes(st, b, args[1], pos)
	}
	s := args[0].(*SliceV)
	t, ok := args[1].(*SliceV)
	if !ok {
		panic(unsupported("append of string to slice"))
	}
	n := tt.Add(s.len, t.len)
	// the result may or may not share the backing array; elements are modelled in a fresh one
	r := ex.alloc(c.Args[0].Type())
	for _, cm := range ex.comps(s.elem) {
		name := ex.sliceHeap(s) + cm.suffix
		h := ex.heapGet(st, name, SArr(SArr(cm.sort)))
		var na *Term
		old := tt.Select(h, s.base)
		if t.len.isConst() && t.len.val.IsInt64() && t.len.val.Int64() <= 8 && s.off.isConst() && s.off.val.Sign() == 0 {
			na = old
			for i := int64(0); i < t.len.val.Int64(); i++ {
				na = tt.Store(na, tt.Add(s.len, tt.Int(i)), tt.Select(tt.Select(h, t.base), tt.Add(t.off, tt.Int(i))))
			}
		} else if cm.sort == SInt && s.len.isConst() && s.len.val.Sign() == 0 {
			na = tt.App("shift", SArr(SInt), tt.Select(h, t.base), t.off, t.len)
		} else {
			na = tt.Fresh("appended", SArr(cm.sort))
		}
		st.heap[name] = tt.Store(h, r, na)
		ex.noteWrite(st, name, r)
	}
	cp := tt.Fresh("cap", SInt)
	ex.assume(tt.And(tt.Le(n, cp), tt.Le(cp, tt.Int(1<<56))))
	off := tt.Int(0)
	ex.appendElems(st, s, t, r, pos)
	return &SliceV{base: r, off: off, len: n, cap: cp, elem: s.elem, heap: s.heap}
}

// ---- maps: a domain array and a value array per map type, indexed by map and key ----

func (ex *Exec) mapHeap(t types.Type) (string, *types.Map) {
	m := under(t).(*types.Map)
	return "map:" + ex.v.tname(m.Key()) + "->" + ex.v.tname(m.Elem()), m
}

func (ex *Exec) keyTerm(v Val, t types.Type) *Term {
	return ex.term(v)
}

func (ex *Exec) mapDom(st *State, m *Term, t types.Type) *Term {
	n, _ := ex.mapHeap(t)
	return ex.tt.Select(ex.heapGet(st, n+".dom", SArr(SArr(SBool))), m)
}

func (ex *Exec) newMap(st *State, m *Term, t types.Type) {
	n, mt := ex.mapHeap(t)
	h := ex.heapGet(st, n+".dom", SArr(SArr(SBool)))
	st.heap[n+".dom"] = ex.tt.Store(h, m, ex.tt.ConstArr(ex.tt.Bool(false)))
	ex.noteWrite(st, n+".dom", m)
	_ = mt
	if h := ex.v.specs.MapInvs[n]; h != nil && h.MOwner != "" && ex.c != nil && ex.c.Opts["owner"] != "" && !ex.initing {
		R := ex.asTerm(ex.eval(ex.specEnv(st), parseExpr(ex.c.Opts["owner"])))
		ex.assume(ex.tt.Eq(ex.tt.App("u:"+h.MOwner, SInt, m), R))
	}
}

func (ex *Exec) lookup(st *State, x *ssa.Lookup) {
	tt := ex.tt
	fr := st.top()
	if ex.isStr(x.X.Type()) {
		s := ex.term(ex.val(st, x.X))
		i := ex.term(ex.val(st, x.Index))
		ex.safe(st, tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, ex.slen(s))), "string index in range", x.Pos())
		r := ex.schar(s, i)
		ex.assumeType(r, types.Typ[types.Uint8])
		fr.env[x] = r
		return
	}
	m := ex.term(ex.val(st, x.X))
	n, mt := ex.mapHeap(x.X.Type())
	k := ex.keyTerm(ex.val(st, x.Index), mt.Key())
	in := tt.And(tt.Ne(m, tt.Int(0)), tt.Select(ex.mapDom(st, m, x.X.Type()), k))
	var ts []*Term
	z := ex.flatten(ex.zeroVal(mt.Elem()), mt.Elem())
	for i, c := range ex.comps(mt.Elem()) {
		v := tt.Select(tt.Select(ex.heapGet(st, n+c.suffix, SArr(SArr(c.sort))), m), k)
		ts = append(ts, tt.Ite(in, v, z[i]))
	}
	v, _ := ex.unflatten(ts, mt.Elem())
	ex.assumeType(v, mt.Elem())
	ex.mapReadInv(st, m, k, in, v, x.X.Type())
	if x.CommaOk {
		fr.env[x] = TupleV{v, in}
	} else {
		fr.env[x] = v
	}
}

func (ex *Exec) mapUpdate(st *State, x *ssa.MapUpdate) {
	tt := ex.tt
	m := ex.term(ex.val(st, x.Map))
	n, mt := ex.mapHeap(x.Map.Type())
	k := ex.keyTerm(ex.val(st, x.Key), mt.Key())
	v := ex.val(st, x.Value)
	if !(m.isConst() && m.val.Sign() != 0) {
		ex.safe(st, tt.Ne(m, tt.Int(0)), "assignment to entry in nil map", x.Pos())
	}
	ex.checkFrame(st, n, m, x.Pos())
	ex.bumpEpoch(st)
	ex.mapWriteInv(st, m, k, v, x.Map.Type(), x.Pos())
	h := ex.heapGet(st, n+".dom", SArr(SArr(SBool)))
	st.heap[n+".dom"] = tt.Store(h, m, tt.Store(tt.Select(h, m), k, tt.Bool(true)))
	ex.noteWrite(st, n+".dom", m)
	ts := ex.flatten(v, mt.Elem())
	for i, c := range ex.comps(mt.Elem()) {
		h := ex.heapGet(st, n+c.suffix, SArr(SArr(c.sort)))
		st.heap[n+c.suffix] = tt.Store(h, m, tt.Store(tt.Select(h, m), k, ts[i]))
		ex.noteWrite(st, n+c.suffix, m)
	}
}

func (ex *Exec) mapDelete(st *State, m *Term, key Val, t types.Type, pos token.Pos) {
	tt := ex.tt
	n, mt := ex.mapHeap(t)
	k := ex.keyTerm(key, mt.Key())
	ex.checkFrame(st, n, m, pos)
	h := ex.heapGet(st, n+".dom", SArr(SArr(SBool)))
	st.heap[n+".dom"] = tt.Store(h, m, tt.Store(tt.Select(h, m), k, tt.Bool(false)))
	ex.noteWrite(st, n+".dom", m)
}

type rangeIter struct {
	m   *Term
	typ types.Type
	str bool
	s   *Term
}

func (ex *Exec) rangeMap(st *State, x *ssa.Range) Val {
	it := &rangeIter{typ: x.X.Type()}
	v := ex.term(ex.val(st, x.X))
	if ex.isStr(x.X.Type()) {
		it.str, it.s = true, v
	} else {
		it.m = v
	}
	// a finite number of entries remains
	n := ex.tt.Fresh("remaining", SInt)
	if it.str {
		n = ex.slen(v)
	}
	st.heap["$g:iter"] = n
	ex.noteWrite(st, "$g:iter", nil)
	return it
}

func (ex *Exec) next(st *State, x *ssa.Next) bool {
	tt := ex.tt
	it := ex.val(st, x.Iter).(*rangeIter)
	if it.str && ex.v.specs.Funs["runeat"] != nil && ex.oneIter(x) {
		// the ghost counts the bytes left
		left := ex.ghost(st, "iter")
		pos := tt.Sub(ex.slen(it.s), left)
		r, w := tt.App("u:runeat", SInt, it.s, pos), tt.App("u:runelen", SInt, it.s, pos)
		more := tt.Lt(tt.Int(0), left)
		ex.assume(tt.Imp(more, tt.And(tt.Le(tt.Int(0), r), tt.Le(r, tt.Int(0x10ffff)), tt.Le(tt.Int(1), w), tt.Le(w, left))))
		st.heap["$g:iter"] = tt.Ite(more, tt.Sub(left, w), left)
		ex.noteWrite(st, "$g:iter", nil)
		st.top().env[x] = TupleV{more, pos, r}
		return true
	}
	ok := tt.Fresh("more", SBool)
	rem := tt.Fresh("remaining", SInt)
	old := ex.ghost(st, "iter")
	ex.assume(tt.Imp(ok, tt.And(tt.Le(tt.Int(0), rem), tt.Lt(rem, old))))
	st.heap["$g:iter"] = tt.Ite(ok, rem, old)
	ex.noteWrite(st, "$g:iter", nil)
	tup := x.Type().(*types.Tuple)
	if it.str {
		i := tt.Fresh("ri", SInt)
		r := tt.Fresh("rune", SInt)
		ex.assume(tt.And(tt.Le(tt.Int(0), r), tt.Le(r, tt.Int(0x10ffff)), tt.Le(tt.Int(0), i), tt.Imp(ok, tt.Lt(i, ex.slen(it.s)))))
		st.top().env[x] = TupleV{ok, i, r}
		return true
	}
	n, mt := ex.mapHeap(it.typ)
	kt := tup.At(1).Type()
	var k Val = tt.Int(0)
	if b, isB := kt.(*types.Basic); !isB || b.Kind() != types.Invalid {
		k = ex.freshVal("key", mt.Key())
	} else {
		k = ex.freshVal("key", mt.Key())
	}
	kt2 := ex.keyTerm(k, mt.Key())
	ex.assume(tt.Imp(ok, tt.And(tt.Ne(it.m, tt.Int(0)), tt.Select(ex.mapDom(st, it.m, it.typ), kt2))))
	var ts []*Term
	for _, c := range ex.comps(mt.Elem()) {
		ts = append(ts, tt.Select(tt.Select(ex.heapGet(st, n+c.suffix, SArr(SArr(c.sort))), it.m), kt2))
	}
	v, _ := ex.unflatten(ts, mt.Elem())
	ex.assumeType(v, mt.Elem())
	ex.mapReadInv(st, it.m, kt2, ok, v, it.typ)
	st.top().env[x] = TupleV{ok, k, v}
	return true
}

var debugSpecial = os.Getenv("GCV_DEBUG") != ""

// oneIter reports whether an iteration contains no other iteration, so that the ghost belongs to it alone: the function
// has one range loop and its body calls nothing of the module.
func (ex *Exec) oneIter(x *ssa.Next) bool {
	n := 0
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			switch c := in.(type) {
			case *ssa.Range:
				n++
			case *ssa.Call:
				if f := c.Call.StaticCallee(); f != nil && ex.v.isModule(f) || f == nil && c.Call.IsInvoke() {
					if len(x.Parent().Blocks) > 0 && b != x.Parent().Blocks[0] {
						return false
					}
				}
			}
		}
	}
	return n == 1
}
