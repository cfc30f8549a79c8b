package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type specErr struct{ msg string }

type tval struct {
	v Val
	t types.Type
}

type senv struct {
	vars map[string]tval
	st   *State
	old  *State
	ovar map[string]tval
}

func (ex *Exec) specEnv(st *State) *senv {
	e := &senv{vars: map[string]tval{}, st: st, old: ex.entry}
	for n, v := range ex.params {
		t := ex.ptypes[n]
		if ex.dynDepth > 0 {
			t = ex.dynTypes[n]
		}
		e.vars[n] = tval{v, t}
	}
	e.ovar = e.vars
	return e
}

func (ex *Exec) asTerm(v tval) *Term {
	return ex.term(v.v)
}

func sortOfName(s string) Sort {
	switch s {
	case "int", "byte", "ref", "str", "type", "value":
		return SInt
	case "bool":
		return SBool
	case "bs":
		return SBs
	case "flt":
		return SFlt
	case "arr":
		return SArr(SInt)
	case "arr2":
		return SArr(SArr(SInt))
	case "barr":
		return SArr(SBool)
	}
	if strings.ContainsAny(s, ".*") {
		return SInt
	}
	panic(specErr{"unknown sort " + s})
}

// specBody instantiates the definition of a spec function.
func (ex *Exec) specBody(f *SpecFun, args []*Term) *Term {
	e := &senv{vars: map[string]tval{}}
	for i, p := range f.Params {
		e.vars[p] = tval{args[i], nil}
	}
	return ex.asTerm(ex.eval(e, f.Body))
}

func (ex *Exec) eval(e *senv, x *Expr) tval {
	tt := ex.tt
	bad := func(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...) + " in " + x.String()}) }
	switch x.K {
	case "num":
		b, ok := new(big.Int).SetString(x.S, 0)
		if !ok {
			bad("bad number")
		}
		return tval{tt.Big(b), nil}
	case "char":
		s := x.S[1 : len(x.S)-1]
		switch s {
		case `\n`:
			s = "\n"
		case `\'`:
			s = "'"
		case `\\`:
			s = `\`
		case `\0`:
			s = "\x00"
		}
		return tval{tt.Int(int64(s[0])), nil}
	case "str":
		return tval{ex.strLit(x.S), types.Typ[types.String]}
	case "ident":
		if v, ok := e.vars[x.S]; ok {
			return v
		}
		switch x.S {
		case "true":
			return tval{tt.Bool(true), nil}
		case "false":
			return tval{tt.Bool(false), nil}
		case "nil":
			return tval{tt.Int(0), types.Typ[types.UntypedNil]}
		case "suberr":
			if e.st.suberr == nil {
				return tval{tt.Bool(false), nil}
			}
			return tval{e.st.suberr, nil}
		case "empty":
			return tval{ex.bsEmpty(), nil}
		}
		if c, ok := ex.v.specs.Consts[x.S]; ok {
			return ex.eval(e, c)
		}
		if strings.HasPrefix(x.S, "$") {
			if e.st != nil {
				return tval{ex.ghost(e.st, x.S[1:]), nil}
			}
		}
		if f := ex.v.specs.Funs[x.S]; f != nil && len(f.Params) == 0 {
			return tval{tt.Var("u:"+f.Name, sortOfName(f.Res)), nil}
		}
		bad("unknown identifier %s", x.S)
	case "old":
		if e.old == nil {
			bad("no old state")
		}
		n := &senv{vars: e.ovar, st: e.old, old: e.old, ovar: e.ovar}
		if n.vars == nil {
			n.vars = e.vars
		}
		return ex.eval(n, x.A[0])
	case "if":
		c := ex.asTerm(ex.eval(e, x.A[0]))
		if c.isTrue() {
			return ex.eval(e, x.A[1])
		}
		if c.isFalse() {
			return ex.eval(e, x.A[2])
		}
		if ex.curExact {
			// decided by the path: keep only the branch that applies
			if ex.valid(c) {
				return ex.eval(e, x.A[1])
			}
			if ex.valid(ex.tt.Not(c)) {
				return ex.eval(e, x.A[2])
			}
		}
		a := ex.eval(e, x.A[1])
		b := ex.eval(e, x.A[2])
		return tval{tt.Ite(c, ex.asTerm(a), ex.asTerm(b)), a.t}
	case "let":
		v := ex.eval(e, x.A[0])
		n := &senv{vars: map[string]tval{}, st: e.st, old: e.old, ovar: e.ovar}
		for k, y := range e.vars {
			n.vars[k] = y
		}
		n.vars[x.S] = v
		return ex.eval(n, x.A[1])
	case "un":
		a := ex.asTerm(ex.eval(e, x.A[0]))
		if x.S == "!" {
			return tval{tt.Not(a), nil}
		}
		return tval{tt.Neg(a), nil}
	case "bin":
		switch x.S {
		case "&&":
			a := ex.asTerm(ex.eval(e, x.A[0]))
			if a.isFalse() {
				return tval{a, nil}
			}
			return tval{tt.And(a, ex.asTerm(ex.eval(e, x.A[1]))), nil}
		case "||":
			a := ex.asTerm(ex.eval(e, x.A[0]))
			if a.isTrue() {
				return tval{a, nil}
			}
			return tval{tt.Or(a, ex.asTerm(ex.eval(e, x.A[1]))), nil}
		case "==>":
			a := ex.asTerm(ex.eval(e, x.A[0]))
			if a.isFalse() {
				return tval{tt.Bool(true), nil}
			}
			return tval{tt.Imp(a, ex.asTerm(ex.eval(e, x.A[1]))), nil}
		}
		av, bv := ex.eval(e, x.A[0]), ex.eval(e, x.A[1])
		switch x.S {
		case "==", "!=":
			r := ex.specEq(av, bv)
			if x.S == "!=" {
				r = tt.Not(r)
			}
			return tval{r, nil}
		case "<==>":
			return tval{tt.Eq(ex.asTerm(av), ex.asTerm(bv)), nil}
		}
		a, b := ex.asTerm(av), ex.asTerm(bv)
		switch x.S {
		case "<":
			return tval{tt.Lt(a, b), nil}
		case "<=":
			return tval{tt.Le(a, b), nil}
		case ">":
			return tval{tt.Gt(a, b), nil}
		case ">=":
			return tval{tt.Ge(a, b), nil}
		case "+":
			if a.sort == SBs {
				return tval{ex.cat(a, b), nil}
			}
			return tval{tt.Add(a, b), nil}
		case "-":
			return tval{tt.Sub(a, b), nil}
		case "*":
			return tval{tt.Mul(a, b), nil}
		case "/":
			return tval{tt.Quo(a, b), nil}
		case "%":
			return tval{tt.Rem(a, b), nil}
		}
	case "sel":
		return ex.evalSel(e, x)
	case "index":
		v := ex.eval(e, x.A[0])
		i := ex.asTerm(ex.eval(e, x.A[1]))
		switch s := v.v.(type) {
		case *SliceV:
			arr := ex.sliceArr(e.st, s)
			return tval{tt.Select(arr, tt.Add(s.off, i)), s.elem}
		case *ArrayV:
			return tval{tt.Select(s.arr, i), s.elem}
		case *Term:
			if strings.HasPrefix(string(s.sort), "(Array") {
				return tval{tt.Select(s, i), nil}
			}
			return tval{ex.schar(s, i), nil}
		}
		bad("cannot index %T", v.v)
	case "call":
		return ex.evalCall(e, x)
	}
	bad("cannot evaluate")
	return tval{}
}

func (ex *Exec) specEq(a, b tval) *Term {
	tt := ex.tt
	isNil := func(v tval) bool {
		t, ok := v.v.(*Term)
		return ok && t.isConst() && v.t == types.Typ[types.UntypedNil]
	}
	for i := 0; i < 2; i++ {
		if s, ok := a.v.(*BytesV); ok && isNil(b) {
			return tt.Bool(s.nilv)
		}
		if s, ok := a.v.(*SliceV); ok && isNil(b) {
			return tt.Eq(s.base, tt.Int(0))
		}
		a, b = b, a
	}
	if sa, ok := a.v.(*SliceV); ok {
		if sb, ok := b.v.(*SliceV); ok {
			return tt.And(tt.Eq(sa.base, sb.base), tt.Eq(sa.off, sb.off), tt.Eq(sa.len, sb.len))
		}
	}
	if a.t != nil && b.t != nil && a.t != types.Typ[types.UntypedNil] && ex.isStr(a.t) {
		return ex.strEq(ex.asTerm(a), ex.asTerm(b))
	}
	for _, v := range []tval{a, b} {
		if m, ok := v.v.(*Term); ok && m.sort == SInt {
			if l, ok := litOf(m); ok {
				ex.distinctLits(m, l)
			}
		}
	}
	return tt.Eq(ex.asTerm(a), ex.asTerm(b))
}

func (ex *Exec) evalSel(e *senv, x *Expr) tval {
	v := ex.eval(e, x.A[0])
	if sv, ok := v.v.(*StructV); ok {
		for i := 0; i < sv.typ.NumFields(); i++ {
			if sv.typ.Field(i).Name() == x.S {
				return tval{sv.fields[i], sv.typ.Field(i).Type()}
			}
		}
	}
	if v.t != nil {
		if p, ok := under(v.t).(*types.Pointer); ok {
			if s, ok := under(p.Elem()).(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if f.Name() == x.S {
						pv := ex.ptrTo(v.v, p.Elem())
						return tval{ex.load(e.st, &PtrV{heap: pv.heap + "." + f.Name(), base: pv.base, idx: pv.idx, typ: f.Type()}), f.Type()}
					}
				}
			}
		}
	}
	panic(specErr{"no field " + x.S + " in " + x.String()})
}

func (ex *Exec) ghost(st *State, name string) *Term {
	if t, ok := st.heap["$g:"+name]; ok {
		return t
	}
	t := ex.tt.Var("g0:"+name, ex.v.ghostSort(name))
	st.heap["$g:"+name] = t
	if ex.entry != nil {
		if _, ok := ex.entry.heap["$g:"+name]; !ok {
			ex.entry.heap["$g:"+name] = t
		}
	}
	return t
}

func (ex *Exec) evalCall(e *senv, x *Expr) tval {
	tt := ex.tt
	arg := func(i int) tval { return ex.eval(e, x.A[i]) }
	sl := func(i int) *SliceV {
		v := arg(i)
		s, ok := v.v.(*SliceV)
		if !ok {
			panic(specErr{"not a slice: " + x.A[i].String()})
		}
		return s
	}
	switch x.S {
	case "len":
		v := arg(0)
		switch s := v.v.(type) {
		case *SliceV:
			return tval{s.len, types.Typ[types.Int]}
		case *ArrayV:
			return tval{tt.Int(s.n), nil}
		case *BytesV:
			return tval{ex.bslen(s.t), nil}
		case *Term:
			if s.sort == SBs {
				return tval{ex.bslen(s), nil}
			}
			return tval{ex.slen(s), nil}
		}
	case "cap":
		return tval{sl(0).cap, nil}
	case "arr":
		return tval{ex.sliceArr(e.st, sl(0)), nil}
	case "lo":
		return tval{sl(0).off, nil}
	case "hi":
		s := sl(0)
		return tval{tt.Add(s.off, s.len), nil}
	case "base":
		return tval{sl(0).base, nil}
	case "tid":
		return tval{ex.tid(x.A[0].S), nil}
	case "typ":
		// reflect type descriptor of a named Go type
		return tval{ex.rtypeConst(x.A[0].S), nil}
	case "dyn":
		return tval{ex.dyn(ex.asTerm(arg(0))), nil}
	case "data":
		// data(x, "T"): payload of interface value
		srt := SInt
		if len(x.A) > 2 {
			srt = sortOfName(x.A[2].S)
		}
		return tval{tt.App("data:"+x.A[1].S, srt, ex.asTerm(arg(0))), nil}
	case "implements":
		// implements(m, "pkg.Iface"): the dynamic type of m has the methods
		m := ex.asTerm(arg(0))
		if mt, ok := ex.ifaceMk[m]; ok {
			if it, ok := ex.v.typeByName(x.A[1].S).Underlying().(*types.Interface); ok {
				return tval{tt.Bool(types.Implements(mt, it)), nil}
			}
		}
		return tval{tt.App("impl:"+x.A[1].S, SBool, ex.dyn(m)), nil}
	case "fin":
		// fin("pkg.T.f", o): value of a field that never changes
		srt := SInt
		if len(x.A) > 2 {
			srt = sortOfName(x.A[2].S)
		}
		return tval{tt.App("fin:"+x.A[0].S, srt, ex.asTerm(arg(1))), nil}
	case "zeros":
		return tval{tt.ConstArr(tt.Int(0)), nil}
	case "substr":
		return tval{tt.App("strof", SInt, ex.asTerm(arg(0)), ex.asTerm(arg(1)), ex.asTerm(arg(2))), types.Typ[types.String]}
	case "strarr", "strlo", "strcnt":
		s := ex.asTerm(arg(0))
		if s.op == "app" && (s.name == "strof" || s.name == "ustrof") {
			return tval{s.args[map[string]int{"strarr": 0, "strlo": 1, "strcnt": 2}[x.S]], nil}
		}
		switch x.S {
		case "strarr":
			return tval{tt.App("strarr", SArr(SInt), s), nil}
		case "strlo":
			return tval{tt.Int(0), nil}
		}
		return tval{ex.slen(s), types.Typ[types.Int]}
	case "bytesterm":
		// bytesterm(s): the content of a byte slice as one term
		s := sl(0)
		return tval{tt.App("strof", SInt, ex.sliceArr(e.st, s), s.off, s.len), nil}
	case "copied":
		// copied(s): a string with its own memory
		t := ex.asTerm(arg(0))
		return tval{tt.Bool(!(t.op == "app" && t.name == "ustrof")), nil}
	case "globref":
		return tval{ex.term(ex.globalRef(ex.v.globalByName(x.A[0].S))), nil}
	case "unchanged":
		// unchanged("heap name"): the heap array is the one at entry
		n := x.A[0].S
		cur, ok := e.st.heap[n]
		if !ok {
			for _, h := range e.st.havocs[min(len(e.old.havocs), len(e.st.havocs)):] {
				if h.match(n) {
					return tval{tt.Bool(false), nil}
				}
			}
			return tval{tt.Bool(true), nil}
		}
		old, ok := e.old.heap[n]
		if !ok {
			old = ex.heapGet(e.old, n, cur.sort)
		}
		return tval{tt.Eq(cur, old), nil}
	case "field":
		// field(s, "name"): component array of a slice of structs
		s := sl(0)
		for _, c := range ex.comps(s.elem) {
			if c.suffix == "."+x.A[1].S {
				return tval{tt.Select(ex.heapGet(e.st, ex.sliceHeap(s)+c.suffix, SArr(SArr(c.sort))), s.base), nil}
			}
		}
		panic(specErr{"no component " + x.A[1].S})
	case "off":
		return tval{sl(0).off, nil}
	case "notfn":
		_, ok := ex.funcs[ex.asTerm(arg(0))]
		return tval{tt.Bool(!ok), nil}
	case "mk":
		return tval{tt.App("mk:"+x.A[1].S, SInt, ex.asTerm(arg(0))), nil}
	case "strof":
		s := sl(0)
		return tval{tt.App("strof", SInt, ex.sliceArr(e.st, s), s.off, s.len), types.Typ[types.String]}
	case "content":
		v := arg(0)
		if b, ok := v.v.(*BytesV); ok {
			return tval{b.t, nil}
		}
		return tval{ex.asTerm(v), nil}
	case "bytesOf":
		return tval{ex.bsOfStr(ex.asTerm(arg(0))), nil}
	case "owned":
		return tval{tt.Bool(ex.owned(arg(0).v)), nil}
	case "fresh":
		if b, ok := arg(0).v.(*BytesV); ok {
			return tval{tt.Bool(b.region != nil && b.region.fresh && !e.st.stored[b.region]), nil}
		}
		b := ex.refTerm(arg(0).v)
		return tval{tt.And(tt.Lt(b, tt.Int(0)), tt.Gt(b, tt.Int(-1000000))), nil}
	case "u":
		srt := sortOfName(x.A[1].S)
		var as []*Term
		for i := range x.A[2:] {
			as = append(as, ex.asTerm(arg(i+2)))
		}
		var ty types.Type
		if x.A[1].S == "str" {
			ty = types.Typ[types.String]
		}
		return tval{tt.App("u:"+x.A[0].S, srt, as...), ty}
	case "flt":
		return tval{ex.fltConst(x.A[0].S, 64), nil}
	case "flt32":
		return tval{ex.fltConst(x.A[0].S, 32), nil}
	case "flteq":
		return tval{tt.App("flt.eq", SBool, ex.asTerm(arg(0)), ex.asTerm(arg(1))), nil}
	case "fltlt":
		return tval{tt.App("flt.lt", SBool, ex.asTerm(arg(0)), ex.asTerm(arg(1))), nil}
	case "fltle":
		return tval{tt.App("flt.le", SBool, ex.asTerm(arg(0)), ex.asTerm(arg(1))), nil}
	case "f32":
		return tval{ex.f32(ex.asTerm(arg(0))), nil}
	case "store":
		return tval{tt.Store(ex.asTerm(arg(0)), ex.asTerm(arg(1)), ex.asTerm(arg(2))), nil}
	case "mkstruct":
		var as []*Term
		for i := range x.A[1:] {
			as = append(as, ex.asTerm(arg(i+1)))
		}
		return tval{tt.App("struct:"+x.A[0].S, SInt, as...), nil}
	case "mapin":
		m := ex.asTerm(arg(1))
		return tval{tt.And(tt.Ne(m, tt.Int(0)), tt.Select(tt.Select(ex.heapGet(e.st, x.A[0].S+".dom", SArr(SArr(SBool))), m), ex.asTerm(arg(2)))), nil}
	case "indom", "mapget":
		// of a map with a known Go type: whether a key is in it, and its (first) value
		mv := arg(0)
		if mv.t == nil {
			panic(specErr{x.S + ": not a map"})
		}
		mt, ok := under(mv.t).(*types.Map)
		if !ok {
			panic(specErr{x.S + ": not a map"})
		}
		m := ex.asTerm(mv)
		n, _ := ex.mapHeap(mv.t)
		k := ex.asTerm(arg(1))
		in := tt.And(tt.Ne(m, tt.Int(0)), tt.Select(tt.Select(ex.heapGet(e.st, n+".dom", SArr(SArr(SBool))), m), k))
		if x.S == "indom" {
			return tval{in, nil}
		}
		cs := ex.comps(mt.Elem())
		if len(cs) == 0 {
			panic(specErr{"mapget: no value"})
		}
		v := tt.Select(tt.Select(ex.heapGet(e.st, n+cs[0].suffix, SArr(SArr(cs[0].sort))), m), k)
		if cs[0].sort == SBool {
			return tval{tt.And(in, v), nil}
		}
		return tval{v, mt.Elem()}
	case "mapentry":
		return tval{tt.Select(tt.Select(ex.heapGet(e.st, x.A[0].S, SArr(SArr(SInt))), ex.asTerm(arg(1))), ex.asTerm(arg(2))), nil}
	case "mapdom":
		return tval{ex.heapGet(e.st, x.A[0].S+".dom", SArr(SArr(SBool))), nil}
	case "mapempty":
		return tval{tt.Eq(tt.Select(ex.heapGet(e.st, x.A[0].S+".dom", SArr(SArr(SBool))), ex.asTerm(arg(1))), tt.ConstArr(tt.Bool(false))), nil}
	case "select":
		a, i := ex.asTerm(arg(0)), ex.asTerm(arg(1))
		r := tt.Select(a, i)
		if a.op == "app" && a.name == "shift" {
			// a copied slice has the bytes of the original
			ex.assume(tt.Or(tt.Lt(i, tt.Int(0)), tt.Le(a.args[2], i), tt.Eq(r, tt.Select(a.args[0], tt.Add(a.args[1], i)))))
		}
		return tval{r, nil}
	case "shifted":
		return tval{tt.App("shift", SArr(SInt), ex.asTerm(arg(0)), ex.asTerm(arg(1)), ex.asTerm(arg(2))), nil}
	case "heap":
		srt := SInt
		if len(x.A) > 1 {
			srt = sortOfName(x.A[1].S)
		}
		return tval{ex.heapGet(e.st, x.A[0].S, SArr(srt)), nil}
	case "iseq":
		return tval{tt.Eq(ex.asTerm(arg(0)), ex.asTerm(arg(1))), nil}
	case "cell":
		v := arg(0)
		p := ex.ptrTo(v.v, under(v.t).(*types.Pointer).Elem())
		return tval{ex.load(e.st, p), p.typ}
	case "isfn":
		t := ex.asTerm(arg(0))
		return tval{tt.Eq(t, tt.Var("fn:"+x.A[1].S, SInt)), nil}
	case "cast":
		// cast(x, "*pkg.T"): view a reference at a Go type
		return tval{ex.asTerm(arg(0)), ex.v.typeByName(x.A[1].S)}
	}
	if ex.v.specs.Dyn[x.S] {
		var as []*Term
		for i := range x.A {
			as = append(as, ex.asTerm(arg(i)))
		}
		return tval{ex.dynApp(e.st, x.S, as), nil}
	}
	if p, ok := ex.v.specs.Preds[x.S]; ok {
		var as []*Term
		for i := range x.A {
			as = append(as, ex.asTerm(arg(i)))
		}
		return tval{tt.App("pred:"+p.Name, SBool, as...), nil}
	}
	f := ex.v.specs.Funs[x.S]
	if f == nil {
		panic(specErr{"unknown function " + x.S})
	}
	if len(f.Params) != len(x.A) {
		panic(specErr{"wrong number of arguments for " + x.S + " in " + x.String()})
	}
	if f.Body != nil && !f.Rec {
		n := &senv{vars: map[string]tval{}, st: e.st, old: e.old}
		for i, p := range f.Params {
			v := arg(i)
			if v.t == nil {
				v.t = ex.v.specParamType(f.Types[i])
			}
			n.vars[p] = v
		}
		n.ovar = n.vars
		return ex.eval(n, f.Body)
	}
	var as []*Term
	for i := range x.A {
		t := ex.asTerm(arg(i))
		if t.sort != sortOfName(f.Types[i]) {
			panic(specErr{fmt.Sprintf("argument %d of %s has sort %s", i, x.S, t.sort)})
		}
		as = append(as, t)
	}
	if f.Name == "itoa" && as[0].isConst() {
		return tval{ex.bsOfStr(ex.strLit(as[0].val.String())), nil}
	}
	if f.Local {
		as = ex.stripStores(f, as)
	}
	if f.Rec {
		return tval{tt.App("sp:"+f.Name, sortOfName(f.Res), as...), nil}
	}
	t := tt.App("u:"+f.Name, sortOfName(f.Res), as...)
	if len(ex.v.specs.Axioms[f.Name]) > 0 {
		var vs []tval
		for i := range as {
			vs = append(vs, tval{as[i], ex.v.specParamType(f.Types[i])})
		}
		ex.axioms(f.Name, t, vs)
	}
	return tval{t, ex.v.specParamType(f.Res)}
}

func (ex *Exec) refTerm(v Val) *Term {
	switch x := v.(type) {
	case *SliceV:
		return x.base
	case *PtrV:
		return x.base
	}
	return ex.term(v)
}

// owned: the value does not alias memory through an unsafe string.
func (ex *Exec) owned(v Val) bool {
	t, ok := v.(*Term)
	if !ok {
		return true
	}
	r := true
	t.walk(func(x *Term) bool {
		if x.op == "app" && x.name == "ustrof" {
			r = false
		}
		return r
	})
	return r
}
