package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- abstract byte sequences: a free monoid kept in flattened right-nested form ----

func (ex *Exec) bsParts(t *Term) []*Term {
	if t.op == "app" && t.name == "cat" {
		return append(ex.bsParts(t.args[0]), ex.bsParts(t.args[1])...)
	}
	if t.op == "var" && t.name == "bs.empty" {
		return nil
	}
	return []*Term{t}
}

func bsLit(t *Term) (string, bool) {
	if t.op == "app" && t.name == "bs.str" {
		return litOf(t.args[0])
	}
	return "", false
}

func (ex *Exec) bsOfStr(s *Term) *Term {
	if l, ok := litOf(s); ok && l == "" {
		return ex.bsEmpty()
	}
	if s.op == "app" && s.name == "bs2str" {
		return s.args[0]
	}
	return ex.tt.App("bs.str", SBs, s)
}

func (ex *Exec) cat(a, b *Term) *Term {
	ps := append(ex.bsParts(a), ex.bsParts(b)...)
	var out []*Term
	for _, p := range ps {
		if len(out) > 0 {
			l1, ok1 := bsLit(out[len(out)-1])
			l2, ok2 := bsLit(p)
			if ok1 && ok2 {
				out[len(out)-1] = ex.bsOfStr(ex.strLit(l1 + l2))
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return ex.bsEmpty()
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = ex.tt.App("cat", SBs, out[i], r)
	}
	return r
}

func (ex *Exec) bslen(t *Term) *Term {
	r := ex.tt.Int(0)
	for _, p := range ex.bsParts(t) {
		switch {
		case p.op == "app" && p.name == "bs.str":
			r = ex.tt.Add(r, ex.slen(p.args[0]))
		case p.op == "app" && p.name == "bs.byte":
			r = ex.tt.Add(r, ex.tt.Int(1))
		default:
			l := ex.tt.App("bslen", SInt, p)
			ex.assume(ex.tt.Le(ex.tt.Int(0), l))
			r = ex.tt.Add(r, l)
		}
	}
	return r
}

func (ex *Exec) bsByte(c *Term) *Term {
	if c.isConst() && c.val.IsInt64() {
		return ex.bsOfStr(ex.strLit(string([]byte{byte(c.val.Int64())})))
	}
	return ex.tt.App("bs.byte", SBs, c)
}

func (ex *Exec) bytesFromArray(st *State, p *PtrV, lo, hi *Term) Val {
	// content of a byte array window
	arr := ex.tt.Select(ex.heapGet(st, "E:uint8", SArr(SArr(SInt))), p.base)
	n := ex.tt.Sub(hi, lo)
	if n.isConst() && lo.isConst() && n.val.IsInt64() && n.val.Int64() <= 64 {
		r := ex.bsEmpty()
		for i := int64(0); i < n.val.Int64(); i++ {
			r = ex.cat(r, ex.bsByte(ex.tt.Select(arr, ex.tt.Add(lo, ex.tt.Int(i)))))
		}
		return &BytesV{t: r, region: ex.newRegion("array", true)}
	}
	r := ex.tt.App("bs.arr", SBs, arr, lo, n)
	ex.assume(ex.tt.Eq(ex.bslen(r), n))
	return &BytesV{t: r, region: ex.newRegion("array", true)}
}

func (ex *Exec) sliceBytes(st *State, b *BytesV, lo, hi, mx *Term, pos token.Pos) Val {
	tt := ex.tt
	z := lo.isConst() && lo.val.Sign() == 0
	if mx != nil {
		hi2 := hi
		_ = hi2
	}
	if z && hi == nil {
		return b
	}
	if z && hi.isConst() && hi.val.Sign() == 0 {
		n := *b
		n.t = ex.bsEmpty()
		n.nilv = false
		n.cut = true
		return &n
	}
	ex.useBytes(st, b, pos)
	if hi == nil {
		hi = ex.bslen(b.t)
	}
	ex.safe(st, tt.And(tt.Le(tt.Int(0), lo), tt.Le(lo, hi), tt.Le(hi, ex.bslen(b.t))), "slice bounds in range (within the length)", pos)
	n := *b
	n.nilv = false
	// whole prefix of known length
	if z {
		ps := ex.bsParts(b.t)
		acc := ex.bsEmpty()
		for i := 0; i <= len(ps); i++ {
			if tt.Eq(ex.bslen(acc), hi).isTrue() {
				n.t = acc
				n.cut = i < len(ps) || b.cut
				return &n
			}
			if i < len(ps) {
				acc = ex.cat(acc, ps[i])
			}
		}
	}
	n.t = tt.App("bs.sub", SBs, b.t, lo, hi)
	n.cut = true
	ex.assume(tt.Eq(ex.bslen(n.t), tt.Sub(hi, lo)))
	return &n
}

func (ex *Exec) appendBytes(st *State, b *BytesV, src Val, pos token.Pos) Val {
	var t *Term
	switch x := src.(type) {
	case *BytesV:
		t = x.t
	case *Term:
		t = ex.bsOfStr(x)
	case *SliceV:
		t = nil
		if x.len.isConst() && x.len.val.IsInt64() && x.len.val.Int64() <= 64 {
			t = ex.bsEmpty()
			arr := ex.sliceArr(st, x)
			for i := int64(0); i < x.len.val.Int64(); i++ {
				t = ex.cat(t, ex.bsByte(ex.tt.Select(arr, ex.tt.Add(x.off, ex.tt.Int(i)))))
			}
		} else {
			t = ex.tt.App("bs.arr", SBs, ex.sliceArr(st, x), x.off, x.len)
			ex.assume(ex.tt.Eq(ex.bslen(t), x.len))
		}
	default:
		panic(unsupported("append source"))
	}
	ex.useBytes(st, b, pos)
	if y, ok := src.(*BytesV); ok {
		ex.useBytes(st, y, pos)
	}
	n := *b
	n.t = ex.cat(b.t, t)
	n.nilv = false
	if t != ex.bsEmpty() {
		ex.bump(st, b, &n)
	}
	return &n
}

func (ex *Exec) havocBytes(st *State, name string, b *BytesV) Val {
	n := *b
	n.t = ex.tt.Fresh("bs."+name, SBs)
	n.nilv = false
	n.seq = ex.newSeq(st, n.region)
	return &n
}

// ---- calls with built-in meaning ----

func (ex *Exec) special(st *State, name string, fn *ssa.Function, args []Val, c *ssa.CallCommon, pos token.Pos) ([]Val, bool) {
	if fn != nil && fn.Name() == "init" && fn.Pkg != nil && len(args) == 0 && (ex.initing) {
		if fn.Pkg.Pkg.Path() != fnPkgPath(ex.fn) || len(st.frames) >= 1 && fn.Synthetic != "" {
			return nil, true // other packages
		}
	}
	if strings.HasPrefix(name, "(*atomic.Pointer[") && !ex.initing {
		switch {
		case strings.HasSuffix(name, ".Load"):
			r := ex.freshVal("r.Load", c.Signature().Results().At(0).Type())
			ex.assume(ex.tt.Ne(ex.term(r), ex.tt.Int(0)))
			ex.trusted["published pointers are set by the package initialiser"] = true
			return []Val{r}, true
		case strings.HasSuffix(name, ".Store"):
			ex.publish(st, args[1], c.Args[1].Type(), pos)
			return nil, true
		}
	}
	switch name {
	case "(*sync.Pool).Put":
		ex.applyExtern(st, name, args, c, pos)
		ex.poolPut(st, ex.term(args[1]), pos)
		return nil, true
	case "strconv.Itoa":
		if t := ex.term(args[0]); t.isConst() {
			return []Val{ex.strLit(t.val.String())}, true
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		if t := ex.term(args[0]); t.isConst() {
			if b := ex.term(args[1]); b.isConst() {
				return []Val{ex.strLit(t.val.Text(int(b.val.Int64())))}, true
			}
		}
	case "reflect.TypeOf":
		m := ex.term(args[0])
		if t, ok := ex.ifaceMk[m]; ok {
			return []Val{ex.rtypeOf(t)}, true
		}
	case "reflect.ValueOf":
		if t, ok := ex.ifaceMk[ex.term(args[0])]; ok && !ex.initing {
			v := ex.tt.App("u:vof", SInt, ex.term(args[0]))
			ex.assume(ex.tt.Eq(ex.tt.App("u:vtyp", SInt, v), ex.rtypeOf(t)))
			switch u := under(t).(type) {
			case *types.Pointer:
				ex.assume(ex.tt.Or(ex.tt.Eq(ex.refTerm(ex.mkVal[ex.term(args[0])]), ex.tt.Int(0)), ex.tt.App("u:isnew", SBool, v)))
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					ex.assume(ex.tt.Eq(ex.tt.App("u:strv", SInt, v), ex.term(ex.mkVal[ex.term(args[0])])))
				} else if u.Info()&types.IsBoolean != 0 {
					ex.assume(ex.tt.Eq(ex.tt.App("u:boolv", SBool, v), ex.term(ex.mkVal[ex.term(args[0])])))
				}
			}
		}
	case "(reflect.Type).Elem", "reflect.Type.Elem":
		m := ex.term(args[0])
		if t, ok := ex.rtypes[m]; ok {
			if e, ok := under(t).(interface{ Elem() types.Type }); ok {
				return []Val{ex.rtypeOf(e.Elem())}, true
			}
		}
	}
	if ex.initing && (fn == nil || !ex.v.isModule(fn)) {
		return ex.freshResults(name, c.Signature()), true
	}
	return nil, false
}

// rtypeOf is the reflect.Type descriptor of a Go type known statically.
func (ex *Exec) rtypeOf(t types.Type) *Term {
	n := ex.v.tname(t)
	r := ex.tt.Var("rtype:"+n, SInt)
	ex.rtypes[r] = t
	if base := ex.tt.App("rtid", SInt, r); !ex.isUnfolded(base) {
		ex.s.frames[len(ex.s.frames)-1].unfolded[base] = 1
		ex.assume(ex.tt.Eq(ex.tt.App("rtid", SInt, r), ex.tid(n)))
		ex.assume(ex.tt.Lt(ex.tt.Int(0), r))
	}
	if f := ex.v.specs.Funs["kind"]; f != nil && f.Body == nil && !ex.initing && !ex.isUnfolded(r) {
		ex.s.frames[len(ex.s.frames)-1].unfolded[r] = 1
		u := func(n string, x *Term) *Term { return ex.tt.App("u:"+n, SInt, x) }
		switch e := types.Unalias(t).(type) {
		case *types.Pointer:
			x := ex.rtypeOf(e.Elem())
			ex.assume(ex.tt.Eq(u("telem", r), x))
			ex.assume(ex.tt.Eq(u("ptrto", x), r))
		case *types.Slice:
			x := ex.rtypeOf(e.Elem())
			ex.assume(ex.tt.Eq(u("telem", r), x))
			ex.assume(ex.tt.Eq(u("sliceof", x), r))
		case *types.Map:
			ex.assume(ex.tt.Eq(u("telem", r), ex.rtypeOf(e.Elem())))
			ex.assume(ex.tt.Eq(u("tkey", r), ex.rtypeOf(e.Key())))
		}
		// a pointer to a type known here implements an interface or does not: the compiler knows
		if f := ex.v.specs.Funs["ptrto"]; f != nil {
			if it := ex.v.typeOf("decoder.Unmarshaler"); it != nil {
				if ifc, ok := under(it).(*types.Interface); ok {
					im := ex.tt.App("u:impl", SBool, u("ptrto", r), ex.rtypeOf(it))
					if types.Implements(types.NewPointer(t), ifc) {
						ex.assume(im)
					} else {
						ex.assume(ex.tt.Not(im))
					}
				}
			}
		}
		if it, ok := under(t).(*types.Interface); ok {
			ex.assume(ex.tt.Eq(u("nmeth", r), ex.tt.Int(int64(it.NumMethods()))))
		}
	}
	if f := ex.v.specs.Funs["kind"]; f != nil && f.Body == nil {
		u := func(n string, x *Term) *Term { return ex.tt.App("u:"+n, SInt, x) }
		if k := reflectKind(t); k > 0 {
			ex.assume(ex.tt.Eq(u("kind", r), ex.tt.Int(k)))
		}
		if e, ok := under(t).(*types.Slice); ok {
			if k := reflectKind(e.Elem()); k > 0 {
				ex.assume(ex.tt.Eq(u("kind", u("telem", r)), ex.tt.Int(k)))
			}
		}
	}
	return r
}

// reflectKind is the reflect.Kind of a type.
func reflectKind(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// publish: what other goroutines can reach from now on is never written again.
func (ex *Exec) publish(st *State, v Val, t types.Type, pos token.Pos) {
	ex.bumpEpoch(st)
	r := ex.refTerm(v)
	if pt, ok := under(t).(*types.Pointer); ok {
		if _, ok := under(pt.Elem()).(*types.Map); ok {
			ex.seal(st, ex.term(ex.load(st, ex.ptrTo(v, pt.Elem()))), "a published map")
		}
	}
	ex.seal(st, r, "a published object")
}

func (ex *Exec) applyExtern(st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) {
	if ct := ex.v.contract("extern:"+name, ex.fn); ct != nil {
		ex.trusted["extern "+name] = true
		ex.applyContract(st, ct, args, c.Signature(), pos)
	}
}

func (ex *Exec) rtypeConst(n string) *Term {
	return ex.rtypeOf(ex.v.typeByName(n))
}

var _ = big.NewInt
var _ = strconv.Itoa
var _ = strings.Join
