package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// SliceV is a slice (or, in specifications, a byte string) as a window of an array.
type SliceV struct {
	base, off, len, cap *Term
	arr                 *Term // explicit content (spec parameters); nil: look up in the heap
	elem                types.Type
	heap                string // heap array holding the elements, "" = default by element type
}

// BytesV is an abstract []byte: content in the free monoid plus the backing region it lives in.
type BytesV struct {
	t      *Term // Bs content
	region *Region
	seq    int // version of the region this value was produced at
	zero   bool
	nilv   bool
	cut    bool  // a proper prefix of the memory's content: writing behind it overwrites
	n      *Term // length for make([]byte, n)
}

type Region struct {
	id    int
	name  string
	owner *Term // object whose field holds this memory
	fresh bool  // allocated by the function under verification and not shared with a pool
}

type StructV struct {
	typ    *types.Struct
	named  types.Type
	fields []Val
}

// ArrayV is an array value: a snapshot of its element array.
type ArrayV struct {
	arr  *Term
	n    int64
	elem types.Type
	tab  map[int64]*Term
}

type TupleV []Val

// PtrV is an address inside an object: heap array name + base object (+ element index).
type PtrV struct {
	heap string
	base *Term
	idx  *Term
	typ  types.Type // type of the location
}

type FuncV struct {
	term  *Term
	fn    *ssa.Function
	binds []Val
}

// ---- Go types ----

func under(t types.Type) types.Type { return t.Underlying() }

var byteRe = regexp.MustCompile(`\bbyte\b`)
var runeRe = regexp.MustCompile(`\brune\b`)

func (v *Verifier) tname(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "byte") {
		s = byteRe.ReplaceAllString(s, "uint8")
	}
	if strings.Contains(s, "rune") {
		s = runeRe.ReplaceAllString(s, "int32")
	}
	if strings.Contains(s, "interface{}") {
		s = strings.ReplaceAll(s, "interface{}", "any")
	}
	return s
}

func isOpaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "reflect.Value", "reflect.MapIter", "sync.Pool", "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.Map":
			return true
		}
		switch n.Obj().Pkg().Path() {
		case "sync/atomic", "strings", "bytes":
			_, ok := n.Underlying().(*types.Struct)
			return ok
		}
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

type intInfo struct {
	bits   uint
	signed bool
}

func intOf(t types.Type) (intInfo, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	}
	return intInfo{}, false
}
func (i intInfo) min() *big.Int {
	if !i.signed {
		return big.NewInt(0)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), i.bits-1))
}
func (i intInfo) max() *big.Int {
	b := i.bits
	if i.signed {
		b--
	}
	x := new(big.Int).Lsh(big.NewInt(1), b)
	return x.Sub(x, big.NewInt(1))
}

type comp struct {
	suffix string
	sort   Sort
	typ    types.Type // leaf type
}

// comps lists the scalar components a value of type t is stored as.
func (ex *Exec) comps(t types.Type) []comp {
	if isOpaqueStruct(t) {
		return []comp{{"", SInt, t}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool || u.Kind() == types.UntypedBool:
			return []comp{{"", SBool, t}}
		case u.Info()&types.IsFloat != 0:
			return []comp{{"", SFlt, t}}
		}
		return []comp{{"", SInt, t}}
	case *types.Slice:
		if ex.absBytes && isByteSlice(t) {
			return []comp{{".bs", SBs, t}}
		}
		return []comp{{".base", SInt, t}, {".off", SInt, t}, {".len", SInt, t}, {".cap", SInt, t}}
	case *types.Struct:
		var out []comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range ex.comps(u.Field(i).Type()) {
				out = append(out, comp{"." + u.Field(i).Name() + c.suffix, c.sort, c.typ})
			}
		}
		return out
	case *types.Array:
		cs := ex.comps(u.Elem())
		if len(cs) == 1 {
			return []comp{{".arr", SArr(cs[0].sort), t}}
		}
		panic(unsupported("array of composite type " + t.String()))
	}
	return []comp{{"", SInt, t}}
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

func (ex *Exec) flatten(v Val, t types.Type) []*Term {
	if isOpaqueStruct(t) {
		return []*Term{ex.term(v)}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		if ex.absBytes && isByteSlice(t) {
			return []*Term{v.(*BytesV).t}
		}
		s := v.(*SliceV)
		return []*Term{s.base, s.off, s.len, s.cap}
	case *types.Struct:
		sv := v.(*StructV)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.flatten(sv.fields[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		return []*Term{v.(*ArrayV).arr}
	}
	return []*Term{ex.term(v)}
}

func (ex *Exec) unflatten(ts []*Term, t types.Type) (Val, []*Term) {
	if isOpaqueStruct(t) {
		return ts[0], ts[1:]
	}
	switch u := under(t).(type) {
	case *types.Slice:
		if ex.absBytes && isByteSlice(t) {
			return &BytesV{t: ts[0], region: ex.newRegion("loaded", false)}, ts[1:]
		}
		return &SliceV{base: ts[0], off: ts[1], len: ts[2], cap: ts[3], elem: u.Elem()}, ts[4:]
	case *types.Struct:
		sv := &StructV{typ: u, named: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = ex.unflatten(ts, u.Field(i).Type())
			sv.fields = append(sv.fields, f)
		}
		return sv, ts
	case *types.Array:
		return &ArrayV{arr: ts[0], n: u.Len(), elem: u.Elem()}, ts[1:]
	case *types.Signature:
		if f := ex.funcs[ts[0]]; f != nil {
			return f, ts[1:]
		}
	}
	return ts[0], ts[1:]
}

// assumeType asserts what the type of a freshly introduced value guarantees.
func (ex *Exec) assumeType(v Val, t types.Type) {
	tt := ex.tt
	if isOpaqueStruct(t) {
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if ii, ok := intOf(t); ok {
			x := ex.term(v)
			if !x.isConst() {
				ex.assume(tt.And(tt.Le(tt.Big(ii.min()), x), tt.Le(x, tt.Big(ii.max()))))
			}
		} else if u.Info()&types.IsString != 0 {
			ex.assume(tt.And(tt.Le(tt.Int(0), ex.slen(ex.term(v))), tt.Le(ex.slen(ex.term(v)), tt.Int(1<<56))))
		}
	case *types.Slice:
		if s, ok := v.(*SliceV); ok {
			lim := tt.Int(1 << 56) // machine assumption: address space
			ex.assume(tt.And(tt.Le(tt.Int(0), s.off), tt.Le(tt.Int(0), s.len), tt.Le(s.len, s.cap), tt.Le(tt.Add(s.off, s.cap), lim),
				tt.Imp(tt.Eq(s.base, tt.Int(0)), tt.Eq(s.cap, tt.Int(0)))))
		}
	case *types.Struct:
		if sv, ok := v.(*StructV); ok {
			for i := 0; i < u.NumFields(); i++ {
				ex.assumeType(sv.fields[i], u.Field(i).Type())
			}
		}
	}
}

func (ex *Exec) freshVal(name string, t types.Type) Val {
	var ts []*Term
	for _, c := range ex.comps(t) {
		ts = append(ts, ex.tt.Fresh(name+c.suffix, c.sort))
	}
	v, _ := ex.unflatten(ts, t)
	if b, ok := v.(*BytesV); ok {
		b.region = ex.newRegion(name, false)
	}
	ex.assumeType(v, t)
	return v
}

func (ex *Exec) zeroVal(t types.Type) Val {
	tt := ex.tt
	if isOpaqueStruct(t) {
		return tt.Int(0)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsFloat != 0:
			return tt.Var("flt.0", SFlt)
		case u.Info()&types.IsString != 0:
			return ex.strLit("")
		}
		return tt.Int(0)
	case *types.Slice:
		if ex.absBytes && isByteSlice(t) {
			return &BytesV{t: ex.bsEmpty(), region: ex.newRegion("nil", true), nilv: true}
		}
		z := tt.Int(0)
		return &SliceV{base: z, off: z, len: z, cap: z, elem: u.Elem()}
	case *types.Struct:
		sv := &StructV{typ: u, named: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, ex.zeroVal(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		z := ex.flatten(ex.zeroVal(u.Elem()), u.Elem())
		if len(z) != 1 {
			panic(unsupported("array of " + u.Elem().String()))
		}
		return &ArrayV{arr: tt.ConstArr(z[0]), n: u.Len(), elem: u.Elem()}
	}
	return tt.Int(0)
}

// term converts a value to a single term.
func (ex *Exec) term(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *FuncV:
		return x.term
	case *PtrV:
		if x.idx != nil {
			return ex.tt.App("addr:"+x.heap, SInt, x.base, x.idx)
		}
		return ex.tt.App("addr:"+x.heap, SInt, x.base)
	case *BytesV:
		return x.t
	case *SliceV:
		if x.arr == nil {
			return ex.tt.App("slicev", SInt, x.base, x.off, x.len, x.cap)
		}
	case *StructV:
		var ts []*Term
		for _, f := range x.fields {
			ts = append(ts, ex.term(f))
		}
		return ex.tt.App("struct:"+ex.v.tname(x.named), SInt, ts...)
	}
	panic(unsupported(fmt.Sprintf("value %T used as a term", v)))
}

func (ex *Exec) newRegion(name string, fresh bool) *Region {
	ex.nregion++
	return &Region{id: ex.nregion, name: name, fresh: fresh}
}
