package main

import (
	"bytes"
	"errors"
	"math"
	"math/rand/v2"
	"reflect"
	"sync"
)

// calls records the arguments custom unmarshalers receive.
var (
	callMu sync.Mutex
	calls  []string
)

func record(who string, b []byte) error {
	callMu.Lock()
	if len(calls) < 1<<16 {
		calls = append(calls, who+":"+string(b))
	}
	callMu.Unlock()
	if bytes.Contains(b, []byte("FAIL")) {
		return errCustom
	}
	return nil
}

var errCustom = errors.New("custom failure")

type CU struct {
	Raw string
	N   int
}

func (c *CU) UnmarshalPHP(b []byte) error { c.Raw = string(b); c.N += 1; return record("CU", b) }

type CUKeep struct{ Raw []byte }

func (c *CUKeep) UnmarshalPHP(b []byte) error { c.Raw = b; return record("CUKeep", b) }

type CUSlice []byte

func (c *CUSlice) UnmarshalPHP(b []byte) error { *c = append(*c, b...); return record("CUSlice", b) }

type CUInt int

func (c *CUInt) UnmarshalPHP(b []byte) error { *c += CUInt(len(b)); return record("CUInt", b) }

type CUMap map[string]string

func (c *CUMap) UnmarshalPHP(b []byte) error {
	if *c == nil {
		*c = CUMap{}
	}
	(*c)[string(b)] = "x"
	return record("CUMap", b)
}

type CUStr string

func (c *CUStr) UnmarshalPHP(b []byte) error { *c += CUStr(b); return record("CUStr", b) }

type CUArr [2]int

func (c *CUArr) UnmarshalPHP(b []byte) error { c[0] += len(b); c[1]++; return record("CUArr", b) }

type CUIface interface{ UnmarshalPHP([]byte) error }
type StrIface interface{ Foo() }

func (c *CU) Foo() {}

// marshalers
type CM struct{ Out string }

func (c CM) MarshalPHP() ([]byte, error) { return cmOut(c.Out) }

func cmOut(s string) ([]byte, error) {
	if s == "FAIL" {
		return nil, errCustom
	}
	return []byte(strLit(s).lit), nil
}

type CMP struct{ Out string }

func (c *CMP) MarshalPHP() ([]byte, error) {
	if c == nil {
		panic("MarshalPHP called on a nil pointer")
	}
	return cmOut(c.Out)
}

type CMInt int

func (c CMInt) MarshalPHP() ([]byte, error) {
	if c == 13 {
		return nil, errCustom
	}
	return []byte("i:" + string(rune('0'+byte(c)%10)) + ";"), nil
}

type CMStr string

func (c CMStr) MarshalPHP() ([]byte, error) { return cmOut(string(c)) }

type CMMap map[string]int

func (c CMMap) MarshalPHP() ([]byte, error) { return []byte("a:0:{}"), nil }

type CMSlice []int

func (c CMSlice) MarshalPHP() ([]byte, error) { return []byte("a:1:{i:0;N;}"), nil }

type CMArr [1]int

func (c CMArr) MarshalPHP() ([]byte, error) { return []byte("b:1;"), nil }

type CMPtrField struct{ P *int }

func (c CMPtrField) MarshalPHP() ([]byte, error) { return []byte("d:1;"), nil }

type MIface interface{ MarshalPHP() ([]byte, error) }

// named types
type NBool bool
type NI8 int8
type NI64 int64
type NU16 uint16
type NU64 uint64
type NF32 float32
type NF64 float64
type NStr string
type NByte byte
type NBytes []byte
type NBS []NByte
type NSlice []string
type NMap map[NStr]NI8
type NArr [3]int16

// recursive types
type RecS struct {
	V int              `php:"v"`
	P *RecS            `php:"p,omitempty"`
	S []RecS           `php:"s,omitempty"`
	M map[string]*RecS `php:"m,omitempty"`
	Q []*RecS          `php:"q,omitempty"`
}
type RSlice []RSlice
type RMap map[string]RMap
type RArr struct {
	X int
	A [2]*RArr
}
type RAny struct {
	X any
	Y []any
	Z map[string]any
	W [1]any
	P *any
	S any `php:"s,string"`
}

type Tagged struct {
	A    int    `php:"a"`
	B    string `php:"b,omitempty"`
	Skip int    `php:"-"`
	priv int
	Priv *int              `php:"-"`
	Dash int               `php:"-,"`
	C    []int             `php:"c,omitempty"`
	D    map[string]string `php:"d,omitempty"`
	E    *int              `php:"e,omitempty"`
	F    float64           `php:",omitempty"`
	G    [2]int            `php:"g,omitempty"`
	H    any               `php:"h,omitempty"`
	I    bool              `php:"i,omitempty,string"`
	J    uint8             `php:"j,string"`
	K    *float32          `php:"k,string"`
	L    string            `php:"l,string,omitempty"`
	Sp   int               `php:"with space"`
	Uni  int               `php:"ключ"`
	N    Inner             `php:"n"`
	O    *Inner            `php:"o"`
}
type Inner struct {
	X int
	Y string `php:"y,omitempty"`
}
type Strs struct {
	B   bool    `php:"b,string"`
	I   int     `php:"i,string"`
	I8  int8    `php:"i8,string"`
	I16 int16   `php:"i16,string"`
	I32 int32   `php:"i32,string"`
	I64 int64   `php:"i64,string"`
	U   uint    `php:"u,string"`
	U8  uint8   `php:"u8,string"`
	U16 uint16  `php:"u16,string"`
	U32 uint32  `php:"u32,string"`
	U64 uint64  `php:"u64,string"`
	F32 float32 `php:"f32,string"`
	F64 float64 `php:"f64,string"`
	S   string  `php:"s,string"`
}
type StrPtrs struct {
	B   *bool    `php:"b,string"`
	I   *int     `php:"i,string"`
	I64 *int64   `php:"i64,string"`
	U8  *uint8   `php:"u8,string"`
	U64 *uint64  `php:"u64,string"`
	F32 *float32 `php:"f32,string"`
	F64 *float64 `php:"f64,string"`
	S   *string  `php:"s,string"`
	N   *NI8     `php:"n,string"`
}
type CUHolder struct {
	A CU             `php:"a"`
	B *CU            `php:"b"`
	C []CU           `php:"c"`
	D map[string]CU  `php:"d"`
	E map[string]*CU `php:"e"`
	F [2]CU          `php:"f"`
	G map[CUStr]int  `php:"g"`
	H CUSlice        `php:"h"`
	I CUInt          `php:"i"`
	J CUMap          `php:"j"`
	K CUStr          `php:"k,string"`
	Z int            `php:"z"`
}
type CMHolder struct {
	A CM             `php:"a"`
	B *CM            `php:"b"`
	C *CMP           `php:"c"`
	D []CM           `php:"d"`
	E map[string]CM  `php:"e"`
	F [2]CMInt       `php:"f"`
	G any            `php:"g"`
	H MIface         `php:"h"`
	I []any          `php:"i"`
	J map[string]any `php:"j"`
	K CMInt          `php:"k,string"`
	L *CMStr         `php:"l"`
	M any            `php:"m,string"`
	N CMMap          `php:"n"`
	O CMSlice        `php:"o"`
	P CMArr          `php:"p,omitempty"`
	Q CMPtrField     `php:"q"`
	R []MIface       `php:"r"`
	S *CMMap         `php:"s"`
	T CMP            `php:"t"`
	U []*CMP         `php:"u"`
	V map[int]*CMP   `php:"v"`
}
type PtrOnly struct{ P *int }
type PtrOnly2 struct{ P *PtrOnly }
type MapOnly struct{ M map[string]int }
type ArrPtr [1]*int
type ArrMap [1]map[string]int
type AnyOnly struct{ X any }

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var (
	intTypes    = []reflect.Type{typeOf[int](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](), typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](), typeOf[NI8](), typeOf[NI64](), typeOf[NU16](), typeOf[NU64]()}
	floatTypes  = []reflect.Type{typeOf[float32](), typeOf[float64](), typeOf[NF32](), typeOf[NF64]()}
	stringTypes = []reflect.Type{typeOf[string](), typeOf[NStr](), typeOf[[]byte]()}
	boolTypes   = []reflect.Type{typeOf[bool](), typeOf[NBool]()}
	scalarTypes = cat(intTypes, floatTypes, stringTypes, boolTypes)
	keyTypes    = cat(intTypes, []reflect.Type{typeOf[string](), typeOf[NStr]()})
	anyT        = typeOf[any]()
	cuTypes     = []reflect.Type{typeOf[CU](), typeOf[CUSlice](), typeOf[CUInt](), typeOf[CUMap](), typeOf[CUStr](), typeOf[CUArr]()}
	cmTypes     = []reflect.Type{typeOf[CM](), typeOf[*CM](), typeOf[*CMP](), typeOf[CMInt](), typeOf[CMStr](), typeOf[CMMap](), typeOf[CMSlice](), typeOf[CMArr](), typeOf[CMPtrField](), typeOf[MIface](), typeOf[CMP](), typeOf[*CMMap](), typeOf[*CMInt]()}
	staticPlain = []reflect.Type{typeOf[NSlice](), typeOf[NMap](), typeOf[NArr](), typeOf[Inner](), typeOf[Strs](), typeOf[StrPtrs](), typeOf[PtrOnly](), typeOf[PtrOnly2](), typeOf[MapOnly](), typeOf[ArrPtr](), typeOf[ArrMap](), typeOf[[0]int](), typeOf[struct{}]()}
	staticRec   = []reflect.Type{typeOf[RecS](), typeOf[RSlice](), typeOf[RMap](), typeOf[RArr]()}
)

func cat(l ...[]reflect.Type) []reflect.Type {
	var r []reflect.Type
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

type rng struct{ *rand.Rand }

func newRng(seed, iter uint64) *rng {
	return &rng{rand.New(rand.NewPCG(seed, iter*0x9E3779B97F4A7C15+1))}
}
func (r *rng) p(n int) bool       { return r.IntN(100) < n }
func pick[T any](r *rng, l []T) T { return l[r.IntN(len(l))] }

// tmode selects what a random type may contain.
type tmode struct {
	iface, cu, cm, strTag, omit, skipF, rec, ptr, anyKey, decodeKeys, bad bool
	leaf                                                                  []reflect.Type
	noMap, noStruct                                                       bool
}

func (r *rng) typ(m *tmode, d int) reflect.Type {
	leaf := m.leaf
	if leaf == nil {
		leaf = scalarTypes
	}
	x := r.IntN(100)
	if d <= 0 && x >= 45 {
		x = r.IntN(45)
	}
	switch {
	case x < 30:
		return pick(r, leaf)
	case x < 36 && m.iface:
		return anyT
	case x < 42 && m.cu:
		return pick(r, cuTypes)
	case x < 42 && m.cm:
		return pick(r, cmTypes)
	case x < 44 && m.bad:
		return pick(r, []reflect.Type{typeOf[chan int](), typeOf[func()](), typeOf[complex128](), typeOf[complex64](), typeOf[uintptr](), typeOf[**int](), typeOf[map[float64]int](), typeOf[map[bool]int](), typeOf[map[Inner]int](), typeOf[map[any]int](), typeOf[map[*int]int](), typeOf[map[uintptr]int](), typeOf[map[[1]int]string]()})
	case x < 45:
		return pick(r, leaf)
	case x < 57 && m.ptr:
		t := r.typ(m, d-1)
		if t.Kind() == reflect.Ptr {
			return t
		}
		return reflect.PointerTo(t)
	case x < 69:
		return reflect.SliceOf(r.typ(m, d-1))
	case x < 76:
		return reflect.ArrayOf(r.IntN(4), r.typ(m, d-1))
	case x < 86 && !m.noMap:
		k := pick(r, keyTypes)
		if m.anyKey && r.p(10) {
			k = anyT
		}
		if m.decodeKeys && r.p(10) {
			k = pick(r, []reflect.Type{typeOf[bool](), anyT, typeOf[CUStr](), typeOf[CUInt](), typeOf[float64](), typeOf[[1]int](), typeOf[Inner]()})
		}
		return reflect.MapOf(k, r.typ(m, d-1))
	case x < 91 && m.rec:
		return pick(r, staticRec)
	case x < 94 && !m.noStruct:
		t := pick(r, staticPlain)
		if !m.strTag && (t == typeOf[Strs]() || t == typeOf[StrPtrs]()) {
			return typeOf[Inner]()
		}
		return t
	case m.noStruct:
		return reflect.SliceOf(r.typ(m, d-1))
	}
	return r.structType(m, d)
}

var fieldKeys = []string{"a", "b", "key", "A", "F0", "F1", "F2", "long key with spaces", "ключ", "0", "42", "x-y", "k:v"}

func (r *rng) structType(m *tmode, d int) reflect.Type {
	n := r.IntN(5)
	if r.p(3) {
		n = 12
	}
	var fs []reflect.StructField
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + string(rune('0'+i%10)) + string(rune('a'+i/10)), Type: r.typ(m, d-1)}
		if r.p(15) {
			f.Name = "G" + f.Name + "日本"
		}
		key := f.Name
		tag := ""
		if r.p(50) {
			key = pick(r, fieldKeys)
			tag = key
		}
		if m.strTag && r.p(25) {
			f.Type = pick(r, cat(intTypes, floatTypes, boolTypes, []reflect.Type{typeOf[string]()}))
			if r.p(30) {
				f.Type = reflect.PointerTo(f.Type)
			}
			tag += ",string"
		}
		if m.omit && r.p(35) {
			tag += ",omitempty"
		}
		if m.skipF && r.p(10) {
			tag = "-"
		}
		if m.skipF && r.p(8) {
			f.Name, f.PkgPath = "p"+f.Name, "oracle"
		}
		if used[key] {
			continue
		}
		used[key] = true
		if tag != "" {
			f.Tag = reflect.StructTag(`php:"` + tag + `"`)
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

var oddStrings = []string{"", "a", `"`, `";`, `";s:1:"`, "}", "\x00", "\xff\xfe", "日本語", "i:1;", "0", "-5", "FAILx", "N;", "a:1:{", "true", "key", "A", "F0a", "with space", "\n", `\`}

func (r *rng) str() string {
	switch r.IntN(10) {
	case 0, 1, 2, 3, 4:
		return pick(r, oddStrings)
	case 5:
		return string(bytes.Repeat([]byte{byte(r.IntN(256))}, r.IntN(200)))
	case 6:
		if r.p(10) {
			return string(bytes.Repeat([]byte("xy"), r.IntN(6000)))
		}
	}
	b := make([]byte, r.IntN(12))
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	return string(b)
}

func (r *rng) i64(bits int) int64 {
	switch r.IntN(8) {
	case 0:
		return 0
	case 1:
		return math.MaxInt64 >> (64 - bits)
	case 2:
		return math.MinInt64 >> (64 - bits)
	case 3:
		return -1
	case 4:
		return int64(r.IntN(100))
	case 5: // powers of ten and neighbours
		x := int64(1)
		for n := r.IntN(19); n > 0; n-- {
			x *= 10
		}
		x += int64(r.IntN(3) - 1)
		if r.p(50) {
			x = -x
		}
		return x << (64 - bits) >> (64 - bits)
	}
	return int64(r.Uint64()) >> (64 - bits) >> r.IntN(bits)
}

func (r *rng) u64(bits int) uint64 {
	switch r.IntN(6) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64 >> (64 - bits)
	case 2:
		return 1 << (bits - 1)
	case 3:
		x := uint64(1)
		for n := r.IntN(20); n > 0; n-- {
			x *= 10
		}
		x += uint64(r.IntN(3)) - 1
		return x << (64 - bits) >> (64 - bits)
	}
	return r.Uint64() >> (64 - bits) >> r.IntN(bits)
}

func (r *rng) f64(bits int) float64 {
	var f float64
	switch r.IntN(14) {
	case 0:
		f = 0
	case 1:
		f = math.Copysign(0, -1)
	case 2:
		f = math.Inf(1)
	case 3:
		f = math.Inf(-1)
	case 4:
		f = math.NaN()
	case 5:
		f = math.MaxFloat64
		if bits == 32 {
			f = math.MaxFloat32
		}
	case 6:
		f = math.SmallestNonzeroFloat64
		if bits == 32 {
			f = math.SmallestNonzeroFloat32
		}
	case 7:
		f = float64(r.i64(64))
	case 8:
		f = float64(r.IntN(2000)-1000) / 8
	case 9:
		f = float64(r.IntN(2000)-1000) / 10
	case 10:
		f = math.Pow(10, float64(r.IntN(60)-30))
	case 11:
		f = pick(r, []float64{1e20, 1e21, 1e22, 1e-5, 1e-6, 1e-7, 123456789, 0.1, 3.14, 16777217, 1e15, 1e16})
	default:
		if bits == 32 {
			f = float64(math.Float32frombits(r.Uint32()))
		} else {
			f = math.Float64frombits(r.Uint64())
		}
	}
	if bits == 32 {
		return float64(float32(f))
	}
	return f
}

// vmode selects what a random value may contain.
type vmode struct {
	dyn      []reflect.Type // dynamic types for interfaces
	dynMode  *tmode
	noNaN    bool
	noFail   bool
	nilProb  int
	noNilPtd bool // no pointer to a nil slice or map
}

func (r *rng) val(t reflect.Type, m *vmode, d int) reflect.Value {
	v := reflect.New(t).Elem()
	r.fill(v, m, d)
	return v
}

func (r *rng) fill(v reflect.Value, m *vmode, d int) {
	t := v.Type()
	switch k := t.Kind(); {
	case k == reflect.Bool:
		v.SetBool(r.p(50))
	case isInt(k):
		v.SetInt(r.i64(t.Bits()))
		if t == typeOf[CMInt]() && m.noFail && v.Int() == 13 {
			v.SetInt(1)
		}
	case isUint(k):
		v.SetUint(r.u64(t.Bits()))
	case isFloat(k):
		f := r.f64(t.Bits())
		if m.noNaN && f != f {
			f = 1.5
		}
		v.SetFloat(f)
	case k == reflect.String:
		s := r.str()
		if r.p(3) && !m.noFail {
			s = "FAIL"
		}
		v.SetString(s)
	case k == reflect.Complex64 || k == reflect.Complex128:
		v.SetComplex(1)
	case k == reflect.Ptr:
		if d <= 0 || r.p(15+m.nilProb) {
			return
		}
		v.Set(reflect.New(t.Elem()))
		r.fill(v.Elem(), m, d-1)
		if e := v.Elem(); m.noNilPtd && (e.Kind() == reflect.Slice || e.Kind() == reflect.Map) && e.IsNil() {
			v.SetZero()
		}
	case k == reflect.Interface:
		if d <= 0 || r.p(15) {
			return
		}
		if t == typeOf[MIface]() {
			x := pick(r, []reflect.Type{typeOf[CM](), typeOf[*CM](), typeOf[*CMP](), typeOf[CMInt](), typeOf[CMMap]()})
			v.Set(r.val(x, m, d-1))
			return
		}
		if t.NumMethod() > 0 {
			if t == typeOf[CUIface]() {
				v.Set(reflect.ValueOf(&CU{}))
			}
			return
		}
		var dt reflect.Type
		if len(m.dyn) > 0 && (m.dynMode == nil || r.p(50)) {
			dt = pick(r, m.dyn)
		} else if m.dynMode != nil {
			dt = r.typ(m.dynMode, min(d, 2))
		} else {
			return
		}
		v.Set(r.val(dt, m, d-1))
	case k == reflect.Slice:
		if d <= 0 || r.p(10) {
			if r.p(50) {
				v.Set(reflect.MakeSlice(t, 0, r.IntN(3)))
			}
			return
		}
		n := r.IntN(4)
		if r.p(3) {
			n = 9 + r.IntN(120)
			d = min(d, 1)
		}
		if t.Elem().Kind() == reflect.Uint8 {
			s := r.str()
			v.Set(reflect.MakeSlice(t, len(s), len(s)+r.IntN(4)))
			for i := 0; i < len(s); i++ {
				v.Index(i).SetUint(uint64(s[i]))
			}
			return
		}
		v.Set(reflect.MakeSlice(t, n, n+r.IntN(3)))
		for i := 0; i < n; i++ {
			r.fill(v.Index(i), m, d-1)
		}
	case k == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !r.p(20) {
				r.fill(v.Index(i), m, d-1)
			}
		}
	case k == reflect.Map:
		if d <= 0 || r.p(10) {
			if r.p(50) {
				v.Set(reflect.MakeMap(t))
			}
			return
		}
		n := r.IntN(4)
		if r.p(3) {
			n = 30
			d = min(d, 1)
		}
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			kv := r.val(t.Key(), m, 1)
			if kv.Comparable() {
				v.SetMapIndex(kv, r.val(t.Elem(), m, d-1))
			}
		}
	case k == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && !r.p(15) {
				r.fill(v.Field(i), m, d-1)
			}
		}
	}
}

// equal compares decoded values: NaN equals NaN, unexported fields are ignored when not comparable.
func equal(a, b reflect.Value, nilEmpty bool) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch k := a.Kind(); {
	case k == reflect.Bool:
		return a.Bool() == b.Bool()
	case isInt(k):
		return a.Int() == b.Int()
	case isUint(k):
		return a.Uint() == b.Uint()
	case isFloat(k):
		x, y := a.Float(), b.Float()
		return x != x && y != y || x == y && (nilEmpty || math.Signbit(x) == math.Signbit(y))
	case k == reflect.String:
		return a.String() == b.String()
	case k == reflect.Ptr, k == reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem(), nilEmpty)
	case k == reflect.Slice:
		if a.Len() != b.Len() || !nilEmpty && a.IsNil() != b.IsNil() {
			return false
		}
		fallthrough
	case k == reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i), nilEmpty) {
				return false
			}
		}
		return true
	case k == reflect.Map:
		if a.Len() != b.Len() || !nilEmpty && a.IsNil() != b.IsNil() {
			return false
		}
		used := make([]reflect.Value, 0)
		it := a.MapRange()
		for it.Next() {
			w := b.MapIndex(it.Key())
			if !w.IsValid() {
				// NaN keys and the like
				found := false
				jt := b.MapRange()
				for jt.Next() {
					if equal(it.Key(), jt.Key(), nilEmpty) && equal(it.Value(), jt.Value(), nilEmpty) {
						found = true
					}
				}
				if !found {
					return false
				}
				continue
			}
			if !equal(it.Value(), w, nilEmpty) {
				return false
			}
		}
		_ = used
		return true
	case k == reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i), nilEmpty) {
				return false
			}
		}
		return true
	}
	return true
}
