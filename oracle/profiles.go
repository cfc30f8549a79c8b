package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"

	phpserialize "github.com/trim21/go-phpserialize"
)

// Fail describes an observed violation.
type Fail struct {
	What   string `json:"what"`
	Type   string `json:"type,omitempty"`
	Input  string `json:"input,omitempty"`
	Detail string `json:"detail,omitempty"`
}

func failf(t reflect.Type, in string, f string, a ...any) *Fail {
	ft := &Fail{What: fmt.Sprintf(f, a...), Input: clip([]byte(in))}
	if t != nil {
		ft.Type = clip([]byte(t.String()))
	}
	return ft
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "invalid"
	}
	return clip([]byte(fmt.Sprintf("%#v", v.Interface())))
}

func libUnmarshal(buf []byte, x any) (err error, pan any) {
	defer func() { pan = recover() }()
	return phpserialize.Unmarshal(buf, x), nil
}

func libMarshal(x any) (out []byte, err error, pan any) {
	defer func() { pan = recover() }()
	out, err = phpserialize.Marshal(x)
	return
}

type decOpt struct {
	onlyAccept bool // judge only wrongly accepted inputs
	onlyReject bool // judge only wrongly rejected inputs
}

func takeCalls() []string {
	callMu.Lock()
	defer callMu.Unlock()
	c := calls
	calls = nil
	return c
}

// decodeCase compares Unmarshal with the reference on one input.
func decodeCase(buf []byte, t reflect.Type, preset func() reflect.Value, o decOpt) *Fail {
	if bigIndex(buf) && hasSlice(t, map[reflect.Type]bool{}) {
		return nil
	}
	a, b := reflect.New(t), reflect.New(t)
	if preset != nil {
		a.Elem().Set(preset())
		b.Elem().Set(preset())
	}
	in := append([]byte{}, buf...)
	takeCalls()
	err, pan := libUnmarshal(in, a.Interface())
	lc := takeCalls()
	if pan != nil {
		return failf(t, string(buf), "Unmarshal panics: %v", pan)
	}
	if !bytes.Equal(in, buf) {
		return failf(t, string(buf), "Unmarshal modified its input")
	}
	if o.onlyAccept && err != nil {
		return nil
	}
	ok := refUnmarshal(buf, b.Elem())
	rc := takeCalls()
	switch {
	case ok && err != nil:
		return failf(t, string(buf), "Unmarshal rejects a valid input: %v", err)
	case !ok && err == nil:
		if o.onlyReject {
			return nil
		}
		return failf(t, string(buf), "Unmarshal accepts an invalid input, storing %s", show(a.Elem()))
	case !ok || o.onlyAccept:
		return nil
	}
	if !equal(a.Elem(), b.Elem(), false) {
		return failf(t, string(buf), "Unmarshal stores %s, expected %s", show(a.Elem()), show(b.Elem()))
	}
	if len(lc) != len(rc) {
		return failf(t, string(buf), "custom unmarshalers called with %q, expected %q", lc, rc)
	}
	for i := range lc {
		if lc[i] != rc[i] {
			return failf(t, string(buf), "custom unmarshalers called with %q, expected %q", lc, rc)
		}
	}
	return nil
}

// encodeCase compares Marshal with the reference on one value.
func encodeCase(x any) ([]byte, *Fail) {
	want, st := refMarshal(x)
	out, err, pan := libMarshal(x)
	t := reflect.TypeOf(x)
	in := func() string { return fmt.Sprintf("%#v", x) }
	switch {
	case pan != nil:
		return nil, failf(t, in(), "Marshal panics: %v", pan)
	case err != nil && len(out) != 0:
		return nil, failf(t, in(), "Marshal returns output %q together with an error", clip(out))
	case st == encUnspec:
		return nil, nil
	case st == encErr && err == nil:
		return nil, failf(t, in(), "Marshal gives %q, expected an error", clip(out))
	case st == encErr:
		return nil, nil
	case err != nil:
		return nil, failf(t, in(), "Marshal fails on a supported value: %v", err)
	}
	if err := matchAll(out, want); err != nil {
		return nil, failf(t, in(), "Marshal output %q: %v", clip(out), err)
	}
	return out, nil
}

func (r *rng) preset(t reflect.Type, p int) func() reflect.Value {
	if !r.p(p) {
		return nil
	}
	s := r.Uint64()
	return func() reflect.Value {
		rr := newRng(s, 77)
		return rr.val(t, &vmode{dyn: scalarTypes, noFail: true}, 3)
	}
}

var (
	decAll  = &tmode{iface: true, cu: true, strTag: true, skipF: true, rec: true, ptr: true, decodeKeys: true, anyKey: true}
	encAll  = &tmode{iface: true, strTag: true, omit: true, skipF: true, rec: true, ptr: true}
	encCM   = &tmode{iface: true, cm: true, strTag: true, omit: true, skipF: true, rec: true, ptr: true}
	encBad  = &tmode{iface: true, cm: true, strTag: true, omit: true, skipF: true, rec: true, ptr: true, bad: true}
	trip    = &tmode{ptr: true, rec: true, omit: true, skipF: true, strTag: true}
	encDyn  = &tmode{iface: true, cm: true, strTag: true, omit: true, rec: true, ptr: true}
	encDynN = &tmode{iface: true, strTag: true, omit: true, rec: true, ptr: true}
)

func intsIn(r *rng, leaf []reflect.Type, d int) reflect.Type {
	return r.typ(&tmode{leaf: leaf, ptr: true, anyKey: false, iface: true}, d)
}

var profiles = map[string]func(r *rng) *Fail{
	"C01": func(r *rng) *Fail {
		t := r.typ(decAll, 3)
		var buf []byte
		switch r.IntN(10) {
		case 0:
			buf = make([]byte, r.IntN(40))
			for i := range buf {
				buf[i] = byte(r.IntN(256))
			}
		case 1:
			for n := r.IntN(10); n > 0; n-- {
				buf = append(buf, pick(r, splice)...)
			}
		default:
			buf = r.input(t, &gmode{noise: 10, null: 5, extra: 20, mutate: 80, counts: 20, objs: true, oddNum: 10}, 4)
		}
		if r.p(15) { // counts and lengths far beyond the input
			big := pick(r, []string{"99999999", "2147483647", "999999999", "4294967296", "9223372036854775807", "4611686018427387903", "1152921504606846976", "18446744073709551615", "300000000"})
			buf = bytes.Replace(buf, []byte(":1:"), []byte(":"+big+":"), 1+r.IntN(3))
			buf = bytes.Replace(buf, []byte(":2:"), []byte(":"+big+":"), 1+r.IntN(2))
		}
		if bigIndex(buf) && hasSlice(t, map[reflect.Type]bool{}) {
			return nil
		}
		if t.Size() > 1<<16 {
			return nil
		}
		var dst any
		switch r.IntN(30) {
		case 0:
			dst = nil
		case 1:
			dst = 5
		case 2:
			dst = reflect.Zero(reflect.PointerTo(t)).Interface()
		case 3:
			dst = reflect.New(t).Elem().Interface()
		default:
			p := reflect.New(t)
			if f := r.preset(t, 30); f != nil {
				p.Elem().Set(f())
			}
			dst = p.Interface()
		}
		check := !bytes.ContainsAny(buf, "") && len(buf) < 4096
		var m0, m1 runtime.MemStats
		if check {
			runtime.ReadMemStats(&m0)
		}
		_, pan := libUnmarshal(append([]byte{}, buf...), dst)
		if check {
			runtime.ReadMemStats(&m1)
		}
		takeCalls()
		if pan != nil {
			return failf(t, string(buf), "Unmarshal panics: %v", pan)
		}
		// indexes up to 2^17 with small elements are the most the inputs kept above ask for
		if check && m1.TotalAlloc-m0.TotalAlloc > 1<<24+uint64(len(buf))<<14 && !bytes.Contains(buf, []byte("000;")) && !hasBigIdx(buf) {
			return failf(t, string(buf), "Unmarshal allocates %d bytes for %d bytes of input", m1.TotalAlloc-m0.TotalAlloc, len(buf))
		}
		return nil
	},
	"C02": func(r *rng) *Fail {
		t := r.typ(decAll, 3)
		buf := r.input(t, &gmode{noise: 1, null: 3, extra: 15, objs: true}, 4)
		if f := decodeCase(buf, t, nil, decOpt{onlyAccept: true}); f != nil {
			return f
		}
		var v = reflect.New(t).Elem()
		if len(buf) < 400 && refUnmarshal(buf, v) {
			for k := 0; k < 6; k++ {
				n := r.IntN(len(buf))
				if k == 0 {
					n = len(buf) - 1
				}
				if err, pan := libUnmarshal(append([]byte{}, buf[:n]...), reflect.New(t).Interface()); err == nil && pan == nil {
					return failf(t, string(buf[:n]), "Unmarshal accepts a proper prefix of a valid encoding")
				}
				// bytes behind the slice must not matter either
				if err, pan := libUnmarshal(buf[:n:len(buf)], reflect.New(t).Interface()); err == nil && pan == nil {
					return failf(t, string(buf[:n]), "Unmarshal accepts a proper prefix of a valid encoding (the rest follows in the backing array)")
				}
				x := append(append([]byte{}, buf...), pick(r, []string{"\x00", "}", ";", "N;", "i", " ", "\n", "\xff", "N", "a:0:{}"})...)
				if err, pan := libUnmarshal(x, reflect.New(t).Interface()); err == nil && pan == nil {
					return failf(t, string(x), "Unmarshal accepts bytes after a valid encoding")
				}
			}
		}
		for k := 0; k < 4; k++ {
			b2 := r.mutateBytes(buf)
			if f := decodeCase(b2, t, nil, decOpt{onlyAccept: true}); f != nil {
				return f
			}
		}
		return nil
	},
	"C03": func(r *rng) *Fail {
		t := intsIn(r, intTypes, 2)
		g := &gmode{oddNum: 45, noise: 2, objs: true}
		if r.p(20) {
			t = pick(r, []reflect.Type{typeOf[Strs](), typeOf[StrPtrs](), typeOf[any](), typeOf[map[any]int8](), typeOf[map[int64]any](), typeOf[map[NI8]NU64](), typeOf[map[uint64]uint8]()})
		} else if r.p(50) {
			t = pick(r, intTypes)
			g.oddNum = 60
		}
		return decodeCase(r.input(t, g, 3), t, nil, decOpt{})
	},
	"C04": func(r *rng) *Fail {
		t := r.typ(&tmode{leaf: stringTypes, ptr: true, iface: true}, 2)
		if r.p(10) {
			t = pick(r, []reflect.Type{typeOf[map[string]string](), typeOf[map[any]any](), typeOf[any](), typeOf[NBytes](), typeOf[NBS](), typeOf[Strs](), typeOf[map[NStr][]byte]()})
		}
		buf := r.input(t, &gmode{objs: true}, 3)
		if r.p(60) { // tamper with a declared length
			if f := decodeCase(buf, t, nil, decOpt{}); f != nil {
				return f
			}
			buf = tamper(r, buf)
		} else if r.p(30) {
			buf = r.mutateBytes(buf)
		}
		return decodeCase(buf, t, nil, decOpt{})
	},
	"C05": func(r *rng) *Fail {
		g := &gen{rng: r, m: &gmode{oddNum: 8, counts: 3, objs: true}, n: 60}
		g.any(4)
		junk := []byte(g.sb.String())
		if r.p(50) {
			junk = r.mutateBytes(junk)
		}
		var t reflect.Type
		var pre, post string
		switch r.IntN(5) {
		case 0:
			t, pre, post = typeOf[Tagged](), `a:3:{s:1:"a";i:5;s:3:"zzz";`, `s:1:"b";s:3:"end";}`
		case 1:
			t, pre, post = typeOf[[2]int](), `a:3:{i:1;i:7;i:2;`, `i:0;i:5;}`
		case 2:
			t, pre, post = typeOf[CUHolder](), `a:3:{s:1:"a";`, `s:1:"z";i:5;}`
		case 3:
			t, pre, post = typeOf[struct {
				S []Inner
				Z int
			}](), `a:2:{s:1:"S";a:1:{i:0;a:2:{s:1:"q";`, `s:1:"X";i:3;}}s:1:"Z";i:5;}`
		case 4:
			t, pre, post = typeOf[[]CU](), `a:2:{i:0;`, `i:1;i:5;}`
		}
		return decodeCase([]byte(pre+string(junk)+post), t, nil, decOpt{})
	},
	"C06": depthCase,
	"C07": func(r *rng) *Fail {
		t := r.typ(&tmode{leaf: cuTypes, ptr: true, cu: true}, 3)
		if r.p(30) {
			t = typeOf[CUHolder]()
		}
		if r.p(15) {
			t = pick(r, []reflect.Type{typeOf[map[CUStr]CU](), typeOf[map[string]*CUMap](), typeOf[struct{ X CUIface }](), typeOf[struct{ X StrIface }](), typeOf[map[CUInt]int](), typeOf[[]*CUSlice](), typeOf[*CUMap](), typeOf[*CU]()})
		}
		return decodeCase(r.input(t, &gmode{null: 10, extra: 10, mutate: 30, objs: true, noise: 1}, 4), t, r.preset(t, 30), decOpt{})
	},
	"C08": isolationCase,
	"C09": historyCase,
	"C10": concurrentCase,
	"C11": func(r *rng) *Fail {
		t := r.typ(encAll, 4)
		v := r.val(t, &vmode{dynMode: encDynN, dyn: scalarTypes}, 5)
		out, f := encodeCase(v.Interface())
		if f == nil && out != nil {
			tk := &tok{out}
			if e, ok := tk.skip(0, 0); !ok || e != len(out) {
				return failf(t, show(v), "Marshal output %q is not one well-formed value", clip(out))
			}
		}
		return f
	},
	"C12": func(r *rng) *Fail {
		t := pick(r, scalarTypes)
		v := r.val(t, &vmode{}, 3)
		var x any
		switch r.IntN(8) {
		case 0:
			x = []any{v.Interface()}
		case 1:
			s := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
			s.Index(0).Set(v)
			x = s.Interface()
		case 2:
			if t.Kind() == reflect.Slice {
				return nil
			}
			p := reflect.New(t)
			p.Elem().Set(v)
			x = p.Interface()
		case 3:
			k := pick(r, keyTypes)
			m := reflect.MakeMap(reflect.MapOf(k, t))
			m.SetMapIndex(r.val(k, &vmode{}, 2), v)
			x = m.Interface()
		case 4:
			st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: anyT}, {Name: "C", Type: reflect.PointerTo(t)}})
			s := reflect.New(st).Elem()
			s.Field(0).Set(v)
			s.Field(1).Set(v)
			s.Field(2).Set(reflect.New(t))
			s.Field(2).Elem().Set(v)
			x = s.Interface()
		default:
			x = v.Interface()
		}
		_, f := encodeCase(x)
		return f
	},
	"C13": func(r *rng) *Fail {
		t := pick(r, []reflect.Type{typeOf[Strs](), typeOf[StrPtrs]()})
		if r.p(30) {
			t = r.structType(&tmode{leaf: boolTypes, strTag: true, ptr: true}, 1)
		}
		if r.p(50) {
			v := r.val(t, &vmode{}, 3)
			out, f := encodeCase(v.Interface())
			if f != nil || out == nil {
				return f
			}
			return roundTrip(v, out)
		}
		return decodeCase(r.input(t, &gmode{oddNum: 40, noise: 3, null: 5, mutate: 10}, 3), t, r.preset(t, 20), decOpt{})
	},
	"C14": func(r *rng) *Fail {
		t := r.structType(&tmode{iface: true, omit: true, skipF: true, ptr: true, strTag: true}, 3)
		if r.p(30) {
			t = pick(r, []reflect.Type{typeOf[Tagged](), typeOf[RecS](), typeOf[PtrOnly](), typeOf[PtrOnly2](), typeOf[MapOnly](), typeOf[AnyOnly](), typeOf[Inner]()})
		}
		v := r.val(t, &vmode{dynMode: encDynN, dyn: cat(scalarTypes, []reflect.Type{typeOf[Tagged](), typeOf[PtrOnly](), typeOf[Inner](), typeOf[MapOnly]()})}, 4)
		_, f := encodeCase(r.wrap(v))
		return f
	},
	"C15": cycleCase,
	"C16": func(r *rng) *Fail {
		t := r.typ(trip, 4)
		v := r.val(t, &vmode{noNilPtd: true}, 5)
		out, err, pan := libMarshal(v.Interface())
		if !encodable(t, map[reflect.Type]bool{}) || !decodable(t, map[reflect.Type]bool{}) {
			return nil
		}
		if err != nil || pan != nil {
			return failf(t, show(v), "Marshal fails: %v %v", err, pan)
		}
		return roundTrip(v, out)
	},
	"C17": func(r *rng) *Fail {
		t := r.typ(decAll, 3)
		return decodeCase(r.input(t, &gmode{null: 50, objs: true}, 4), t, r.preset(t, 75), decOpt{})
	},
	"C18": func(r *rng) *Fail {
		e := r.typ(&tmode{leaf: scalarTypes, ptr: true, iface: true}, 1)
		t := reflect.SliceOf(e)
		if r.p(45) {
			t = reflect.ArrayOf(r.IntN(5), e)
		}
		if r.p(20) {
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: `php:"a"`}, {Name: "B", Type: reflect.SliceOf(t)}, {Name: "Z", Type: typeOf[int]()}})
		}
		if r.p(15) {
			t = pick(r, []reflect.Type{typeOf[[]byte](), typeOf[[][2]int](), typeOf[[2][]string](), typeOf[NSlice](), typeOf[NArr](), typeOf[map[string][]int](), typeOf[[]struct{}](), typeOf[[0]int]()})
		}
		return decodeCase(r.input(t, &gmode{noise: 4, null: 3, mutate: 15, extra: 10}, 4), t, r.preset(t, 50), decOpt{})
	},
	"C19": func(r *rng) *Fail {
		t := pick(r, []reflect.Type{anyT, anyT, anyT, typeOf[[]any](), typeOf[map[string]any](), typeOf[RAny](), typeOf[AnyOnly](), typeOf[map[any]any](), typeOf[*any](), typeOf[[2]any]()})
		return decodeCase(r.input(t, &gmode{oddNum: 5, mutate: 10, null: 5, objs: true}, 4), t, r.preset(t, 60), decOpt{})
	},
	"C20": func(r *rng) *Fail {
		t := r.structType(&tmode{skipF: true, ptr: true, leaf: scalarTypes}, 2)
		if r.p(30) {
			t = pick(r, []reflect.Type{typeOf[Tagged](), typeOf[Inner](), typeOf[RecS]()})
		}
		if r.p(30) {
			v := r.val(t, &vmode{}, 3)
			if _, f := encodeCase(v.Interface()); f != nil {
				return f
			}
		}
		return decodeCase(r.input(t, &gmode{extra: 40, objs: true, null: 3, mutate: 5}, 3), t, r.preset(t, 50), decOpt{})
	},
	"C21": func(r *rng) *Fail {
		t := r.typ(encCM, 3)
		v := r.val(t, &vmode{dynMode: encDyn, dyn: cat(scalarTypes, cmTypes, staticPlain)}, 4)
		_, f := encodeCase(r.wrap(v))
		return f
	},
	"C22": func(r *rng) *Fail {
		t := r.typ(&tmode{leaf: cmTypes, cm: true, iface: true, ptr: true, omit: true}, 3)
		if r.p(40) {
			t = typeOf[CMHolder]()
		}
		vm := &vmode{dyn: cmTypes, noFail: r.p(80)}
		if r.p(30) {
			vm.dynMode = &tmode{leaf: cmTypes, cm: true, ptr: true}
		}
		v := r.val(t, vm, 4)
		_, f := encodeCase(r.wrap(v))
		return f
	},
	"C23": func(r *rng) *Fail {
		k := pick(r, cat(keyTypes, []reflect.Type{anyT, typeOf[bool](), typeOf[CUStr]()}))
		t := reflect.MapOf(k, r.typ(&tmode{leaf: scalarTypes, ptr: true, iface: true}, 2))
		if r.p(20) {
			t = pick(r, []reflect.Type{typeOf[map[string]map[string]int](), typeOf[map[string][]int](), typeOf[map[int]*Inner](), typeOf[map[string]Inner](), typeOf[map[string][2]int](), typeOf[NMap](), typeOf[map[NStr]*int](), typeOf[struct{ M map[string]*int }](), typeOf[map[string]RecS](), typeOf[map[any]any](), typeOf[map[[1]int]int]()})
		}
		return decodeCase(r.input(t, &gmode{objs: true, null: 6, noise: 2, oddNum: 4}, 4), t, r.preset(t, 60), decOpt{})
	},
	"C24": func(r *rng) *Fail {
		t := r.typ(encBad, 3)
		v := r.val(t, &vmode{dynMode: encBad, dyn: cat(cmTypes, staticPlain, []reflect.Type{typeOf[chan int](), typeOf[func()](), typeOf[complex128](), typeOf[uintptr](), typeOf[**int](), typeOf[map[float64]int](), typeOf[struct{ C chan int }]()})}, 4)
		if r.p(2) {
			_, f := encodeCase(nil)
			return f
		}
		_, f := encodeCase(r.wrap(v))
		return f
	},
}

func hasBigIdx(b []byte) bool {
	run := 0
	for i := range b {
		if isDigit(b[i]) {
			run++
		} else {
			if run > 3 && b[i] == ';' {
				return true
			}
			run = 0
		}
	}
	return false
}

func roundTrip(v reflect.Value, out []byte) *Fail {
	t := v.Type()
	p := reflect.New(t)
	err, pan := libUnmarshal(out, p.Interface())
	if pan != nil || err != nil {
		return failf(t, string(out), "Unmarshal of Marshal's output fails: %v %v", err, pan)
	}
	want := stripUnexported(v)
	if !equal(p.Elem(), want, true) {
		return failf(t, string(out), "Unmarshal of Marshal's output gives %s, expected %s", show(p.Elem()), show(want))
	}
	return nil
}

// stripUnexported zeroes what is not encoded.
func stripUnexported(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			if parseTag(v.Type().Field(i)).skip {
				if n.Field(i).CanSet() {
					n.Field(i).SetZero()
				}
			} else {
				n.Field(i).Set(stripUnexported(n.Field(i)))
			}
		}
	}
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			n = reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(stripUnexported(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(stripUnexported(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			n = reflect.MakeMap(v.Type())
			it := v.MapRange()
			for it.Next() {
				n.SetMapIndex(it.Key(), stripUnexported(it.Value()))
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			n = reflect.New(v.Type().Elem())
			n.Elem().Set(stripUnexported(v.Elem()))
			n = n.Convert(v.Type())
		}
	}
	return n
}

// wrap puts a value behind pointers or interfaces.
func (r *rng) wrap(v reflect.Value) any {
	for n := r.IntN(3); n > 0; n-- {
		t := v.Type()
		switch r.IntN(9) {
		case 0:
			v = reflect.ValueOf([]any{v.Interface()})
		case 1:
			v = reflect.ValueOf(map[string]any{"k": v.Interface()})
		case 2:
			v = reflect.ValueOf(AnyOnly{v.Interface()})
		case 3:
			v = reflect.ValueOf(RAny{X: v.Interface(), Y: []any{1, v.Interface()}, W: [1]any{v.Interface()}})
		case 4:
			if t.Kind() != reflect.Ptr {
				p := reflect.New(t)
				p.Elem().Set(v)
				v = p
			}
		case 5:
			x := v.Interface()
			v = reflect.ValueOf(&x)
		case 6:
			if t.Kind() != reflect.Ptr {
				p := reflect.New(t)
				p.Elem().Set(v)
				v = reflect.ValueOf([]any{p.Interface(), nil})
			}
		case 7:
			v = reflect.ValueOf(map[int]any{5: v.Interface()})
		case 8:
			s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})).Elem()
			s.Field(0).Set(v)
			v = s
		}
	}
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

// tamper changes one declared string length.
func tamper(r *rng, b []byte) []byte {
	var at []int
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 's' && b[i+1] == ':' && isDigit(b[i+2]) {
			at = append(at, i+2)
		}
	}
	if len(at) == 0 {
		return b
	}
	i := pick(r, at)
	j := i
	for j < len(b) && isDigit(b[j]) {
		j++
	}
	n := 0
	for _, c := range b[i:min(j, i+6)] {
		n = n*10 + int(c-'0')
	}
	s := pick(r, []string{fmt.Sprint(n + 1), fmt.Sprint(n - 1), fmt.Sprint(n + 2), fmt.Sprint(n + 3), fmt.Sprint(n - 2), fmt.Sprint(len(b) - j), fmt.Sprint(len(b) - j - 1), fmt.Sprint(len(b) - j - 2), fmt.Sprint(len(b) - j - 3), fmt.Sprint(len(b) - j - 4), fmt.Sprint(len(b)), "18446744073709551615", "9223372036854775807", "18446744073709551616", "4294967296", "0" + fmt.Sprint(n), "+" + fmt.Sprint(n), "-1", "-0", "", "00", fmt.Sprint(uint64(1<<63) + uint64(n)), fmt.Sprintf("1844674407370955%d", 1616+n)})
	return []byte(string(b[:i]) + s + string(b[j:]))
}

// depthCase builds inputs around the nesting limit.
func depthCase(r *rng) *Fail {
	depth := pick(r, []int{9998, 9999, 10000, 10001, 10002, 10050, 20000})
	if r.p(4) {
		depth = 2000000
	}
	type lv struct{ o, c string }
	gen := []lv{{"a:1:{i:0;", "}"}, {`a:1:{s:1:"k";`, "}"}, {`O:1:"A":1:{s:1:"k";`, "}"}}
	sl := []lv{{"a:1:{i:0;", "}"}}
	var t reflect.Type
	n1 := 0
	var first []lv
	var bridge []lv
	rest := gen
	switch r.IntN(10) {
	case 0:
		t = anyT
	case 1:
		t, rest = typeOf[RSlice](), sl
	case 2:
		t, rest = typeOf[RMap](), gen[1:]
	case 3:
		t = typeOf[CU]()
	case 4, 5, 6:
		t = typeOf[RecS]()
		first = []lv{{`a:1:{s:1:"p";`, "}"}, {`O:1:"A":1:{s:1:"p";`, "}"}}
		n1 = r.IntN(min(depth, 10000))
		bridge = []lv{{`a:1:{s:2:"zz";`, "}"}}
		if r.p(30) {
			rest, bridge = first, first
			if r.p(50) {
				rest = []lv{{`a:1:{s:1:"s";a:1:{i:0;`, "}}"}}
			}
			if r.p(30) {
				rest = []lv{{`a:1:{s:1:"m";a:1:{s:1:"x";`, "}}"}}
			}
		}
	case 7:
		t = typeOf[RAny]()
		bridge = []lv{{`a:1:{s:1:"X";`, "}"}, {`a:1:{s:1:"S";`, "}"}, {`a:1:{s:1:"?";`, "}"}}
		n1 = 0
	case 8:
		t, rest = typeOf[RArr](), []lv{{`a:1:{s:1:"A";a:1:{i:0;`, "}}"}, {`a:1:{s:1:"A";a:1:{i:1;`, "}}"}}
		if r.p(50) {
			rest = []lv{{`a:1:{s:1:"A";a:1:{i:1;`, "}}"}}
			bridge = []lv{{`a:1:{s:1:"A";a:1:{i:7;`, "}}"}}
			first = rest
			n1 = r.IntN(4000)
			rest = gen
		}
	case 9:
		t = typeOf[map[string]CU]()
		bridge = []lv{{`a:1:{s:1:"c";`, "}"}}
	}
	var o, c []string
	d := 0
	add := func(l []lv) {
		x := pick(r, l)
		o = append(o, x.o)
		c = append(c, x.c)
		d += strings.Count(x.o, "{")
	}
	for i := 0; i < n1 && d+2 < depth; i++ {
		add(first)
	}
	if bridge != nil && d+2 < depth {
		add(bridge)
	}
	unit := rest
	for d < depth {
		add(unit)
	}
	leaf := "N;"
	inner := d
	if r.p(50) && (t == anyT || t == typeOf[RSlice]() || t == typeOf[RMap]() || t == typeOf[CU]()) {
		leaf = "a:0:{}"
		inner++
	}
	var sb strings.Builder
	for _, x := range o {
		sb.WriteString(x)
	}
	sb.WriteString(leaf)
	for i := len(c) - 1; i >= 0; i-- {
		sb.WriteString(c[i])
	}
	p := reflect.New(t)
	err, pan := libUnmarshal([]byte(sb.String()), p.Interface())
	takeCalls()
	switch {
	case pan != nil:
		return failf(t, sb.String(), "Unmarshal panics at nesting depth %d: %v", inner, pan)
	case inner > 10000 && err == nil:
		return failf(t, sb.String(), "Unmarshal accepts nesting depth %d", inner)
	case d < 10000 && err != nil:
		return failf(t, sb.String(), "Unmarshal rejects nesting depth %d: %v", inner, err)
	}
	return nil
}

// isolationCase checks that decoded data shares no memory with the input or with itself.
func isolationCase(r *rng) *Fail {
	t := r.typ(&tmode{leaf: cat(stringTypes, stringTypes, []reflect.Type{typeOf[NBytes](), typeOf[NStr](), typeOf[CUKeep](), typeOf[int](), typeOf[float64]()}), iface: true, ptr: true, strTag: true}, 3)
	if r.p(20) {
		t = pick(r, []reflect.Type{typeOf[[][]byte](), typeOf[map[string][]byte](), typeOf[map[string]any](), typeOf[map[any]any](), typeOf[[]string](), typeOf[Strs](), typeOf[CUHolder](), typeOf[[]CUKeep](), typeOf[struct{ A, B CUKeep }]()})
	}
	buf := r.input(t, &gmode{objs: true, extra: 5, null: 3}, 4)
	if bigIndex(buf) {
		return nil
	}
	in := append([]byte{}, buf...)
	p, q := reflect.New(t), reflect.New(t)
	err, pan := libUnmarshal(in, p.Interface())
	takeCalls()
	if pan != nil {
		return failf(t, string(buf), "Unmarshal panics: %v", pan)
	}
	if !bytes.Equal(in, buf) {
		return failf(t, string(buf), "Unmarshal modified its input")
	}
	if err != nil || !refUnmarshal(buf, q.Elem()) {
		return nil
	}
	takeCalls()
	for i := range in {
		in[i] ^= 0x55
	}
	if !equal(p.Elem(), q.Elem(), false) {
		return failf(t, string(buf), "changing the input afterwards changes the decoded value to %s, expected %s", show(p.Elem()), show(q.Elem()))
	}
	for i := range in {
		in[i] ^= 0x55
	}
	// change every decoded byte slice (up to its capacity) in turn
	var sl []reflect.Value
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 && v.CanInterface() {
				sl = append(sl, v)
				return
			}
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Value())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(p.Elem())
	for _, s := range sl {
		old := string(s.Bytes())
		full := s.Slice3(0, s.Cap(), s.Cap()).Bytes()
		keep := append([]byte{}, full...)
		for i := range full {
			full[i] ^= 0xAA
		}
		mod := string(s.Bytes())
		if !bytes.Equal(in, buf) {
			return failf(t, string(buf), "changing or appending to the decoded bytes %q changes the input", old)
		}
		for i := range s.Len() {
			full[i] = keep[i]
		}
		_ = mod
		if !equal(p.Elem(), q.Elem(), false) {
			return failf(t, string(buf), "appending to the decoded bytes %q changes another decoded value: %s, expected %s", old, show(p.Elem()), show(q.Elem()))
		}
		for i := range s.Len() {
			full[i] ^= 0xAA
		}
		// with this slice changed, exactly the values reached through it may differ: compare the others
		for _, o := range sl {
			if o.Pointer() != s.Pointer() && o.Len() > 0 && s.Len() > 0 && overlap(o, s) {
				return failf(t, string(buf), "two decoded byte slices overlap: %q", string(o.Bytes()))
			}
		}
		copy(full, keep)
	}
	seen := map[uintptr]bool{}
	for _, s := range sl {
		if s.Len() > 0 {
			if seen[s.Pointer()] {
				return failf(t, string(buf), "two decoded byte slices share memory")
			}
			seen[s.Pointer()] = true
		}
	}
	return nil
}

func overlap(a, b reflect.Value) bool {
	x, y := a.Pointer(), b.Pointer()
	return x < y+uintptr(b.Len()) && y < x+uintptr(a.Len())
}

// historyCase runs several calls and checks every result again at the end.
func historyCase(r *rng) *Fail {
	type kept struct {
		out, copy []byte
		v         any
	}
	var ks []kept
	type dkept struct {
		a, b reflect.Value
		in   string
	}
	var ds []dkept
	for n := 3 + r.IntN(6); n > 0; n-- {
		if r.p(70) {
			t := r.typ(encBad, 3)
			v := r.val(t, &vmode{dynMode: encCM, dyn: cat(cmTypes, []reflect.Type{typeOf[chan int]()}, staticPlain), noFail: r.p(70)}, 4)
			x := v.Interface()
			if r.p(10) {
				c := &RAny{}
				c.Y = []any{1, "abc", c}
				x = c
			}
			if r.p(10) {
				x = strings.Repeat("z", r.IntN(5000))
			}
			if _, ok := x.(*RAny); ok {
				if out, err, pan := libMarshal(x); err == nil || pan != nil || out != nil {
					return failf(reflect.TypeOf(x), "", "Marshal of a cyclic value: %q %v %v", clip(out), err, pan)
				}
				continue
			}
			out, f := encodeCase(x)
			if f != nil {
				f.What = "in a sequence of calls: " + f.What
				return f
			}
			ks = append(ks, kept{out, append([]byte{}, out...), x})
			if cap(out) > len(out) && r.p(50) { // the caller owns the spare capacity, too
				full := out[:cap(out)]
				for i := len(out); i < cap(out); i++ {
					full[i] = 0xEE
				}
			}
		} else {
			t := r.typ(decAll, 3)
			buf := r.input(t, &gmode{noise: 2, null: 5, extra: 10, mutate: 20, objs: true}, 4)
			if bigIndex(buf) {
				continue
			}
			a, b := reflect.New(t), reflect.New(t)
			err, pan := libUnmarshal(append([]byte{}, buf...), a.Interface())
			ok := refUnmarshal(buf, b.Elem())
			takeCalls()
			if pan != nil || ok != (err == nil) {
				return failf(t, string(buf), "in a sequence of calls: Unmarshal %v %v, expected success %v", err, pan, ok)
			}
			if ok {
				ds = append(ds, dkept{a.Elem(), b.Elem(), string(buf)})
			}
		}
		for _, k := range ks {
			if !bytes.Equal(k.out, k.copy) {
				return failf(reflect.TypeOf(k.v), fmt.Sprintf("%#v", k.v), "an earlier Marshal result changed from %q to %q", clip(k.copy), clip(k.out))
			}
		}
	}
	for _, d := range ds {
		if !equal(d.a, d.b, false) {
			return failf(d.a.Type(), d.in, "in a sequence of calls: Unmarshal stored %s, expected %s", show(d.a), show(d.b))
		}
	}
	return nil
}

// concurrentCase uses types never seen before from several goroutines at once.
func concurrentCase(r *rng) *Fail {
	var jobs []func() *Fail
	fresh := func() reflect.Type {
		if r.p(25) {
			return pick(r, generics)
		}
		id := fmt.Sprintf("U%x", r.Uint64())
		fs := []reflect.StructField{{Name: id, Type: typeOf[int]()}, {Name: "A", Type: r.typ(&tmode{iface: true, ptr: true, strTag: true}, 2)}, {Name: "B", Type: r.typ(&tmode{iface: true, ptr: true}, 2)}}
		t := reflect.StructOf(fs)
		switch r.IntN(4) {
		case 0:
			return reflect.SliceOf(t)
		case 1:
			return reflect.MapOf(typeOf[string](), t)
		case 2:
			return reflect.ArrayOf(2, reflect.PointerTo(t))
		}
		return t
	}
	for n := 1 + r.IntN(2); n > 0; n-- {
		t := fresh()
		for k := 0; k < 4; k++ {
			v := r.val(t, &vmode{dynMode: encDynN, dyn: []reflect.Type{t, typeOf[Inner](), typeOf[int]()}, noNaN: true}, 4)
			x := v.Interface()
			jobs = append(jobs, func() *Fail { _, f := encodeCase(x); return f })
			buf := r.input(t, &gmode{null: 5, extra: 10, objs: true}, 4)
			if !bigIndex(buf) {
				jobs = append(jobs, func() *Fail {
					a, b := reflect.New(t), reflect.New(t)
					err, pan := libUnmarshal(buf, a.Interface())
					ok := refUnmarshal(buf, b.Elem())
					if pan != nil || ok != (err == nil) {
						return failf(t, string(buf), "concurrent Unmarshal: %v %v, expected success %v", err, pan, ok)
					}
					if ok && !equal(a.Elem(), b.Elem(), false) {
						return failf(t, string(buf), "concurrent Unmarshal stores %s, expected %s", show(a.Elem()), show(b.Elem()))
					}
					return nil
				})
			}
		}
	}
	var wg sync.WaitGroup
	res := make([]*Fail, len(jobs))
	start := make(chan struct{})
	for i := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res[i] = jobs[i]()
		}()
	}
	close(start)
	wg.Wait()
	for _, f := range res {
		if f != nil {
			f.What = "concurrently: " + f.What
			return f
		}
	}
	return nil
}

type RecG[T any] struct {
	V T
	P *RecG[T]
	S []RecG[T]
	M map[string]*RecG[T]
}
type tagT[T any] struct{ X *T }

var generics = genericTypes()

func genericTypes() []reflect.Type {
	var r []reflect.Type
	r = append(r, gens[int]()...)
	r = append(r, gens[string]()...)
	r = append(r, gens[int8]()...)
	r = append(r, gens[uint16]()...)
	r = append(r, gens[[]int]()...)
	r = append(r, gens[map[string]int]()...)
	r = append(r, gens[float32]()...)
	r = append(r, gens[bool]()...)
	return r
}

func gens[T any]() []reflect.Type {
	return []reflect.Type{typeOf[RecG[T]](), typeOf[RecG[tagT[T]]](), typeOf[RecG[[1]T]](), typeOf[RecG[[]tagT[T]]](), typeOf[RecG[struct{ A T }]](), typeOf[RecG[map[int]T]]()}
}

// cycleCase builds object graphs and expects an error exactly for the cyclic ones.
func cycleCase(r *rng) *Fail {
	var root any
	deep := 0
	switch r.IntN(6) {
	case 0: // deep but acyclic
		deep = pick(r, []int{500, 1200, 3000, 20000})
		switch r.IntN(5) {
		case 0:
			var p *RecS
			for i := 0; i < deep; i++ {
				p = &RecS{V: i, P: p}
			}
			root = p
		case 1:
			var x any = 1
			for i := 0; i < deep; i++ {
				if i%2 == 0 {
					x = []any{x}
				} else {
					x = map[string]any{"k": x}
				}
			}
			root = x
		case 2:
			s := RSlice{}
			for i := 0; i < deep; i++ {
				s = RSlice{s}
			}
			root = s
		case 3:
			var x any = 1
			for i := 0; i < deep; i++ {
				y := x
				x = &y
			}
			root = x
		case 4:
			m := RMap{}
			for i := 0; i < deep; i++ {
				m = RMap{"k": m}
			}
			root = m
		}
	default:
		n := 1 + r.IntN(4)
		ss := make([]*RecS, n)
		as := make([]*RAny, n)
		sl := make([][]any, n)
		mp := make([]map[string]any, n)
		rs := make([]RSlice, n)
		rm := make([]RMap, n)
		ra := make([]*RArr, n)
		ps := make([]*any, n)
		pa := make([]*[2]any, n)
		for i := range n {
			ss[i], as[i], sl[i], mp[i], rs[i], rm[i], ra[i] = &RecS{V: i}, &RAny{}, make([]any, 2), map[string]any{}, make(RSlice, 2), RMap{}, &RArr{}
			ps[i], pa[i] = new(any), &[2]any{}
		}
		back := r.p(50) // allow cycles
		anyOf := func(i int) any {
			j := r.IntN(n)
			if !back {
				if i+1 >= n {
					return pick(r, []any{nil, 1, "x", []any{}, 1.5})
				}
				j = i + 1 + r.IntN(n-i-1)
			}
			switch r.IntN(14) {
			case 0:
				return ss[j]
			case 1:
				return as[j]
			case 2:
				return sl[j]
			case 3:
				return mp[j]
			case 4:
				return rs[j]
			case 5:
				return rm[j]
			case 6:
				return ra[j]
			case 7:
				return ps[j]
			case 8:
				return pa[j]
			case 9:
				return *as[j]
			case 10:
				return &sl[j]
			case 11:
				return *ss[j]
			}
			return r.IntN(5)
		}
		idx := func(i int) int {
			if back {
				return r.IntN(n)
			}
			if i+1 >= n {
				return -1
			}
			return i + 1 + r.IntN(n-i-1)
		}
		for i := n - 1; i >= 0; i-- {
			if k := idx(i); k >= 0 {
				if r.p(40) {
					ss[i].P = ss[k]
				}
				if r.p(20) {
					ss[i].M = map[string]*RecS{"a": ss[k], "b": ss[k]}
				}
				if r.p(20) {
					ss[i].Q = []*RecS{ss[k], ss[k]}
				}
				if r.p(30) {
					rs[i][r.IntN(2)] = rs[k]
				}
				if r.p(30) {
					rm[i]["k"] = rm[k]
				}
				if r.p(30) {
					ra[i].A[r.IntN(2)] = ra[k]
				}
				if r.p(20) {
					ss[i].S = []RecS{*ss[k]}
				}
			}
			if r.p(40) {
				as[i].X = anyOf(i)
			}
			if r.p(30) {
				as[i].Y = []any{anyOf(i), anyOf(i)}
			}
			if r.p(30) {
				as[i].Z = map[string]any{"z": anyOf(i)}
			}
			if r.p(30) {
				as[i].W[0] = anyOf(i)
			}
			if r.p(20) {
				x := anyOf(i)
				as[i].P = &x
			}
			sl[i][0], sl[i][1] = anyOf(i), anyOf(i)
			mp[i]["m"] = anyOf(i)
			if r.p(60) {
				*ps[i] = anyOf(i)
			}
			pa[i][0] = anyOf(i)
		}
		root = anyOf(-1)
		if r.p(30) {
			root = pick(r, []any{ss[0], as[0], sl[0], mp[0], rs[0], rm[0], ra[0], ps[0], pa[0], *as[0], []any{ss[0], ss[0], as[0]}})
		}
	}
	if root == nil {
		return nil
	}
	budget := 100000
	cyc := cyclic(reflect.ValueOf(root), map[cycKey]bool{}, &budget)
	if budget < 0 && !cyc {
		return nil
	}
	out, err, pan := libMarshal(root)
	t := reflect.TypeOf(root)
	switch {
	case pan != nil:
		return failf(t, "", "Marshal panics: %v", pan)
	case cyc && err == nil:
		return failf(t, clipShow(root, cyc), "Marshal of a cyclic value gives %q", clip(out))
	case !cyc && err != nil && !strings.Contains(err.Error(), "unsupported"):
		return failf(t, clipShow(root, cyc || deep > 0), "Marshal of an acyclic value (depth about %d) fails: %v", deep, err)
	}
	if !cyc && err == nil && deep == 0 {
		if want, st := refMarshal(root); st == encOK {
			if err := matchAll(out, want); err != nil {
				return failf(t, clipShow(root, false), "Marshal output %q: %v", clip(out), err)
			}
		}
	}
	return nil
}

func clipShow(x any, no bool) string {
	if no {
		return fmt.Sprintf("%T graph", x)
	}
	return clip([]byte(fmt.Sprintf("%#v", x)))
}

type cycKey struct {
	t reflect.Type
	p uintptr
	n int
}

// cyclic: some value is reached again while it is being visited.
func cyclic(v reflect.Value, path map[cycKey]bool, budget *int) bool {
	if *budget--; *budget < 0 || !v.IsValid() {
		return false
	}
	var k cycKey
	switch v.Kind() {
	case reflect.Ptr, reflect.Map:
		if v.IsNil() {
			return false
		}
		k = cycKey{v.Type(), v.Pointer(), 0}
	case reflect.Slice:
		if v.Len() == 0 {
			return false
		}
		k = cycKey{v.Type(), v.Pointer(), v.Len()}
	}
	if k.t != nil {
		if path[k] {
			return true
		}
		path[k] = true
		defer delete(path, k)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && cyclic(v.Elem(), path, budget)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if cyclic(v.Index(i), path, budget) {
				return true
			}
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			if cyclic(it.Value(), path, budget) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if cyclic(v.Field(i), path, budget) {
				return true
			}
		}
	}
	return false
}
