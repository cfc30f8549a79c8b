package main

// Reference encoder: the expected output as a tree; maps are unordered.

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

type Node struct {
	lit   string // literal bytes
	flt   bool
	f     float64
	bits  int
	asStr bool // float written as a string
	arr   bool
	keys  []*Node
	vals  []*Node
	unord bool
}

type encStatus int

const (
	encOK encStatus = iota
	encErr
	encUnspec
)

func lit(s string) *Node { return &Node{lit: s} }
func strLit(s string) *Node {
	return lit("s:" + strconv.Itoa(len(s)) + `:"` + s + `";`)
}

var bytesT = reflect.TypeOf([]byte(nil))

// encodable: the type is supported by Marshal.
func encodable(t reflect.Type, seen map[reflect.Type]bool) bool {
	if t.Implements(marshalerT) || t == bytesT || seen[t] {
		return true
	}
	k := t.Kind()
	if scalar(k) {
		return k != reflect.Uintptr
	}
	switch k {
	case reflect.Interface:
		return true
	case reflect.Ptr:
		return t.Elem().Kind() != reflect.Ptr && encodable(t.Elem(), seen)
	case reflect.Slice, reflect.Array:
		seen[t] = true
		return encodable(t.Elem(), seen)
	case reflect.Map:
		seen[t] = true
		kk := t.Key().Kind()
		return (kk == reflect.String || isInt(kk) || isUint(kk) && kk != reflect.Uintptr) && encodable(t.Elem(), seen)
	case reflect.Struct:
		seen[t] = true
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ti := parseTag(f)
			if ti.skip {
				continue
			}
			ft := f.Type
			if ft.Kind() == reflect.Ptr && ft.Elem().Kind() == reflect.Ptr {
				return false
			}
			if f.Anonymous && ft.Kind() == reflect.Struct {
				return false
			}
			if ft.Implements(marshalerT) {
				continue
			}
			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			if ti.str {
				if !(scalar(ft.Kind()) && ft.Kind() != reflect.Uintptr || ft.Kind() == reflect.Interface) {
					return false
				}
				continue
			}
			if !encodable(ft, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func refMarshal(x any) (*Node, encStatus) {
	if x == nil {
		return lit("N;"), encOK
	}
	v := reflect.ValueOf(x)
	if !encodable(v.Type(), map[reflect.Type]bool{}) {
		return nil, encErr
	}
	return refEnc(v, false)
}

// refEnc encodes v; dyn: v was reached through an interface.
func refEnc(v reflect.Value, dyn bool) (*Node, encStatus) {
	t := v.Type()
	k := t.Kind()
	if t.Implements(marshalerT) {
		if (k == reflect.Ptr || k == reflect.Interface) && v.IsNil() {
			return lit("N;"), encOK
		}
		if k == reflect.Interface {
			return refEnc(v.Elem(), true)
		}
		b, err := v.Interface().(interface{ MarshalPHP() ([]byte, error) }).MarshalPHP()
		if err != nil {
			return nil, encErr
		}
		return lit(string(b)), encOK
	}
	if dyn && k != reflect.Ptr && k != reflect.Interface && k != reflect.Map && !(k == reflect.Slice && t.Elem().Kind() == reflect.Interface) {
		if !encodable(t, map[reflect.Type]bool{}) {
			return nil, encErr
		}
	}
	switch {
	case t == bytesT:
		return strLit(string(v.Bytes())), encOK
	case k == reflect.Bool:
		if v.Bool() {
			return lit("b:1;"), encOK
		}
		return lit("b:0;"), encOK
	case isInt(k):
		return lit("i:" + strconv.FormatInt(v.Int(), 10) + ";"), encOK
	case isUint(k):
		return lit("i:" + strconv.FormatUint(v.Uint(), 10) + ";"), encOK
	case isFloat(k):
		return &Node{flt: true, f: v.Float(), bits: t.Bits()}, encOK
	case k == reflect.String:
		return strLit(v.String()), encOK
	case k == reflect.Ptr:
		if v.IsNil() {
			return lit("N;"), encOK
		}
		return refEnc(v.Elem(), dyn)
	case k == reflect.Interface:
		if v.IsNil() {
			return lit("N;"), encOK
		}
		return refEnc(v.Elem(), true)
	case k == reflect.Slice || k == reflect.Array:
		if k == reflect.Slice && v.IsNil() {
			return lit("N;"), encOK
		}
		n := &Node{arr: true}
		for i := 0; i < v.Len(); i++ {
			e, st := refEnc(v.Index(i), false)
			if st != encOK {
				return nil, st
			}
			n.keys = append(n.keys, lit("i:"+strconv.Itoa(i)+";"))
			n.vals = append(n.vals, e)
		}
		return n, encOK
	case k == reflect.Map:
		kk := t.Key().Kind()
		if kk != reflect.String && !isInt(kk) && !(isUint(kk) && kk != reflect.Uintptr) {
			return nil, encErr
		}
		if dyn && t.Elem().Kind() != reflect.Interface && !encodable(t.Elem(), map[reflect.Type]bool{}) {
			if v.Len() == 0 {
				return nil, encUnspec
			}
			return nil, encErr
		}
		if v.IsNil() {
			return lit("N;"), encOK
		}
		n := &Node{arr: true, unord: true}
		it := v.MapRange()
		for it.Next() {
			var kn *Node
			if kk == reflect.String {
				kn = strLit(it.Key().String())
			} else if isInt(kk) {
				kn = lit("i:" + strconv.FormatInt(it.Key().Int(), 10) + ";")
			} else {
				kn = lit("i:" + strconv.FormatUint(it.Key().Uint(), 10) + ";")
			}
			e, st := refEnc(it.Value(), false)
			if st != encOK {
				return nil, st
			}
			n.keys = append(n.keys, kn)
			n.vals = append(n.vals, e)
		}
		return n, encOK
	case k == reflect.Struct:
		n := &Node{arr: true}
		for i := 0; i < t.NumField(); i++ {
			ti := parseTag(t.Field(i))
			if ti.skip {
				continue
			}
			fv := v.Field(i)
			if ti.omitempty && fv.IsZero() {
				continue
			}
			var e *Node
			st := encOK
			ft := fv.Type()
			if ti.str && !ft.Implements(marshalerT) {
				e, st = refEncString(fv)
			} else {
				e, st = refEnc(fv, false)
			}
			if st != encOK {
				return nil, st
			}
			n.keys = append(n.keys, strLit(ti.key))
			n.vals = append(n.vals, e)
		}
		return n, encOK
	}
	return nil, encErr
}

func refEncString(v reflect.Value) (*Node, encStatus) {
	dyn := false
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.Type().Implements(marshalerT) {
			return refEnc(v, true)
		}
		if v.IsNil() {
			return lit("N;"), encOK
		}
		dyn = dyn || v.Kind() == reflect.Interface
		v = v.Elem()
	}
	if dyn && v.Type().Implements(marshalerT) {
		return refEnc(v, true)
	}
	k := v.Kind()
	if dyn && (v.Type().PkgPath() != "" || k == reflect.String || !scalar(k)) {
		return nil, encUnspec
	}
	switch {
	case k == reflect.Bool:
		return strLit(strconv.FormatBool(v.Bool())), encOK
	case isInt(k):
		return strLit(strconv.FormatInt(v.Int(), 10)), encOK
	case isUint(k):
		return strLit(strconv.FormatUint(v.Uint(), 10)), encOK
	case isFloat(k):
		return &Node{flt: true, f: v.Float(), bits: v.Type().Bits(), asStr: true}, encOK
	case k == reflect.String:
		return strLit(v.String()), encOK
	}
	return nil, encErr
}

// match compares out[p:] with the expected tree and gives the next position.
func match(out []byte, p int, n *Node) (int, error) {
	rest := out[p:]
	switch {
	case n.arr:
		h := fmt.Sprintf("a:%d:{", len(n.keys))
		if !strings.HasPrefix(string(rest[:min(len(rest), len(h))]), h) {
			return 0, fmt.Errorf("at %d: want %q, have %q", p, h, clip(rest))
		}
		p += len(h)
		used := make([]bool, len(n.keys))
		byKey := map[string]int{}
		if n.unord {
			for i, k := range n.keys {
				byKey[k.lit] = i
			}
		}
		for i := range n.keys {
			j := i
			if n.unord {
				t := &tok{out}
				e, ok := t.skip(p, 0)
				if !ok {
					return 0, fmt.Errorf("at %d: malformed key %q", p, clip(out[p:]))
				}
				var found bool
				if j, found = byKey[string(out[p:e])]; !found || used[j] {
					return 0, fmt.Errorf("at %d: unexpected key %q", p, clip(out[p:e]))
				}
				used[j] = true
			}
			var err error
			if p, err = match(out, p, n.keys[j]); err != nil {
				return 0, err
			}
			if p, err = match(out, p, n.vals[j]); err != nil {
				return 0, err
			}
		}
		if p >= len(out) || out[p] != '}' {
			return 0, fmt.Errorf("at %d: want }, have %q", p, clip(out[p:]))
		}
		return p + 1, nil
	case n.flt:
		t := &tok{out}
		var s string
		var e int
		ok := false
		if n.asStr {
			if p < len(out) && out[p] == 's' {
				var b []byte
				b, e, ok = t.str(p + 1)
				s = string(b)
			}
		} else if p < len(out) {
			s, e, ok = t.float(p)
		}
		if !ok {
			return 0, fmt.Errorf("at %d: want float %v, have %q", p, n.f, clip(rest))
		}
		return e, floatText(s, n.f, n.bits, n.asStr)
	}
	if len(rest) < len(n.lit) || string(rest[:len(n.lit)]) != n.lit {
		return 0, fmt.Errorf("at %d: want %q, have %q", p, clip([]byte(n.lit)), clip(rest))
	}
	return p + len(n.lit), nil
}

// floatText: s is the shortest decimal that reads back as f in the given width.
func floatText(s string, f float64, bits int, asStr bool) error {
	switch {
	case math.IsNaN(f) || math.IsInf(f, 0):
		w := map[bool]string{true: "NAN", false: "INF"}[math.IsNaN(f)]
		if math.IsInf(f, -1) {
			w = "-INF"
		}
		if s != w && !asStr {
			return fmt.Errorf("want %s, have %q", w, s)
		}
		if asStr {
			if g, err := strconv.ParseFloat(s, bits); err != nil || !(g == f || g != g && f != f) {
				return fmt.Errorf("float text %q is not %v", s, f)
			}
		}
		return nil
	}
	if strings.Trim(s, "0123456789+-.eE") != "" {
		return fmt.Errorf("float text %q", s)
	}
	g, err := strconv.ParseFloat(s, bits)
	if err != nil || g != f || math.Signbit(g) != math.Signbit(f) {
		return fmt.Errorf("float text %q is not %v", s, f)
	}
	digits := func(s string) int {
		if i := strings.IndexAny(s, "eE"); i >= 0 {
			s = s[:i]
		}
		dot := strings.Contains(s, ".")
		s = strings.NewReplacer("-", "", "+", "", ".", "").Replace(s)
		s = strings.TrimLeft(s, "0")
		if !dot {
			s = strings.TrimRight(s, "0")
		}
		return len(s)
	}
	if short := strconv.FormatFloat(f, 'e', -1, bits); f != 0 && digits(s) > max(1, len(strings.TrimRight(strings.NewReplacer("-", "", ".", "").Replace(short[:strings.Index(short, "e")]), "0"))) {
		return fmt.Errorf("float text %q is longer than %q", s, short)
	}
	return nil
}

func matchAll(out []byte, n *Node) error {
	p, err := match(out, 0, n)
	if err == nil && p != len(out) {
		err = fmt.Errorf("trailing bytes %q", clip(out[p:]))
	}
	return err
}

func clip(b []byte) string {
	if len(b) > 160 {
		return string(b[:160]) + "..."
	}
	return string(b)
}

// refBytes renders an expected tree (used to build inputs for the decoder).
func refBytes(n *Node, sb *strings.Builder) {
	switch {
	case n.arr:
		fmt.Fprintf(sb, "a:%d:{", len(n.keys))
		for i := range n.keys {
			refBytes(n.keys[i], sb)
			refBytes(n.vals[i], sb)
		}
		sb.WriteByte('}')
	case n.flt:
		s := strconv.FormatFloat(n.f, 'g', -1, n.bits)
		switch {
		case math.IsNaN(n.f):
			s = "NAN"
		case math.IsInf(n.f, 1):
			s = "INF"
		case math.IsInf(n.f, -1):
			s = "-INF"
		}
		if n.asStr {
			sb.WriteString(strLit(s).lit)
		} else {
			sb.WriteString("d:" + s + ";")
		}
	default:
		sb.WriteString(n.lit)
	}
}
