package main

// Reference decoder: an independent reading of the wire format, driven by the Go type of the
// destination. It shares no code with the library.

import (
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
)

const maxDepth = 10000

type tok struct {
	buf []byte
}

// refCall makes the reference call of a custom unmarshaler.
func refCallUnmarshal(n reflect.Value, b []byte) error {
	return n.Interface().(interface{ UnmarshalPHP([]byte) error }).UnmarshalPHP(append([]byte{}, b...))
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// length reads :<digits>: at p and gives the value (nil if it does not fit) and the next position.
func (t *tok) length(p int) (n int64, next int, ok bool) {
	b := t.buf
	if p >= len(b) || b[p] != ':' {
		return 0, 0, false
	}
	q := p + 1
	for q < len(b) && isDigit(b[q]) {
		q++
	}
	if q == p+1 || q >= len(b) || b[q] != ':' {
		return 0, 0, false
	}
	v, okb := new(big.Int).SetString(string(b[p+1:q]), 10)
	if !okb || !v.IsInt64() {
		return -1, q + 1, true
	}
	return v.Int64(), q + 1, true
}

// str reads :<n>:"<bytes>"; at p.
func (t *tok) str(p int) (s []byte, next int, ok bool) {
	n, q, ok := t.length(p)
	if !ok || n < 0 {
		return nil, 0, false
	}
	b := t.buf
	if q >= len(b) || b[q] != '"' {
		return nil, 0, false
	}
	if n > int64(len(b)-q-3) {
		return nil, 0, false
	}
	e := q + 1 + int(n)
	if b[e] != '"' || b[e+1] != ';' {
		return nil, 0, false
	}
	return b[q+1 : e], e + 2, true
}

// integer reads i:-?<digits>; at p and gives the digits with sign.
func (t *tok) integer(p int) (s string, next int, ok bool) {
	b := t.buf
	if p+3 > len(b) || b[p] != 'i' || b[p+1] != ':' {
		return "", 0, false
	}
	q := p + 2
	if b[q] == '-' {
		q++
	}
	d := q
	for q < len(b) && isDigit(b[q]) {
		q++
	}
	if q == d || q >= len(b) || b[q] != ';' {
		return "", 0, false
	}
	return string(b[p+2 : q]), q + 1, true
}

func (t *tok) float(p int) (s string, next int, ok bool) {
	b := t.buf
	if p+3 > len(b) || b[p] != 'd' || b[p+1] != ':' {
		return "", 0, false
	}
	q := p + 2
	for q < len(b) && b[q] != ';' {
		q++
	}
	if q == p+2 || q >= len(b) {
		return "", 0, false
	}
	return string(b[p+2 : q]), q + 1, true
}

func (t *tok) boolean(p int) (v bool, next int, ok bool) {
	b := t.buf
	if p+4 > len(b) || b[p] != 'b' || b[p+1] != ':' || (b[p+2] != '0' && b[p+2] != '1') || b[p+3] != ';' {
		return false, 0, false
	}
	return b[p+2] == '1', p + 4, true
}

func (t *tok) null(p int) (next int, ok bool) {
	if p+2 > len(t.buf) || t.buf[p] != 'N' || t.buf[p+1] != ';' {
		return 0, false
	}
	return p + 2, true
}

// class reads O:<n>:"<name>" at p and gives the position of the colon that follows.
func (t *tok) class(p int) (next int, ok bool) {
	n, q, ok := t.length(p + 1)
	if !ok || n < 0 {
		return 0, false
	}
	b := t.buf
	if q >= len(b) || b[q] != '"' || n > int64(len(b)-q-3) {
		return 0, false
	}
	e := q + 1 + int(n)
	if b[e] != '"' || b[e+1] != ':' {
		return 0, false
	}
	return e + 1, true
}

// skip reads one complete value under the strict grammar.
func (t *tok) skip(p, depth int) (next int, ok bool) {
	b := t.buf
	if p >= len(b) {
		return 0, false
	}
	switch b[p] {
	case 'i':
		_, n, ok := t.integer(p)
		return n, ok
	case 'd':
		_, n, ok := t.float(p)
		return n, ok
	case 's':
		_, n, ok := t.str(p + 1)
		return n, ok
	case 'b':
		_, n, ok := t.boolean(p)
		return n, ok
	case 'N':
		return t.null(p)
	case 'a', 'O':
		q := p + 1
		if b[p] == 'O' {
			var ok bool
			if q, ok = t.class(p); !ok {
				return 0, false
			}
		}
		if depth+1 > maxDepth {
			return 0, false
		}
		n, q, ok := t.length(q)
		if !ok || n < 0 || q >= len(b) || b[q] != '{' {
			return 0, false
		}
		q++
		for i := int64(0); i < n; i++ {
			if q, ok = t.skip(q, depth+1); !ok {
				return 0, false
			}
			if q, ok = t.skip(q, depth+1); !ok {
				return 0, false
			}
		}
		if q >= len(b) || b[q] != '}' {
			return 0, false
		}
		return q + 1, true
	}
	return 0, false
}

// --- types ---

type tagInfo struct {
	key       string
	omitempty bool
	str       bool
	skip      bool
}

func parseTag(f reflect.StructField) tagInfo {
	if !f.IsExported() {
		return tagInfo{skip: true}
	}
	tag := f.Tag.Get("php")
	if tag == "-" {
		return tagInfo{skip: true}
	}
	ti := tagInfo{key: f.Name}
	parts := strings.Split(tag, ",")
	if parts[0] != "" && validTagName(parts[0]) {
		ti.key = parts[0]
	}
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			ti.omitempty = true
		case "string":
			ti.str = true
		}
	}
	return ti
}

func validTagName(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return s != ""
}

var unmarshalerT = reflect.TypeOf((*interface{ UnmarshalPHP([]byte) error })(nil)).Elem()
var marshalerT = reflect.TypeOf((*interface{ MarshalPHP() ([]byte, error) })(nil)).Elem()

func isUnmarshaler(t reflect.Type) bool { return reflect.PointerTo(t).Implements(unmarshalerT) }

// decodable tells whether Unmarshal accepts the destination type at all.
func decodable(t reflect.Type, seen map[reflect.Type]bool) bool {
	if isUnmarshaler(t) {
		return true
	}
	if seen[t] {
		return true
	}
	switch t.Kind() {
	case reflect.Ptr:
		return t.Elem().Kind() != reflect.Ptr && decodable(t.Elem(), seen)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return true
		}
		seen[t] = true
		return decodable(t.Elem(), seen)
	case reflect.Array:
		seen[t] = true
		return decodable(t.Elem(), seen)
	case reflect.Map:
		seen[t] = true
		return decodable(t.Key(), seen) && decodable(t.Elem(), seen)
	case reflect.Struct:
		seen[t] = true
		keys := map[string]bool{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ti := parseTag(f)
			if ti.skip {
				continue
			}
			if f.Anonymous {
				ft := f.Type
				if ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				}
				if ft.Kind() == reflect.Struct {
					return false
				}
			}
			if !decodable(f.Type, seen) {
				return false
			}
			if ti.str && !stringTagOK(f.Type) {
				return false
			}
			if keys[ti.key] {
				return false
			}
			keys[ti.key] = true
		}
	}
	return true
}

// stringTagOK: the string tag is ignored on containers and applies to scalars and pointers to scalars.
func stringTagOK(t reflect.Type) bool {
	if isUnmarshaler(t) {
		return true
	}
	switch t.Kind() {
	case reflect.Map, reflect.Slice, reflect.Array, reflect.Struct, reflect.Interface:
		return true
	case reflect.Ptr:
		e := t.Elem()
		return !isUnmarshaler(e) && scalar(e.Kind())
	}
	return scalar(t.Kind())
}

func scalar(k reflect.Kind) bool {
	return k == reflect.Bool || k >= reflect.Int && k <= reflect.Uintptr || k == reflect.Float32 || k == reflect.Float64 || k == reflect.String
}
func isInt(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Int64 }
func isUint(k reflect.Kind) bool  { return k >= reflect.Uint && k <= reflect.Uintptr }
func isFloat(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }

// --- decoding ---

// refUnmarshal decodes buf into v (settable) and reports success.
func refUnmarshal(buf []byte, v reflect.Value) bool {
	if len(buf) == 0 || !decodable(v.Type(), map[reflect.Type]bool{}) {
		return false
	}
	t := &tok{buf}
	n, ok := t.decode(0, 0, v)
	return ok && n == len(buf)
}

func (t *tok) decode(p, depth int, v reflect.Value) (int, bool) {
	b := t.buf
	if p >= len(b) {
		return 0, false
	}
	typ := v.Type()
	if isUnmarshaler(typ) {
		e, ok := t.skip(p, depth)
		if !ok {
			return 0, false
		}
		if string(b[p:e]) == "N;" {
			v.SetZero()
			return e, true
		}
		n := reflect.New(typ)
		if refCallUnmarshal(n, b[p:e]) != nil {
			return 0, false
		}
		v.Set(n.Elem())
		return e, true
	}
	c := b[p]
	switch k := typ.Kind(); {
	case k == reflect.Ptr:
		if c == 'N' {
			n, ok := t.null(p)
			if ok {
				v.SetZero()
			}
			return n, ok
		}
		if v.IsNil() {
			v.Set(reflect.New(typ.Elem()))
		}
		return t.decode(p, depth, v.Elem())
	case k == reflect.Interface:
		if typ.NumMethod() > 0 {
			return t.decodeMethodIface(p, depth, v)
		}
		return t.decodeAny(p, depth, v)
	case k == reflect.Slice && typ.Elem().Kind() == reflect.Uint8:
		if c == 'a' {
			return t.decodeSlice(p, depth, v)
		}
		if c == 'N' {
			return t.null(p) // keeps the value
		}
		if c != 's' {
			return 0, false
		}
		s, n, ok := t.str(p + 1)
		if ok {
			v.SetBytes(append([]byte{}, s...))
		}
		return n, ok
	case k == reflect.Slice:
		return t.decodeSlice(p, depth, v)
	case k == reflect.Array:
		return t.decodeArray(p, depth, v)
	case k == reflect.Map:
		return t.decodeMap(p, depth, v, false)
	case k == reflect.Struct:
		return t.decodeStruct(p, depth, v)
	}
	if !scalar(typ.Kind()) {
		return 0, false
	}
	if c == 'N' {
		return t.null(p)
	}
	switch k := typ.Kind(); {
	case k == reflect.Bool:
		x, n, ok := t.boolean(p)
		if ok {
			v.SetBool(x)
		}
		return n, ok
	case k == reflect.String:
		if c != 's' {
			return 0, false
		}
		s, n, ok := t.str(p + 1)
		if ok {
			v.SetString(string(s))
		}
		return n, ok
	case isFloat(k):
		s, n, ok := t.float(p)
		return n, ok && setFloat(v, s)
	default:
		s, n, ok := t.integer(p)
		return n, ok && setInt(v, s)
	}
}

// setInt stores the decimal s exactly or fails.
func setInt(v reflect.Value, s string) bool {
	d := strings.TrimPrefix(s, "-")
	if d == "" || strings.Trim(d, "0123456789") != "" {
		return false
	}
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return false
	}
	if isInt(v.Kind()) {
		if !x.IsInt64() || v.OverflowInt(x.Int64()) {
			return false
		}
		v.SetInt(x.Int64())
		return true
	}
	if s[0] == '-' || !x.IsUint64() || v.OverflowUint(x.Uint64()) {
		return false
	}
	v.SetUint(x.Uint64())
	return true
}

func setFloat(v reflect.Value, s string) bool {
	var f float64
	switch s {
	case "INF":
		f = math.Inf(1)
	case "-INF":
		f = math.Inf(-1)
	case "NAN":
		f = math.NaN()
	default:
		var err error
		if f, err = strconv.ParseFloat(s, v.Type().Bits()); err != nil {
			return false
		}
	}
	if v.OverflowFloat(f) {
		return false
	}
	v.SetFloat(f)
	return true
}

func (t *tok) decodeMethodIface(p, depth int, v reflect.Value) (int, bool) {
	if !v.IsNil() {
		if u, ok := v.Interface().(interface{ UnmarshalPHP([]byte) error }); ok {
			e, ok := t.skip(p, depth)
			if !ok {
				return 0, false
			}
			if string(t.buf[p:e]) == "N;" {
				v.SetZero()
				return e, true
			}
			return e, u.UnmarshalPHP(append([]byte{}, t.buf[p:e]...)) == nil
		}
	}
	if t.buf[p] != 'N' {
		return 0, false
	}
	n, ok := t.null(p)
	if ok {
		v.SetZero()
	}
	return n, ok
}

func (t *tok) decodeAny(p, depth int, v reflect.Value) (int, bool) {
	set := func(x any, n int, ok bool) (int, bool) {
		if ok {
			if x == nil {
				v.SetZero()
			} else {
				v.Set(reflect.ValueOf(x))
			}
		}
		return n, ok
	}
	switch t.buf[p] {
	case 'N':
		n, ok := t.null(p)
		return set(nil, n, ok)
	case 'b':
		x, n, ok := t.boolean(p)
		return set(x, n, ok)
	case 'i':
		var x int64
		s, n, ok := t.integer(p)
		ok = ok && setInt(reflect.ValueOf(&x).Elem(), s)
		return set(x, n, ok)
	case 'd':
		var x float64
		s, n, ok := t.float(p)
		ok = ok && setFloat(reflect.ValueOf(&x).Elem(), s)
		return set(x, n, ok)
	case 's':
		s, n, ok := t.str(p + 1)
		return set(string(s), n, ok)
	case 'a':
		var m map[any]any
		n, ok := t.decodeMap(p, depth, reflect.ValueOf(&m).Elem(), true)
		return set(m, n, ok)
	case 'O':
		var m map[string]any
		n, ok := t.decodeMap(p, depth, reflect.ValueOf(&m).Elem(), false)
		return set(m, n, ok)
	}
	return 0, false
}

// open reads the head of a container up to and including {.
func (t *tok) open(p, depth int, object bool) (int64, int, bool) {
	b := t.buf
	if depth+1 > maxDepth {
		return 0, 0, false
	}
	q := p + 1
	if b[p] == 'O' && object {
		var ok bool
		if q, ok = t.class(p); !ok {
			return 0, 0, false
		}
	} else if b[p] != 'a' {
		return 0, 0, false
	}
	n, q, ok := t.length(q)
	if !ok || q >= len(b) || b[q] != '{' {
		return 0, 0, false
	}
	return n, q + 1, true
}

// index reads a non-negative integer key.
func (t *tok) index(p int) (int, int, bool) {
	s, n, ok := t.integer(p)
	var i int
	if !ok || !setInt(reflect.ValueOf(&i).Elem(), s) || i < 0 {
		return 0, 0, false
	}
	return i, n, true
}

func (t *tok) decodeSlice(p, depth int, v reflect.Value) (int, bool) {
	if t.buf[p] == 'N' {
		if depth+1 > maxDepth {
			return 0, false
		}
		n, ok := t.null(p)
		if ok {
			v.SetZero()
		}
		return n, ok
	}
	n, q, ok := t.open(p, depth, false)
	if !ok || n < 0 {
		return 0, false
	}
	if t.buf[p+2] == '0' {
		// an empty array is written a:0:{}
		if n == 0 && q == p+5 && q < len(t.buf) && t.buf[q] == '}' {
			v.SetZero()
			return q + 1, true
		}
		return 0, false
	}
	sl := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), 0, 0)
	for {
		i, r, ok := t.index(q)
		if !ok || r >= len(t.buf) || i > refMaxIndex {
			return 0, false
		}
		if i >= sl.Len() {
			ns := reflect.MakeSlice(sl.Type(), i+1, i+1)
			reflect.Copy(ns, sl)
			sl = ns
		}
		if q, ok = t.decode(r, depth+1, sl.Index(i)); !ok {
			return 0, false
		}
		if q >= len(t.buf) {
			return 0, false
		}
		if t.buf[q] == '}' {
			v.Set(sl.Convert(v.Type()))
			return q + 1, true
		}
	}
}

const refMaxIndex = 1 << 24

func (t *tok) decodeArray(p, depth int, v reflect.Value) (int, bool) {
	if depth+1 > maxDepth {
		return 0, false
	}
	if t.buf[p] == 'N' {
		return t.null(p)
	}
	n, q, ok := t.open(p, depth, false)
	if !ok || n < 0 {
		return 0, false
	}
	v.SetZero()
	if t.buf[p+2] == '0' {
		if n == 0 && q == p+5 && q < len(t.buf) && t.buf[q] == '}' {
			return q + 1, true
		}
		return 0, false
	}
	for {
		i, r, ok := t.index(q)
		if !ok || r >= len(t.buf) {
			return 0, false
		}
		if i < v.Len() {
			q, ok = t.decode(r, depth+1, v.Index(i))
		} else {
			q, ok = t.skip(r, depth+1)
		}
		if !ok || q >= len(t.buf) {
			return 0, false
		}
		if t.buf[q] == '}' {
			return q + 1, true
		}
	}
}

func (t *tok) decodeKey(p, depth int, v reflect.Value) (int, bool) {
	typ := v.Type()
	if isUnmarshaler(typ) {
		return t.decode(p, depth, v)
	}
	switch k := typ.Kind(); {
	case k == reflect.Interface:
		return t.decode(p, depth, v)
	case k == reflect.Bool, k == reflect.String, isInt(k), isUint(k):
		return t.decode(p, depth, v)
	}
	return 0, false
}

func (t *tok) decodeMap(p, depth int, v reflect.Value, anyKeys bool) (int, bool) {
	if depth+1 > maxDepth {
		return 0, false
	}
	if t.buf[p] == 'N' {
		n, ok := t.null(p)
		if ok {
			v.SetZero()
		}
		return n, ok
	}
	n, q, ok := t.open(p, depth, true)
	if !ok || n < 0 || q >= len(t.buf) {
		return 0, false
	}
	typ := v.Type()
	if v.IsNil() {
		v.Set(reflect.MakeMap(typ))
	}
	if t.buf[q] == '}' {
		return q + 1, true
	}
	for {
		if q >= len(t.buf) {
			return 0, false
		}
		key := reflect.New(typ.Key()).Elem()
		if anyKeys {
			if t.buf[q] != 's' && t.buf[q] != 'i' {
				return 0, false
			}
		}
		r, ok := t.decodeKey(q, depth+1, key)
		if !ok || r >= len(t.buf) || !key.Comparable() {
			return 0, false
		}
		val := reflect.New(typ.Elem()).Elem()
		if q, ok = t.decode(r, depth+1, val); !ok {
			return 0, false
		}
		v.SetMapIndex(key, val)
		if q >= len(t.buf) {
			return 0, false
		}
		if t.buf[q] == '}' {
			return q + 1, true
		}
	}
}

func (t *tok) decodeStruct(p, depth int, v reflect.Value) (int, bool) {
	if depth+1 > maxDepth {
		return 0, false
	}
	if t.buf[p] == 'N' {
		return t.null(p)
	}
	_, q, ok := t.open(p, depth, true) // the count is not compared
	if !ok || q >= len(t.buf) {
		return 0, false
	}
	if t.buf[q] == '}' {
		return q + 1, true
	}
	typ := v.Type()
	for {
		if q >= len(t.buf) {
			return 0, false
		}
		var key string
		r := 0
		if t.buf[q] == 'N' {
			if r, ok = t.null(q); !ok {
				return 0, false
			}
		} else {
			if t.buf[q] != 's' {
				return 0, false
			}
			s, e, ok := t.str(q + 1)
			if !ok {
				return 0, false
			}
			key, r = string(s), e
		}
		if r >= len(t.buf) {
			return 0, false
		}
		fi := -1
		var ti tagInfo
		for i := 0; i < typ.NumField(); i++ {
			x := parseTag(typ.Field(i))
			if !x.skip && x.key == key {
				fi, ti = i, x
			}
		}
		switch {
		case fi < 0:
			q, ok = t.skip(r, depth+1)
		case ti.str && isStringTagged(typ.Field(fi).Type):
			q, ok = t.decodeStringTag(r, v.Field(fi))
		default:
			q, ok = t.decode(r, depth+1, v.Field(fi))
		}
		if !ok || q >= len(t.buf) {
			return 0, false
		}
		if t.buf[q] == '}' {
			return q + 1, true
		}
	}
}

// isStringTagged: the string tag changes how a field of this type is read.
func isStringTagged(t reflect.Type) bool {
	if isUnmarshaler(t) {
		return false
	}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return scalar(t.Kind())
}

func (t *tok) decodeStringTag(p int, v reflect.Value) (int, bool) {
	c := t.buf[p]
	if c == 'N' {
		n, ok := t.null(p)
		if ok && v.Kind() == reflect.Ptr {
			v.SetZero()
		}
		return n, ok
	}
	if v.Kind() == reflect.Ptr && v.IsNil() {
		v.Set(reflect.New(v.Type().Elem()))
	}
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if c != 's' {
		return 0, false
	}
	s, n, ok := t.str(p + 1)
	if !ok {
		return 0, false
	}
	switch k := v.Kind(); {
	case k == reflect.String:
		v.SetString(string(s))
		return n, true
	case k == reflect.Bool:
		x, err := strconv.ParseBool(string(s))
		if err != nil {
			return 0, false
		}
		v.SetBool(x)
		return n, true
	case isFloat(k):
		return n, setFloat(v, string(s))
	}
	return n, setInt(v, string(s))
}
