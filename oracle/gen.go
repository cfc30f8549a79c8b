package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// gmode selects how far generated inputs deviate from a plain encoding for the destination type.
type gmode struct {
	noise  int // percent of positions holding a value of another kind
	null   int // percent of nulls
	extra  int // percent of unknown struct keys / out-of-range indexes
	mutate int // percent of inputs with byte-level mutations
	counts int // percent of containers with a wrong declared count
	objs   bool
	oddNum int // percent of integers that are out of range or oddly written
	sbits  int
}

type gen struct {
	*rng
	m  *gmode
	sb strings.Builder
	n  int // size budget
}

func (g *gen) str1(s string) {
	g.sb.WriteString(strLit(s).lit)
}

func (g *gen) num(t reflect.Type) string {
	if g.p(g.m.oddNum) {
		return pick(g.rng, []string{"-0", "00", "007", "128", "-129", "255", "256", "-1", "32768", "-32769", "65536", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "99999999999999999999", "9999999999999999999", "18446744073709551999", "27670116110564327424", "-18446744073709551615", "1" + strings.Repeat("0", g.IntN(40)), "-" + strings.Repeat("9", 1+g.IntN(25)), "000000000000000000000000000001", "", "-", "+1", "1.5", "1e3", " 1", "1 ", "0x10", "--1", "1-", "9223372036854775817", "12a", "/", ":", "1_0"})
	}
	if t != nil && isUint(t.Kind()) {
		return strconv.FormatUint(g.u64(t.Bits()), 10)
	}
	b := 64
	if t != nil && isInt(t.Kind()) {
		b = t.Bits()
	}
	return strconv.FormatInt(g.i64(b), 10)
}

func (g *gen) flt(bits int) string {
	if g.p(g.m.oddNum) {
		return pick(g.rng, []string{"INF", "-INF", "NAN", "inf", "NaN", "1e400", "1e39", "3.5e38", "", "x", "0x1p4", "1_0", "-0", "1E5", ".5", "5.", "1e", "infinity", "+1", "-NAN"})
	}
	var sb strings.Builder
	refBytes(&Node{flt: true, f: g.f64(bits), bits: bits}, &sb)
	return strings.TrimSuffix(strings.TrimPrefix(sb.String(), "d:"), ";")
}

// any writes a random value.
func (g *gen) any(d int) {
	g.n--
	x := g.IntN(14)
	if d <= 0 || g.n < 0 {
		x = g.IntN(9)
	}
	switch x {
	case 0:
		g.sb.WriteString("N;")
	case 1:
		g.sb.WriteString(pick(g.rng, []string{"b:0;", "b:1;"}))
	case 2, 3, 4:
		g.sb.WriteString("i:" + g.num(nil) + ";")
	case 5:
		g.sb.WriteString("d:" + g.flt(64) + ";")
	case 6, 7, 8:
		g.str1(g.str())
	case 9, 10, 11:
		n := g.IntN(4)
		g.head("a", n)
		for i := 0; i < n; i++ {
			if g.p(50) {
				g.sb.WriteString("i:" + strconv.Itoa(i) + ";")
			} else if g.p(90) {
				g.str1(g.str())
			} else {
				g.any(d - 1)
			}
			g.any(d - 1)
		}
		g.sb.WriteByte('}')
	default:
		n := g.IntN(4)
		g.head("O", n)
		for i := 0; i < n; i++ {
			if g.p(90) {
				g.str1(g.str())
			} else {
				g.any(d - 1)
			}
			g.any(d - 1)
		}
		g.sb.WriteByte('}')
	}
}

func (g *gen) head(kind string, n int) {
	if g.p(g.m.counts) {
		n = pick(g.rng, []int{n + 1, n - 1, 0, n * 2, 1000})
		if n < 0 {
			n = 3
		}
	}
	if kind == "O" {
		name := pick(g.rng, []string{"stdClass", "A", `Ns\Cls`, "", `x"y`})
		fmt.Fprintf(&g.sb, `O:%d:"%s":%d:{`, len(name), name, n)
		return
	}
	fmt.Fprintf(&g.sb, "a:%d:{", n)
}

func (g *gen) container() string {
	if g.m.objs && g.p(30) {
		return "O"
	}
	return "a"
}

// text writes an input for destination type t.
func (g *gen) text(t reflect.Type, d int) {
	g.n--
	if g.p(g.m.noise) {
		g.any(2)
		return
	}
	if g.p(g.m.null) {
		g.sb.WriteString("N;")
		return
	}
	if isUnmarshaler(t) || g.n < -200 {
		g.any(min(d, 3))
		return
	}
	switch k := t.Kind(); {
	case k == reflect.Ptr:
		g.text(t.Elem(), d)
	case k == reflect.Interface:
		g.any(min(d, 4))
	case k == reflect.Bool:
		g.sb.WriteString(pick(g.rng, []string{"b:0;", "b:1;"}))
	case isInt(k) || isUint(k):
		g.sb.WriteString("i:" + g.num(t) + ";")
	case isFloat(k):
		g.sb.WriteString("d:" + g.flt(t.Bits()) + ";")
	case k == reflect.String:
		g.str1(g.str())
	case k == reflect.Slice && t.Elem().Kind() == reflect.Uint8 && !g.p(10):
		g.str1(g.str())
	case k == reflect.Slice || k == reflect.Array:
		n := g.IntN(4)
		if d <= 0 {
			n = 0
		}
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		if g.p(30) {
			for i := range idx {
				idx[i] = g.IntN(6)
				if g.p(5) {
					idx[i] = g.IntN(40)
				}
			}
		}
		g.head("a", n)
		for _, i := range idx {
			ix := strconv.Itoa(i)
			if g.p(g.m.noise) {
				ix = pick(g.rng, []string{"-1", "-0", "00", "9223372036854775808", "18446744073709551616", "-9223372036854775808", "1000", "18446744073709551615", "4294967297"})
			}
			g.sb.WriteString("i:" + ix + ";")
			g.text(t.Elem(), d-1)
		}
		g.sb.WriteByte('}')
	case k == reflect.Map:
		n := g.IntN(4)
		if d <= 0 {
			n = 0
		}
		g.head(g.container(), n)
		var keys []string
		for i := 0; i < n; i++ {
			if len(keys) > 0 && g.p(20) {
				g.sb.WriteString(pick(g.rng, keys))
			} else {
				at := g.sb.Len()
				g.text(t.Key(), 1)
				keys = append(keys, g.sb.String()[at:])
			}
			g.text(t.Elem(), d-1)
		}
		g.sb.WriteByte('}')
	case k == reflect.Struct:
		type ent struct {
			key string
			t   reflect.Type
			str bool
		}
		var es []ent
		for i := 0; i < t.NumField(); i++ {
			ti := parseTag(t.Field(i))
			if ti.skip {
				if g.p(10) {
					es = append(es, ent{t.Field(i).Name, nil, false})
				}
				continue
			}
			if g.p(80) && d > 0 {
				es = append(es, ent{ti.key, t.Field(i).Type, ti.str && isStringTagged(t.Field(i).Type)})
				if g.p(5) {
					es = append(es, es[len(es)-1])
				}
			}
			if g.p(g.m.extra / 2) {
				es = append(es, ent{pick(g.rng, []string{strings.ToLower(ti.key), strings.ToUpper(ti.key), ti.key + "x", ti.key[:len(ti.key)-1], ti.key + "\x00", " " + ti.key, t.Field(i).Name}), nil, false})
			}
		}
		for g.p(g.m.extra) && len(es) < 20 {
			es = append(es, ent{pick(g.rng, fieldKeys) + pick(g.rng, []string{"", "x", "z"}), nil, false})
		}
		if g.p(40) {
			g.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		}
		g.head(g.container(), len(es))
		for _, e := range es {
			if e.key == "" && g.p(50) {
				g.sb.WriteString("N;")
			} else {
				g.str1(e.key)
			}
			switch {
			case e.t == nil:
				g.any(3)
			case e.str:
				et := e.t
				if et.Kind() == reflect.Ptr {
					et = et.Elem()
				}
				switch {
				case g.p(g.m.noise):
					g.any(1)
				case g.p(g.m.null):
					g.sb.WriteString("N;")
				case et.Kind() == reflect.Bool:
					s := pick(g.rng, []string{"true", "false"})
					if g.p(g.m.oddNum) {
						s = pick(g.rng, []string{"TRUE", "yes", "", "tru", "truee", "2", "t", "1", "0", "F"})
					}
					g.str1(s)
				case isInt(et.Kind()) || isUint(et.Kind()):
					g.str1(g.num(et))
				case isFloat(et.Kind()):
					g.str1(g.flt(et.Bits()))
				default:
					g.str1(g.str())
				}
			default:
				g.text(e.t, d-1)
			}
		}
		g.sb.WriteByte('}')
	default:
		g.any(1)
	}
}

func (r *rng) input(t reflect.Type, m *gmode, d int) []byte {
	g := &gen{rng: r, m: m, n: 120}
	g.text(t, d)
	b := []byte(g.sb.String())
	if r.p(m.mutate) {
		b = r.mutateBytes(b)
	}
	return b
}

var splice = []string{":", ";", `"`, "{", "}", "a:1:{", "i:0;", "N;", "s:", "O:", "b:1;", "0", "9", "-", "99999999999999999999", "4611686018427387904", "a:0:{}", `s:0:"";`, "\x00", "d:", "2147483647", "9223372036854775807"}

func (r *rng) mutateBytes(b []byte) []byte {
	for n := 1 + r.IntN(3); n > 0; n-- {
		if len(b) == 0 {
			return []byte(pick(r, splice))
		}
		i := r.IntN(len(b))
		switch r.IntN(9) {
		case 0:
			b = b[:i]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append([]byte{}, b...)
			b[i] = byte(r.IntN(256))
		case 3:
			b = append([]byte{}, b...)
			b[i] = pick(r, splice)[0]
		case 4:
			b = append(append(append([]byte{}, b[:i]...), pick(r, splice)...), b[i:]...)
		case 5:
			b = append(append([]byte{}, b...), pick(r, splice)...)
		case 6:
			j := i + r.IntN(len(b)-i)
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 7:
			b = append(append([]byte{}, b[:i]...), b[min(len(b), i+1+r.IntN(6)):]...)
		case 8: // a digit
			var ds []int
			for k, c := range b {
				if isDigit(c) {
					ds = append(ds, k)
				}
			}
			if len(ds) > 0 {
				k := pick(r, ds)
				b = append([]byte{}, b...)
				b[k] = '0' + byte(r.IntN(10))
			}
		}
	}
	return b
}

// bigIndex: the input may make a slice destination allocate a lot.
func bigIndex(b []byte) bool {
	for {
		i := bytes.Index(b, []byte("i:"))
		if i < 0 {
			return false
		}
		b = b[i+2:]
		j := 0
		for j < len(b) && b[j] == '0' {
			j++
		}
		s := j
		for j < len(b) && isDigit(b[j]) {
			j++
		}
		if n := j - s; n > 5 {
			if n < 19 {
				return true
			}
			if x, err := strconv.ParseInt(string(b[s:j]), 10, 64); err == nil && x > 1<<17 {
				return true
			}
		}
	}
}

func hasSlice(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Slice:
		return true
	case reflect.Ptr, reflect.Array:
		return hasSlice(t.Elem(), seen)
	case reflect.Map:
		return hasSlice(t.Key(), seen) || hasSlice(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasSlice(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}
