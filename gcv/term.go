package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Sort of a term. All Go integers are mathematical integers in terms; wrap-around is
// made explicit by the executor.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SBs   Sort = "Bs"  // abstract byte sequences (free monoid), used for encoder output
	SFlt  Sort = "Flt" // floating point values, uninterpreted
)

func SArr(e Sort) Sort { return Sort("(Array Int " + string(e) + ")") }
func (s Sort) elem() Sort {
	return Sort(strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array Int "), ")"))
}

type Term struct {
	op    string // "const", "var", "app", or an SMT operator
	name  string // var or app name
	args  []*Term
	sort  Sort
	val   *big.Int // for Int consts
	id    int
	specs bool // contains an application of a recursive spec function
}

type termTable struct {
	m    map[string]*Term
	next int
	// declared function symbols: name -> arg sorts, result sort
	funs  map[string]funDecl
	fresh int
	isRec func(name string) bool
	// distinct reports syntactically known disequality of references
	distinct func(a, b *Term) bool
}

type funDecl struct {
	args []Sort
	res  Sort
}

func newTermTable() *termTable {
	return &termTable{m: map[string]*Term{}, funs: map[string]funDecl{}, isRec: func(string) bool { return false }, distinct: func(a, b *Term) bool { return false }}
}

func (tt *termTable) mk(op, name string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.next++
	t := &Term{op: op, name: name, args: args, sort: sort, id: tt.next}
	if op == "app" && tt.isRec(name) {
		t.specs = true
	}
	for _, a := range args {
		if a.specs {
			t.specs = true
		}
	}
	tt.m[k] = t
	return t
}

func (tt *termTable) Int(v int64) *Term { return tt.Big(big.NewInt(v)) }
func (tt *termTable) Big(v *big.Int) *Term {
	t := tt.mk("const", v.String(), SInt)
	if t.val == nil {
		t.val = new(big.Int).Set(v)
	}
	return t
}
func (tt *termTable) Bool(b bool) *Term {
	if b {
		return tt.mk("const", "true", SBool)
	}
	return tt.mk("const", "false", SBool)
}
func (t *Term) isTrue() bool  { return t.op == "const" && t.name == "true" }
func (t *Term) isFalse() bool { return t.op == "const" && t.name == "false" }
func (t *Term) isConst() bool { return t.op == "const" }

func (tt *termTable) Var(name string, s Sort) *Term {
	if d, ok := tt.funs[name]; ok {
		if d.res != s || len(d.args) != 0 {
			panic("var redeclared " + name + " " + string(s) + " was " + string(d.res))
		}
	} else {
		tt.funs[name] = funDecl{nil, s}
	}
	return tt.mk("var", name, s)
}
func (tt *termTable) Fresh(prefix string, s Sort) *Term {
	tt.fresh++
	return tt.Var(fmt.Sprintf("%s!%d", sanitize(prefix), tt.fresh), s)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' {
			return r
		}
		return '_'
	}, s)
}

func (tt *termTable) App(name string, res Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return tt.Var(name, res)
	}
	switch name {
	case "flt.lt", "flt.le", "flt.eq":
		return tt.fltRel(name, args[0], args[1])
	case "u:isnan":
		return tt.fltNaN(args[0])
	case "u:isinf":
		if n := args[1]; n.isConst() {
			r := tt.fltRank(args[0])
			pos := tt.Eq(r, tt.Int(fltInf))
			neg := tt.Eq(r, tt.Int(-fltInf))
			inf := tt.Or(pos, neg)
			if n.val.Sign() > 0 {
				inf = pos
			} else if n.val.Sign() < 0 {
				inf = neg
			}
			return tt.And(tt.Not(tt.fltNaN(args[0])), inf)
		}
	}
	return tt.app(name, res, args...)
}

// fltInf is the rank of +Inf.
const fltInf = 0x7ff0000000000000

// fltRel orders floating point values: a value that is not a NaN has a rank, an integer that
// is its bits without the sign bit, negated for a negative value. Ranks order as the values do, a zero of
// either sign has rank 0. What is true of ranks and NaNs beyond constants is in the contracts' axioms.
func (tt *termTable) fltRel(name string, a, b *Term) *Term {
	x, y := tt.fltRank(a), tt.fltRank(b)
	var r *Term
	switch name {
	case "flt.lt":
		r = tt.Lt(x, y)
	case "flt.le":
		r = tt.Le(x, y)
	default:
		r = tt.Eq(x, y)
	}
	return tt.And(tt.Not(tt.fltNaN(a)), tt.Not(tt.fltNaN(b)), r)
}

func (tt *termTable) fltRank(a *Term) *Term {
	if f, ok := a.fltVal(); ok {
		n := int64(math.Float64bits(math.Abs(f)))
		if f < 0 {
			n = -n
		}
		return tt.Int(n)
	}
	return tt.app("u:frank", SInt, a)
}

func (tt *termTable) fltNaN(a *Term) *Term {
	if _, ok := a.fltVal(); ok {
		return tt.Bool(false)
	}
	return tt.app("u:isnan", SBool, a)
}

// fltVal is the value of a constant.
func (t *Term) fltVal() (float64, bool) {
	if t.op != "var" || t.sort != SFlt || !strings.HasPrefix(t.name, "flt.") {
		return 0, false
	}
	r, ok := new(big.Rat).SetString(t.name[4:])
	if !ok {
		return 0, false
	}
	f, _ := r.Float64()
	return f, true
}

func (tt *termTable) app(name string, res Sort, args ...*Term) *Term {
	if _, ok := tt.funs[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.sort)
		}
		tt.funs[name] = funDecl{as, res}
	} else {
		d := tt.funs[name]
		if len(d.args) != len(args) {
			panic(fmt.Sprintf("arity mismatch for %s: %d vs %d", name, len(d.args), len(args)))
		}
		for i, a := range args {
			if d.args[i] != a.sort {
				panic(fmt.Sprintf("sort mismatch for %s arg %d: %s vs %s (%s)", name, i, d.args[i], a.sort, a))
			}
		}
		if d.res != res {
			panic(fmt.Sprintf("result sort mismatch for %s: %s vs %s", name, d.res, res))
		}
	}
	return tt.mk("app", name, res, args...)
}

func (tt *termTable) Not(a *Term) *Term {
	if a.isTrue() {
		return tt.Bool(false)
	}
	if a.isFalse() {
		return tt.Bool(true)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return tt.mk("not", "", SBool, a)
}

func (tt *termTable) And(as ...*Term) *Term { return tt.nary("and", as) }
func (tt *termTable) Or(as ...*Term) *Term  { return tt.nary("or", as) }
func (tt *termTable) nary(op string, as []*Term) *Term {
	unit := tt.Bool(op == "and")
	zero := tt.Bool(op == "or")
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[tt.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.sort != SBool {
			panic("non bool in " + op + ": " + a.String())
		}
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk(op, "", SBool, out...)
}
func (tt *termTable) Imp(a, b *Term) *Term { return tt.Or(tt.Not(a), b) }

func (tt *termTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.Bool(true)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq of different sorts: %s:%s = %s:%s", a, a.sort, b, b.sort))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(false)
	}
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		// functions are not nil
		if p[0].op == "var" && strings.HasPrefix(p[0].name, "fn:") && p[1].isConst() && p[1].val.Sign() <= 0 {
			return tt.Bool(false)
		}
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return tt.Not(b)
		}
		if b.isFalse() {
			return tt.Not(a)
		}
	}
	if a.sort == SInt && tt.distinct(a, b) {
		return tt.Bool(false)
	}
	if a.sort == SInt {
		// compare linear normal forms
		d := tt.Sub(a, b)
		if d.isConst() {
			return tt.Bool(d.val.Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	// ite(c, k1, k2) = k  with constants
	for i := 0; i < 2; i++ {
		if a.op == "ite" && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
			e1, e2 := a.args[1] == b, a.args[2] == b
			switch {
			case e1 && e2:
				return tt.Bool(true)
			case e1:
				return a.args[0]
			case e2:
				return tt.Not(a.args[0])
			default:
				return tt.Bool(false)
			}
		}
		a, b = b, a
	}
	return tt.mk("=", "", SBool, a, b)
}
func (tt *termTable) Ne(a, b *Term) *Term { return tt.Not(tt.Eq(a, b)) }

func (tt *termTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return tt.Not(c)
		}
		return tt.And(tt.Imp(c, a), tt.Or(c, b))
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.String() + " / " + b.String())
	}
	return tt.mk("ite", "", a.sort, c, a, b)
}

// ---- linear arithmetic normal form ----

type lin struct {
	k  *big.Int
	cs map[*Term]*big.Int
}

func (tt *termTable) linOf(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	tt.addLin(&l, t, big.NewInt(1))
	return l
}
func (tt *termTable) addLin(l *lin, t *Term, c *big.Int) {
	switch {
	case t.val != nil && t.op == "const":
		l.k.Add(l.k, new(big.Int).Mul(c, t.val))
	case t.op == "+":
		for _, a := range t.args {
			tt.addLin(l, a, c)
		}
	case t.op == "*" && len(t.args) == 2 && t.args[0].op == "const":
		tt.addLin(l, t.args[1], new(big.Int).Mul(c, t.args[0].val))
	default:
		if x, ok := l.cs[t]; ok {
			x.Add(x, c)
			if x.Sign() == 0 {
				delete(l.cs, t)
			}
		} else {
			l.cs[t] = new(big.Int).Set(c)
		}
	}
}
func (tt *termTable) fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.cs {
		ts = append(ts, t)
	}
	sortTerms(ts)
	var out []*Term
	for _, t := range ts {
		c := l.cs[t]
		if c.IsInt64() && c.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, tt.mk("*", "", SInt, tt.Big(c), t))
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, tt.Big(l.k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk("+", "", SInt, out...)
}
func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}
func (tt *termTable) Add(a, b *Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	one := big.NewInt(1)
	tt.addLin(&l, a, one)
	tt.addLin(&l, b, one)
	return tt.fromLin(l)
}
func (tt *termTable) Sub(a, b *Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	tt.addLin(&l, a, big.NewInt(1))
	tt.addLin(&l, b, big.NewInt(-1))
	return tt.fromLin(l)
}
func (tt *termTable) Neg(a *Term) *Term { return tt.Sub(tt.Int(0), a) }
func (tt *termTable) Mul(a, b *Term) *Term {
	if b.op == "const" {
		a, b = b, a
	}
	if a.op == "const" {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		tt.addLin(&l, b, a.val)
		return tt.fromLin(l)
	}
	// distribute over constant ite: ite(c,k1,k2)*b
	if b.op == "ite" && b.args[1].isConst() && b.args[2].isConst() {
		a, b = b, a
	}
	if a.op == "ite" && a.args[1].isConst() && a.args[2].isConst() {
		return tt.Ite(a.args[0], tt.Mul(a.args[1], b), tt.Mul(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk("*", "", SInt, a, b)
}

func (tt *termTable) Le(a, b *Term) *Term {
	d := tt.Sub(b, a)
	if d.isConst() {
		return tt.Bool(d.val.Sign() >= 0)
	}
	return tt.mk("<=", "", SBool, a, b)
}
func (tt *termTable) Lt(a, b *Term) *Term { return tt.Not(tt.Le(b, a)) }
func (tt *termTable) Ge(a, b *Term) *Term { return tt.Le(b, a) }
func (tt *termTable) Gt(a, b *Term) *Term { return tt.Lt(b, a) }

// truncated division and remainder as Go has them
func (tt *termTable) Quo(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val.Sign() != 0 {
		return tt.Big(new(big.Int).Quo(a.val, b.val))
	}
	pos := tt.mk("div", "", SInt, a, b) // floor for positive divisor
	if b.isConst() && b.val.Sign() > 0 {
		na := tt.mk("div", "", SInt, tt.Neg(a), b)
		return tt.Ite(tt.Le(tt.Int(0), a), pos, tt.Neg(na))
	}
	ab := tt.Ite(tt.Le(tt.Int(0), a), a, tt.Neg(a))
	bb := tt.Ite(tt.Le(tt.Int(0), b), b, tt.Neg(b))
	q := tt.mk("div", "", SInt, ab, bb)
	return tt.Ite(tt.Eq(tt.Le(tt.Int(0), a), tt.Le(tt.Int(0), b)), q, tt.Neg(q))
}
func (tt *termTable) Rem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val.Sign() != 0 {
		return tt.Big(new(big.Int).Rem(a.val, b.val))
	}
	return tt.Sub(a, tt.Mul(b, tt.Quo(a, b)))
}
func (tt *termTable) Mod(a *Term, m *big.Int) *Term { // mathematical mod
	if a.isConst() {
		return tt.Big(new(big.Int).Mod(a.val, m))
	}
	return tt.mk("mod", "", SInt, a, tt.Big(m))
}

func (tt *termTable) Select(a, i *Term) *Term {
	for a.op == "store" {
		e := tt.Eq(a.args[1], i)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return tt.mk("select", "", a.sort.elem(), a, i)
}
func (tt *termTable) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.sort.elem() != v.sort {
		panic(fmt.Sprintf("store sort: %s[%s] := %s : %s", a.sort, i, v, v.sort))
	}
	return tt.mk("store", "", a.sort, a, i, v)
}
func (tt *termTable) ConstArr(v *Term) *Term { return tt.mk("constarr", "", SArr(v.sort), v) }

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 0)
	return sb.String()
}
func (t *Term) write(sb *strings.Builder, depth int) {
	switch t.op {
	case "const":
		if t.val != nil && t.val.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.val).String())
		} else {
			sb.WriteString(t.name)
		}
	case "var":
		sb.WriteString(smtName(t.name))
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		t.args[0].write(sb, depth+1)
		sb.WriteByte(')')
	default:
		sb.WriteByte('(')
		if t.op == "app" {
			sb.WriteString(smtName(t.name))
		} else {
			sb.WriteString(t.op)
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb, depth+1)
		}
		sb.WriteByte(')')
	}
}
func smtName(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$') {
			return "|" + smtEscape(n) + "|"
		}
	}
	return n
}

func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// subst replaces terms bottom-up.
func (tt *termTable) subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = tt.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func (tt *termTable) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return tt.Not(a[0])
	case "and":
		return tt.And(a...)
	case "or":
		return tt.Or(a...)
	case "=":
		return tt.Eq(a[0], a[1])
	case "ite":
		return tt.Ite(a[0], a[1], a[2])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = tt.Add(r, x)
		}
		return r
	case "*":
		return tt.Mul(a[0], a[1])
	case "<=":
		return tt.Le(a[0], a[1])
	case "select":
		return tt.Select(a[0], a[1])
	case "store":
		return tt.Store(a[0], a[1], a[2])
	case "app":
		return tt.App(t.name, t.sort, a...)
	default:
		return tt.mk(t.op, t.name, t.sort, a...)
	}
}

func smtEscape(n string) string {
	var sb strings.Builder
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c < 32 || c > 126 || c == '|' || c == '\\' || c == '%' {
			fmt.Fprintf(&sb, "%%%02x", c)
		} else {
			sb.WriteByte(c)
		}
	}
	return sb.String()
}
