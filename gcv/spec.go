package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// ---- expression syntax ----

type Expr struct {
	K    string // ident num str call sel index un bin if let old
	S    string
	A    []*Expr
	line string
}

func (e *Expr) String() string {
	switch e.K {
	case "ident", "num", "char":
		return e.S
	case "str":
		return fmt.Sprintf("%q", e.S)
	case "call":
		var as []string
		for _, a := range e.A {
			as = append(as, a.String())
		}
		return e.S + "(" + strings.Join(as, ", ") + ")"
	case "sel":
		return e.A[0].String() + "." + e.S
	case "index":
		return e.A[0].String() + "[" + e.A[1].String() + "]"
	case "un":
		return e.S + e.A[0].String()
	case "bin":
		return "(" + e.A[0].String() + " " + e.S + " " + e.A[1].String() + ")"
	case "if":
		return "if " + e.A[0].String() + " then " + e.A[1].String() + " else " + e.A[2].String()
	case "let":
		return "let " + e.S + " = " + e.A[0].String() + " in " + e.A[1].String()
	case "old":
		return "old(" + e.A[0].String() + ")"
	}
	return "?"
}

type lexer struct {
	toks []string
	pos  int
	src  string
}

var tokRe = regexp.MustCompile(`^(?:\s+|([A-Za-z_$][A-Za-z0-9_$]*)|(0x[0-9a-fA-F]+|[0-9]+)|('(?:\\.|[^'\\])')|("(?:\\.|[^"\\])*")|(<==>|==>|==|!=|<=|>=|&&|\|\||[-+*/%<>!().,\[\]=:?]))`)

func lex(s string) *lexer {
	l := &lexer{src: s}
	for len(s) > 0 {
		m := tokRe.FindString(s)
		if m == "" {
			panic("spec lex error at: " + s)
		}
		if strings.TrimSpace(m) != "" {
			l.toks = append(l.toks, m)
		}
		s = s[len(m):]
	}
	return l
}
func (l *lexer) peek() string {
	if l.pos < len(l.toks) {
		return l.toks[l.pos]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.pos++; return t }
func (l *lexer) expect(t string) {
	if l.next() != t {
		panic(fmt.Sprintf("spec parse error: expected %q before token %d in %s", t, l.pos, l.src))
	}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func parseExpr(s string) *Expr {
	l := lex(s)
	e := l.expr(0)
	if l.peek() != "" {
		panic(fmt.Sprintf("spec parse error: trailing %q in %s", l.peek(), s))
	}
	return e
}
func (l *lexer) expr(min int) *Expr {
	switch l.peek() {
	case "if":
		l.next()
		c := l.expr(0)
		l.expect("then")
		a := l.expr(0)
		l.expect("else")
		b := l.expr(0)
		return &Expr{K: "if", A: []*Expr{c, a, b}}
	case "let":
		l.next()
		n := l.next()
		l.expect("=")
		a := l.expr(0)
		l.expect("in")
		b := l.expr(0)
		return &Expr{K: "let", S: n, A: []*Expr{a, b}}
	}
	lhs := l.unary()
	for {
		op := l.peek()
		p, ok := binPrec[op]
		if !ok || p < min {
			return lhs
		}
		l.next()
		var rhs *Expr
		if op == "==>" { // right assoc
			rhs = l.expr(p)
		} else {
			rhs = l.expr(p + 1)
		}
		lhs = &Expr{K: "bin", S: op, A: []*Expr{lhs, rhs}}
	}
}
func (l *lexer) unary() *Expr {
	switch l.peek() {
	case "!", "-":
		op := l.next()
		return &Expr{K: "un", S: op, A: []*Expr{l.unary()}}
	case "if", "let":
		return l.expr(0)
	}
	return l.postfix(l.primary())
}
func (l *lexer) postfix(e *Expr) *Expr {
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &Expr{K: "sel", S: l.next(), A: []*Expr{e}}
		case "[":
			l.next()
			i := l.expr(0)
			l.expect("]")
			e = &Expr{K: "index", A: []*Expr{e, i}}
		default:
			return e
		}
	}
}
func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "(":
		e := l.expr(0)
		l.expect(")")
		return e
	case t == "":
		panic("spec parse error: unexpected end in " + l.src)
	case t[0] >= '0' && t[0] <= '9':
		return &Expr{K: "num", S: t}
	case t[0] == '\'':
		return &Expr{K: "char", S: t}
	case t[0] == '"':
		return &Expr{K: "str", S: unq(t)}
	default:
		if l.peek() == "(" {
			l.next()
			var as []*Expr
			for l.peek() != ")" {
				as = append(as, l.expr(0))
				if l.peek() == "," {
					l.next()
				}
			}
			l.expect(")")
			if t == "old" {
				return &Expr{K: "old", A: as}
			}
			return &Expr{K: "call", S: t, A: as}
		}
		return &Expr{K: "ident", S: t}
	}
}
func unq(t string) string {
	t = t[1 : len(t)-1]
	t = strings.ReplaceAll(t, `\"`, `"`)
	t = strings.ReplaceAll(t, `\\`, `\`)
	return t
}

// ---- declarations ----

type Clause struct {
	Kind  string   // requires ensures decreases inv conserve set assume
	Tags  []string // properties served
	Label string
	E     []*Expr
	Src   string
	Pos   string
	Call  string // for "on": callee pattern
	Vars  []string
	Sub   []*Clause
}

type SpecFun struct {
	Name   string
	Params []string
	Types  []string
	Res    string
	Body   *Expr
	Rec    bool
	Fuel   int
	Pos    string
	Local  bool // depends on its array arguments only below its index argument
	LocalK int
}

type Contract struct {
	Self, Iface types.Type // contract of an interface method on one implementation
	Kind        string     // func iface functype extern type alloc lemma
	Name        string
	Params      []string
	Results     []string
	Clauses     []*Clause
	Pos         string
	Opts        map[string]string
}

type Specs struct {
	Funs      map[string]*SpecFun
	FunOrder  []string
	Contracts map[string]*Contract // kind+":"+name
	Order     []*Contract
	Consts    map[string]*Expr
	Ghosts    map[string]string
	LocalG    map[string]bool    // ghosts private to one activation
	Final     map[string]bool    // fields assigned once, before their object becomes visible
	Dyn       map[string]bool    // predicates over function values
	Rules     map[string][]*Rule // rewrites of specification terms, by head function
	Preds     map[string]*Pred
	MapInvs   map[string]*HeapInv
	FieldInvs map[string]*HeapInv
	ElemInvs  map[string]*HeapInv
	Immutable []string
	Axioms    map[string][]*Axiom // facts about uninterpreted functions, by function
}

type dynDef struct {
	Params []string
	Body   *Expr
	Pos    string
}

var headRe = regexp.MustCompile(`^(func|iface|functype|extern|type|alloc|lemma)\s+(.+)$`)
var clauseRe = regexp.MustCompile(`^(requires|ensures|decreases|inv|conserve|on|set|assume|opt|fresh|modifies|returns|forall|use|oninv|prove|ghost|invariant|closure|becomes|given|measure|init)(\[[^\]]*\])?\s*(.*)$`)

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Funs: map[string]*SpecFun{}, Contracts: map[string]*Contract{}, Consts: map[string]*Expr{}, Dyn: map[string]bool{}, Ghosts: map[string]string{}, LocalG: map[string]bool{}, Final: map[string]bool{},
		Rules: map[string][]*Rule{}, Preds: map[string]*Pred{}, Axioms: map[string][]*Axiom{}, MapInvs: map[string]*HeapInv{}, FieldInvs: map[string]*HeapInv{}, ElemInvs: map[string]*HeapInv{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	if len(files) == 0 {
		return nil, fmt.Errorf("no contract files in %s", dir)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.parse(filepath.Base(f), string(b))
	}
	// recursion detection
	var reach func(name string, seen map[string]bool, target string) bool
	reach = func(name string, seen map[string]bool, target string) bool {
		f := sp.Funs[name]
		if f == nil || f.Body == nil {
			return false
		}
		found := false
		walkExpr(f.Body, func(e *Expr) {
			if e.K == "call" {
				if e.S == target {
					found = true
				} else if sp.Funs[e.S] != nil && !seen[e.S] {
					seen[e.S] = true
					if reach(e.S, seen, target) {
						found = true
					}
				}
			}
		})
		return found
	}
	for n, f := range sp.Funs {
		f.Rec = reach(n, map[string]bool{}, n)
	}
	for _, f := range sp.Funs {
		f.checkLocal()
	}
	return sp, nil
}

func walkExpr(e *Expr, f func(*Expr)) {
	f(e)
	for _, a := range e.A {
		walkExpr(a, f)
	}
}

func (sp *Specs) parse(file, src string) {
	lines := strings.Split(src, "\n")
	// join into logical lines: a clause starts with a keyword, everything else continues
	type ll struct {
		text   string
		indent int
		no     int
	}
	var logical []ll
	for i, l := range lines {
		if k := strings.Index(l, "#"); k >= 0 && !strings.Contains(l[:k], "'") && !strings.Contains(l[:k], `"`) {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		isHead := ind == 0
		isClause := ind > 0 && clauseRe.MatchString(t) && !strings.HasPrefix(t, "old(")
		if isHead || isClause {
			logical = append(logical, ll{t, ind, i + 1})
		} else if len(logical) > 0 {
			logical[len(logical)-1].text += " " + t
		} else {
			panic(fmt.Sprintf("%s:%d: stray line", file, i+1))
		}
	}
	var cur *Contract
	for _, l := range logical {
		pos := fmt.Sprintf("%s:%d", file, l.no)
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s: %v", pos, r))
				}
			}()
			if l.indent == 0 {
				cur = nil
				switch {
				case strings.HasPrefix(l.text, "spec "):
					sp.parseSpecFun(l.text[5:], pos)
				case strings.HasPrefix(l.text, "ghost "):
					f := strings.Fields(l.text)
					sp.Ghosts[strings.TrimPrefix(f[1], "$")] = f[2]
					if len(f) > 3 && f[3] == "local" {
						sp.LocalG[strings.TrimPrefix(f[1], "$")] = true
					}
				case strings.HasPrefix(l.text, "final "):
					for _, n := range splitComma(l.text[6:]) {
						sp.Final[n] = true
					}
				case strings.HasPrefix(l.text, "const "):
					p := strings.SplitN(l.text[6:], "=", 2)
					sp.Consts[strings.TrimSpace(p[0])] = parseExpr(p[1])
				case strings.HasPrefix(l.text, "rule "), strings.HasPrefix(l.text, "axiom "), strings.HasPrefix(l.text, "pred "), hinvHead(l.text), strings.HasPrefix(l.text, "fieldinv "), strings.HasPrefix(l.text, "eleminv "), strings.HasPrefix(l.text, "immutable "):
					sp.parseDecl(l.text, pos)
				case strings.HasPrefix(l.text, "dyn "):
					sp.Dyn[strings.TrimSpace(l.text[4:])] = true
				default:
					m := headRe.FindStringSubmatch(l.text)
					if m == nil {
						panic("bad head: " + l.text)
					}
					cur = parseHead(m[1], m[2], pos)
					k := cur.Kind + ":" + cur.Name
					if i := strings.Index(cur.Name, "@"); i > 0 {
						ps := strings.Split(cur.Name[i+1:], "+")
						cur.Name = cur.Name[:i]
						for _, p := range ps[1:] {
							sp.Contracts[cur.Kind+":"+cur.Name+"@"+p] = cur
						}
						k = cur.Kind + ":" + cur.Name + "@" + ps[0]
					}
					if old := sp.Contracts[k]; old != nil {
						panic("duplicate contract " + k)
					}
					sp.Contracts[k] = cur
					sp.Order = append(sp.Order, cur)
				}
				return
			}
			if cur == nil {
				panic("clause outside a contract")
			}
			cl := parseClause(l.text, pos)
			if cl.Kind == "opt" {
				kv := strings.SplitN(cl.Src, "=", 2)
				v := "1"
				if len(kv) == 2 {
					v = strings.TrimSpace(kv[1])
				}
				cur.Opts[strings.TrimSpace(kv[0])] = v
				return
			}
			cur.Clauses = append(cur.Clauses, cl)
		}()
	}
}

func splitComma(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	last := 0
	inStr := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			inStr = !inStr
		case inStr:
		case c == '\'' && i+2 < len(s) && s[i+2] == '\'':
			i += 2
		case c == '(' || c == '[':
			d++
		case c == ')' || c == ']':
			d--
		case c == sep && d == 0:
			out = append(out, s[last:i])
			last = i + 1
		}
	}
	return append(out, s[last:])
}

func parseHead(kind, rest, pos string) *Contract {
	c := &Contract{Kind: kind, Pos: pos, Opts: map[string]string{}}
	// name(params) (results); the name itself may start with "(*"
	i := 0
	if strings.HasPrefix(rest, "(") {
		i = strings.Index(rest, ")") + 1
	}
	j := strings.Index(rest[i:], "(")
	if j < 0 {
		c.Name = strings.TrimSpace(rest)
		return c
	}
	j += i
	c.Name = strings.TrimSpace(rest[:j])
	e := j + strings.Index(rest[j:], ")")
	c.Params = splitComma(rest[j+1 : e])
	r := strings.TrimSpace(rest[e+1:])
	r = strings.Trim(r, "()")
	c.Results = splitComma(r)
	return c
}

func (sp *Specs) parseSpecFun(s, pos string) {
	m := regexp.MustCompile(`^(\w+)\s*\(([^)]*)\)\s*(\w+)(?:\s+fuel\s+(\d+))?\s*(?:=\s*(.*))?$`).FindStringSubmatch(s)
	if m == nil {
		panic("bad spec function: " + s)
	}
	f := &SpecFun{Name: m[1], Res: m[3], Pos: pos, Fuel: 1}
	if m[4] != "" {
		fmt.Sscan(m[4], &f.Fuel)
	}
	for _, p := range splitComma(m[2]) {
		x := strings.Fields(p)
		if len(x) != 2 {
			panic("bad parameter " + p)
		}
		f.Params = append(f.Params, x[0])
		f.Types = append(f.Types, x[1])
	}
	if m[5] != "" {
		f.Body = parseExpr(m[5])
	}
	if sp.Funs[f.Name] != nil {
		panic("duplicate spec function " + f.Name)
	}
	sp.Funs[f.Name] = f
	sp.FunOrder = append(sp.FunOrder, f.Name)
}

var labelRe = regexp.MustCompile(`^([a-z][a-z0-9_-]*):\s+(.*)$`)
var onRe = regexp.MustCompile(`^(\S+?)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*::\s*(.*)$`)

func parseClause(t, pos string) *Clause {
	m := clauseRe.FindStringSubmatch(t)
	cl := &Clause{Kind: m[1], Pos: pos}
	if m[2] != "" {
		cl.Tags = splitComma(strings.Trim(m[2], "[]"))
	}
	body := strings.TrimSpace(m[3])
	if cl.Kind == "opt" {
		cl.Src = body
		return cl
	}
	if lm := labelRe.FindStringSubmatch(body); lm != nil {
		cl.Label = lm[1]
		body = lm[2]
	}
	cl.Src = body
	switch cl.Kind {
	case "on":
		// on callee(args) (results) :: requires/ set / assume clauses separated by ;;
		x := body
		i := 0
		if strings.HasPrefix(x, "(") {
			i = strings.Index(x, ")") + 1
		}
		j := i + strings.Index(x[i:], "(")
		cl.Call = strings.TrimSpace(x[:j])
		e := j + strings.Index(x[j:], ")")
		cl.Vars = splitComma(x[j+1 : e])
		rest := strings.TrimSpace(x[e+1:])
		k := strings.Index(rest, "::")
		if k < 0 {
			panic("on clause without ::")
		}
		rv := strings.Trim(strings.TrimSpace(rest[:k]), "()")
		if rv != "" {
			cl.Vars = append(cl.Vars, "=>")
			cl.Vars = append(cl.Vars, splitComma(rv)...)
		}
		for _, sub := range strings.Split(rest[k+2:], ";;") {
			sub = strings.TrimSpace(sub)
			if sub == "" {
				continue
			}
			sc := parseClause(sub, pos)
			if sc.Tags == nil {
				sc.Tags = cl.Tags
			}
			cl.Sub = append(cl.Sub, sc)
		}
	case "set", "becomes", "init":
		kv := strings.SplitN(body, ":=", 2)
		if len(kv) != 2 {
			panic("set needs :=")
		}
		cl.Label = strings.TrimSpace(kv[0])
		cl.E = []*Expr{parseExpr(kv[1])}
	case "returns":
		// returns cond :: r := expr
		k := strings.SplitN(body, "::", 2)
		kv := strings.SplitN(k[1], ":=", 2)
		cl.Label = strings.TrimSpace(kv[0])
		cl.E = []*Expr{parseExpr(k[0]), parseExpr(kv[1])}
	case "forall":
		cl.Vars = strings.Fields(body)
	case "fresh", "modifies", "closure":
		cl.Vars = splitComma(body)
	case "ghost":
		// ghost name Sort = init
		cl.Vars = strings.Fields(strings.SplitN(body, "=", 2)[0])
		if p := strings.SplitN(body, "=", 2); len(p) == 2 {
			cl.E = []*Expr{parseExpr(p[1])}
		}
	default:
		var when *Expr
		if cl.Kind == "inv" || cl.Kind == "conserve" {
			if i := strings.LastIndex(body, " when "); i >= 0 {
				when = parseExpr(body[i+6:])
				body = body[:i]
				defer func() { cl.E = append(cl.E, when) }()
			}
		}
		for _, p := range splitTop(body, ',') {
			if cl.Kind != "decreases" {
				p = body
			}
			cl.E = append(cl.E, parseExpr(p))
			if cl.Kind != "decreases" {
				break
			}
		}
	}
	return cl
}

func hinvHead(s string) bool {
	return strings.HasPrefix(s, "mapinv[") || strings.HasPrefix(s, "fieldinv[") || strings.HasPrefix(s, "eleminv[") || strings.HasPrefix(s, "mapinv ")
}
