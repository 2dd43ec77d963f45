package main

// An independent model of plural expressions: lexer, C-precedence parser,
// lazy C evaluator, and the variants needed to recognise the listed findings.

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type Expr struct {
	Op      string // "n", "lit", unary "u-" "u+" "!" "~" "u++" "u--", "p++" "p--", binary, "?"
	V       string // literal digits
	A, B, C *Expr
}

type tok struct {
	s        string
	num      bool
	from, to int
}

// lexExpr splits into tokens; bad is the offset of the first bad character or -1.
func lexExpr(s string) (toks []tok, bad int) {
	ops := []string{"++", "--", ">>", "<<", ">=", "<=", "==", "!=", "&&", "||", "+", "-", "~", "!", "*", "/", "%", ">", "<", "&", "^", "|", "?", ":", "(", ")", "n"}
	i := 0
outer:
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' {
			i++
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			toks = append(toks, tok{s[i:j], true, i, j})
			i = j
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				toks = append(toks, tok{o, false, i, i + len(o)})
				i += len(o)
				continue outer
			}
		}
		return toks, i
	}
	return toks, -1
}

type eparser struct {
	toks []tok
	pos  int
	prec func(op string) int
	err  bool
}

func cPrec(op string) int {
	switch op {
	case "*", "/", "%":
		return 10
	case "+", "-":
		return 9
	case ">>", "<<":
		return 8
	case ">", "<", ">=", "<=":
		return 7
	case "==", "!=":
		return 6
	case "&":
		return 5
	case "^":
		return 4
	case "|":
		return 3
	case "&&":
		return 2
	case "||":
		return 1
	}
	return -1
}

// quirkPrec is the precedence of the finding KF2: < and > bind tighter than <= and >=.
func quirkPrec(op string) int {
	p := cPrec(op) * 2
	if op == "<" || op == ">" {
		p++
	}
	return p
}

func (p *eparser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos].s
	}
	return ""
}

func (p *eparser) fail() *Expr { p.err = true; return &Expr{Op: "lit", V: "0"} }

func (p *eparser) unary() *Expr {
	if p.err {
		return p.fail()
	}
	switch t := p.peek(); t {
	case "+", "-", "++", "--":
		p.pos++
		return &Expr{Op: "u" + t, A: p.unary()}
	case "!", "~":
		p.pos++
		return &Expr{Op: t, A: p.unary()}
	}
	var e *Expr
	switch t := p.peek(); {
	case t == "(":
		p.pos++
		e = p.ternary()
		if p.peek() != ")" {
			return p.fail()
		}
		p.pos++
	case t == "n":
		p.pos++
		e = &Expr{Op: "n"}
	case p.pos < len(p.toks) && p.toks[p.pos].num:
		p.pos++
		e = &Expr{Op: "lit", V: t}
	default:
		return p.fail()
	}
	for p.peek() == "++" || p.peek() == "--" {
		e = &Expr{Op: "p" + p.peek(), A: e}
		p.pos++
	}
	return e
}

func (p *eparser) binary(min int) *Expr {
	l := p.unary()
	for !p.err {
		op := p.peek()
		pr := p.prec(op)
		if op == "" || pr < 0 || pr < min {
			break
		}
		p.pos++
		r := p.binary(pr + 1)
		l = &Expr{Op: op, A: l, B: r}
	}
	return l
}

func (p *eparser) ternary() *Expr {
	c := p.binary(0)
	if p.err || p.peek() != "?" {
		return c
	}
	p.pos++
	a := p.ternary()
	if p.peek() != ":" {
		return p.fail()
	}
	p.pos++
	b := p.ternary()
	return &Expr{Op: "?", A: c, B: a, C: b}
}

// parsePrefix parses greedily; rest is the number of unread tokens, bad tells
// that a character starting no token follows them.
func parsePrefix(s string, prec func(string) int) (e *Expr, rest int, bad, ok bool) {
	toks, at := lexExpr(s)
	p := &eparser{toks: toks, prec: prec}
	e = p.ternary()
	if p.err {
		return nil, 0, at >= 0, false
	}
	return e, len(toks) - p.pos, at >= 0, true
}

// parseExpr parses a whole expression.
func parseExpr(s string, prec func(string) int) (e *Expr, rest int, ok bool) {
	e, rest, bad, ok := parsePrefix(s, prec)
	return e, rest, ok && !bad
}

type status int

const (
	stOK      status = iota
	stUndef          // undefined in C (overflowing shift, INT_MIN / -1)
	stDivZero        // division by zero
	stBigLit         // literal does not fit
)

type evalOpt struct {
	xorIsAnd bool // KF1
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// eval evaluates with C semantics on signed 64-bit integers.
func (e *Expr) eval(n int64, o evalOpt) (int64, status) {
	switch e.Op {
	case "n":
		return n, stOK
	case "lit":
		v, err := strconv.ParseInt(e.V, 10, 64)
		if err != nil {
			return 0, stBigLit
		}
		return v, stOK
	}
	a, st := e.A.eval(n, o)
	if st != stOK {
		return 0, st
	}
	switch e.Op {
	case "&&":
		if a == 0 {
			return 0, stOK
		}
	case "||":
		if a != 0 {
			return 1, stOK
		}
	case "?":
		if a != 0 {
			return e.B.eval(n, o)
		}
		return e.C.eval(n, o)
	}
	var b int64
	if e.B != nil {
		if b, st = e.B.eval(n, o); st != stOK {
			return 0, st
		}
	}
	switch e.Op {
	case "u+":
		return a, stOK
	case "u-":
		return -a, stOK
	case "u++", "p++":
		return a + 1, stOK
	case "u--", "p--":
		return a - 1, stOK
	case "!":
		return b2i(a == 0), stOK
	case "~":
		return ^a, stOK
	case "*":
		return a * b, stOK
	case "/", "%":
		if b == 0 {
			return 0, stDivZero
		}
		if a == math.MinInt64 && b == -1 {
			return 0, stUndef
		}
		if e.Op == "/" {
			return a / b, stOK
		}
		return a % b, stOK
	case "+":
		return a + b, stOK
	case "-":
		return a - b, stOK
	case ">>", "<<":
		if b < 0 || b > 63 {
			return 0, stUndef
		}
		if e.Op == ">>" {
			return a >> uint(b), stOK
		}
		return a << uint(b), stOK
	case ">":
		return b2i(a > b), stOK
	case "<":
		return b2i(a < b), stOK
	case ">=":
		return b2i(a >= b), stOK
	case "<=":
		return b2i(a <= b), stOK
	case "==":
		return b2i(a == b), stOK
	case "!=":
		return b2i(a != b), stOK
	case "&":
		return a & b, stOK
	case "^":
		if o.xorIsAnd {
			return a & b, stOK
		}
		return a ^ b, stOK
	case "|":
		return a | b, stOK
	case "&&", "||":
		return b2i(b != 0), stOK
	}
	panic("harness: unknown op " + e.Op)
}

func (e *Expr) has(ops ...string) bool {
	if e == nil {
		return false
	}
	for _, o := range ops {
		if e.Op == o {
			return true
		}
	}
	return e.A.has(ops...) || e.B.has(ops...) || e.C.has(ops...)
}

func (e *Expr) size() int {
	if e == nil {
		return 0
	}
	return 1 + e.A.size() + e.B.size() + e.C.size()
}

func (e *Expr) equal(f *Expr) bool {
	if e == nil || f == nil {
		return e == f
	}
	return e.Op == f.Op && e.V == f.V && e.A.equal(f.A) && e.B.equal(f.B) && e.C.equal(f.C)
}

// evalRule is the index a valid safe rule yields, for catalogs.
func evalRule(expr string, n int64) (int64, status) {
	e, rest, ok := parseExpr(expr, cPrec)
	if !ok || rest != 0 {
		panic(fmt.Sprintf("harness: bad rule %q", expr))
	}
	return e.eval(n, evalOpt{})
}

// ---------------------------------------------------------------- generation

type exprOpt struct {
	safe bool // no construct that touches a listed finding or is undefined in C
}

var litPool = []string{"0", "1", "2", "3", "4", "5", "7", "10", "11", "12", "14", "19", "20", "100", "101", "1000", "2147483647", "2147483648", "4294967296", "9223372036854775807"}

func genExpr(rt *rapid.T, depth int, o exprOpt) *Expr {
	k := 0
	if depth > 0 {
		k = intn(rt, "e.kind", 0, 19)
	}
	lit := func() *Expr {
		if chance(rt, "lit.zeros", 3) { // leading zeros do not change the value
			return &Expr{Op: "lit", V: pick(rt, "lit.zero", "0", "00", "000") + strconv.Itoa(intn(rt, "lit", 1, 130))}
		}
		if chance(rt, "lit.dict", 4) {
			if v, ok := dictInt(rt, "lit", 3, 100000); ok {
				return &Expr{Op: "lit", V: strconv.FormatInt(v, 10)}
			}
		}
		if o.safe {
			return &Expr{Op: "lit", V: strconv.Itoa(intn(rt, "lit", 0, 20))}
		}
		if chance(rt, "lit.pool", 40) {
			return &Expr{Op: "lit", V: rapid.SampledFrom(litPool).Draw(rt, "lit")}
		}
		return &Expr{Op: "lit", V: strconv.Itoa(intn(rt, "lit", 0, 130))}
	}
	switch {
	case k <= 3:
		if chance(rt, "e.lit", 45) {
			return lit()
		}
		return &Expr{Op: "n"}
	case k <= 5:
		op := pick(rt, "e.un", "!", "!", "u-", "~", "u+")
		return &Expr{Op: op, A: genExpr(rt, depth-1, o)}
	case k <= 8:
		return &Expr{Op: "?", A: genExpr(rt, depth-1, o), B: genExpr(rt, depth-1, o), C: genExpr(rt, depth-1, o)}
	case k <= 10:
		op := pick(rt, "e.divmod", "%", "%", "/")
		b := lit()
		if !o.safe && chance(rt, "e.divexpr", 25) {
			b = genExpr(rt, depth-1, o)
		}
		if b.Op == "lit" && b.V == "0" && (o.safe || !chance(rt, "e.div0", 15)) {
			b.V = "10"
		}
		return &Expr{Op: op, A: genExpr(rt, depth-1, o), B: b}
	case k == 11:
		op := pick(rt, "e.shift", "<<", ">>")
		b := &Expr{Op: "lit", V: strconv.Itoa(intn(rt, "sh", 0, 9))}
		if !o.safe && chance(rt, "e.shexpr", 15) {
			b = genExpr(rt, depth-1, o)
		}
		return &Expr{Op: op, A: genExpr(rt, depth-1, o), B: b}
	}
	ops := []string{"==", "!=", "<", ">", "<=", ">=", "&&", "||", "+", "-", "*", "&", "|", "==", "!=", "&&", "||"}
	if !o.safe {
		ops = append(ops, "^")
	}
	op := rapid.SampledFrom(ops).Draw(rt, "e.op")
	return &Expr{Op: op, A: genExpr(rt, depth-1, o), B: genExpr(rt, depth-1, o)}
}

type renderMode int

const (
	renderPlain renderMode = iota // minimal parentheses, regular blanks
	renderTight                   // no blanks
	renderWild                    // random blanks and redundant parentheses
)

func isRel(op string) bool { return op == "<" || op == ">" || op == "<=" || op == ">=" }

// render prints the expression. In safe modes chains of relational operators
// are parenthesised (see KF2); wild rendering may leave them bare.
func (e *Expr) render(rt *rapid.T, m renderMode) string {
	return e.rend(rt, m, 0, false)
}

func blank(rt *rapid.T, m renderMode) string {
	switch m {
	case renderPlain:
		return " "
	case renderTight:
		return ""
	}
	return pick(rt, "ws", "", "", " ", " ", "  ", "\t", " \t ")
}

func join(a, ws, b string) string {
	// keep "+ +" and "- -" apart; they are other tokens when adjacent
	if ws == "" && a != "" && b != "" {
		x, y := a[len(a)-1], b[0]
		if (x == '+' || x == '-') && x == y {
			ws = " "
		}
	}
	return a + ws + b
}

func (e *Expr) rend(rt *rapid.T, m renderMode, min int, rel bool) string {
	var s string
	prec := 20
	switch {
	case e.Op == "n":
		s = "n"
	case e.Op == "lit":
		s = e.V
	case e.B == nil && strings.HasPrefix(e.Op, "p"):
		s, prec = e.A.rend(rt, m, 15, false)+e.Op[1:], 15
	case e.B == nil:
		op := strings.TrimPrefix(e.Op, "u")
		ws := ""
		if m == renderWild {
			ws = blank(rt, m)
		}
		s, prec = join(op, ws, e.A.rend(rt, m, 12, false)), 12
	case e.Op == "?":
		a, b, c := e.A.rend(rt, m, 1, false), e.B.rend(rt, m, 0, false), e.C.rend(rt, m, 0, false)
		s = a + blank(rt, m) + "?" + blank(rt, m) + b + blank(rt, m) + ":" + blank(rt, m) + c
		prec = 0
	default:
		prec = cPrec(e.Op) + 1
		inRel := isRel(e.Op) && m != renderWild
		a, b := e.A.rend(rt, m, prec, inRel), e.B.rend(rt, m, prec+1, inRel)
		s = join(join(a, blank(rt, m), e.Op), blank(rt, m), b)
	}
	paren := prec < min || rel && isRel(e.Op)
	if !paren && m == renderWild && chance(rt, "paren", 10) {
		paren = true
	}
	if paren {
		if m == renderWild {
			s = "(" + blank(rt, m) + s + blank(rt, m) + ")"
		} else {
			s = "(" + s + ")"
		}
	}
	return s
}
