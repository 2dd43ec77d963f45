package main

import (
	"fmt"
	"strings"

	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
)

type badRuleCase struct {
	Expr   S
	Ns     []int64
	Huge   *hugeExpr `json:",omitempty"` // a hostile text instead of Expr
	NoSemi bool      `json:",omitempty"`
	Header S         // msgstr of a header entry whose plural rule is missing or malformed; "" when unused
}

// hugeExpr is a long or deeply nested text: Open and Close repeated around n.
type hugeExpr struct {
	Open, Close S
	K, C        int
}

func (h *hugeExpr) text() string {
	return strings.Repeat(string(h.Open), h.K) + "n" + strings.Repeat(string(h.Close), h.C)
}

func stripSpaces(s string) string { return strings.ReplaceAll(s, " ", "") }

// exprVerdict is what the property demands of one text and count.
type exprVerdict int

const (
	mustFail exprVerdict = iota
	mayFail              // undefined in C: anything but a crash
	valid                // a well-formed expression with a value (C03)
	prefixOK             // KF4: a valid prefix followed by more tokens
)

// judge classifies the text; v is the value where one is acceptable.
func judge(s string, n int64) (exprVerdict, int64) {
	quirk := evalOpt{xorIsAnd: true}
	e, rest, ok := parseExpr(s, cPrec)
	if ok && rest == 0 {
		_, st := e.eval(n, evalOpt{})
		if anyBigLit(e) {
			return mustFail, 0
		}
		switch st {
		case stOK:
			return valid, 0
		case stDivZero:
			// with ^ or mixed relational operators the library divides by
			// something else (KF1, KF2, reported by C03)
			lib, _, _ := parseExpr(s, quirkPrec)
			if _, st := lib.eval(n, quirk); st == stOK {
				return mayFail, 0
			}
			return mustFail, 0
		}
		return mayFail, 0
	}
	if p, rest, _, ok := parsePrefix(s, quirkPrec); ok && rest > 0 {
		if anyBigLit(p) {
			return mustFail, 0
		}
		v, st := p.eval(n, quirk)
		switch st {
		case stOK:
			return prefixOK, v
		case stDivZero:
			return mustFail, 0
		}
		return mayFail, 0
	}
	return mustFail, 0
}

func anyBigLit(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "lit" {
		if _, st := e.eval(0, evalOpt{}); st == stBigLit {
			return true
		}
	}
	return anyBigLit(e.A) || anyBigLit(e.B) || anyBigLit(e.C)
}

func genBadExpr(rt *rapid.T) string {
	var base string
	if chance(rt, "b.common", 40) {
		base = rapid.SampledFrom(commonRules).Draw(rt, "b.rule").Expr
		if chance(rt, "b.tight", 40) {
			base = stripSpaces(base)
		}
	} else {
		base = genExpr(rt, intn(rt, "b.depth", 0, 3), exprOpt{}).render(rt, pick(rt, "b.mode", renderPlain, renderTight, renderWild))
	}
	frag := func() string {
		return pick(rt, "b.frag", "(", ")", "n", "0", "1", "?", ":", "!", "=", "&", "|", "%", "/", "+", "-", "*", "<", ">", "~", "^", "&&", "||", "==", "x", "N", "i", "$", ";", ",", ".", "\"", "'", "\\", "@", "#", "é", "数", "\x00", "\xff", "\n", "\r", "\v", " ", "\t", "1.5", "0x1", "()", "nn", "99999999999999999999", "9223372036854775808", "%0", "/0", "/(n-n)", "{", "}", "[", "]", "if", "sizeof", "=1", "!=", "?:", "\u3000", "\u00a0")
	}
	switch intn(rt, "b.kind", 0, 9) {
	case 0: // garbage
		var b strings.Builder
		for i := intn(rt, "b.n", 0, 8); i > 0; i-- {
			b.WriteString(frag())
		}
		return b.String()
	case 1: // truncated
		if len(base) > 0 {
			return base[:intn(rt, "b.cut", 0, len(base)-1)]
		}
		return ""
	case 2: // missing start
		return base[min(len(base), intn(rt, "b.from", 1, 3)):]
	case 3: // deep nesting, balanced or not
		k := intn(rt, "b.deep", 1, 40)
		s := strings.Repeat("(", k) + base + strings.Repeat(")", intn(rt, "b.close", 0, k+1))
		return s
	case 4:
		return strings.Repeat(pick(rt, "b.un", "!", "~", "-", "+", "!~", "- "), intn(rt, "b.unn", 1, 60)) + pick(rt, "b.unarg", "n", "", "1", "(")
	case 5: // division by zero for some n
		return pick(rt, "b.div", "n/0", "n%0", "1/n", "5%n", "n%(n-1)", "1/(n-2)", "n==1?1/0:0", "(n%0)", "1+1/(n-n)", "n/(0*n)", "0/0")
	case 6: // oversized
		return pick(rt, "b.big", "9223372036854775808", "n+99999999999999999999", "n==18446744073709551616?0:1", "n%9999999999999999999999999999999", strings.Repeat("9", 100), "n==1?0:9223372036854775808")
	}
	s := base
	for i := intn(rt, "b.muts", 1, 2); i > 0; i-- {
		at := intn(rt, "b.at", 0, len(s))
		switch intn(rt, "b.op", 0, 3) {
		case 0: // delete
			if at < len(s) {
				s = s[:at] + s[at+1:]
			}
		case 1: // insert
			s = s[:at] + frag() + s[at:]
		case 2: // replace
			if at < len(s) {
				s = s[:at] + frag() + s[at+1:]
			}
		case 3: // duplicate
			if at < len(s) {
				s = s[:at] + s[at:at+1] + s[at:]
			}
		}
	}
	return s
}

var badHeaders = []string{
	"", "Language: zh_CN\n", "Plural-Forms: \n", "Plural-Forms: nplurals\n", "Plural-Forms: nplurals=; plural=n;\n", "Plural-Forms: nplurals=x; plural=n != 1;\n",
	"Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;\n", "Plural-Forms: plural=n != 1;\n", "Plural-Forms: nplurals=2;\n", "Plural-Forms: nplurals=2; plural=;\n",
	"Plural-Forms: nplurals=2; plural\n", "Plural-Forms: nplurals=-2; plural=n != 1;\n", "Plural-Forms: plural=n!=1; nplurals=2;\n", "Plural-Forms: npluralsx=2; plural=0;\n",
	"Plural-Forms: nplurals=0; plural=0;\n", "Plural-Forms: nplurals=2; plural=(;\n", "Plural-Forms nplurals=2; plural=n != 1;\n", "plural-form: x\n", "X: y\nPlural-Forms: garbage: nplurals=2; plural=n != 1;\n",
	"Plural-Forms: ;;;\n", "Plural-Forms: nplurals=two; plural=n;\n", "Plural-Forms: nplurals=2, plural=n != 1;\n", "Plural-Forms: \xff\xfe\n", "no colon at all", ": \n: :\n::", "Plural-Forms: nplurals=2 plural=n!=1;\n",
	"Plural-Forms: nplurals=2; plural=n!=1;; \n", "Plural-Forms: nplurals=2; plural=\n", "Plural-Forms: nplurals=2; plural= ; \n", "Plural-Forms: nplurals=99999999999999999999; plural=0;\n", "Plural-Forms: nplurals=2; plural=n!=1; x=1;\n", "Plural-Forms: nplurals=2; plural=n!=1; plural=0;\n", "Plural-Forms: nplurals=2; nplurals=3; plural=0;\n", "Plural-Forms: xnplurals=2; plural=0;\n", "Plural-Forms: nplurals=2.5; plural=0;\n", "Plural-Forms: nplurals=0x2; plural=0;\n", "Plural-Forms: nplurals=12", "Plural-Forms: nplurals=2; plurals=0;\n", "Plural-Forms: plural=0;\n", "Plural-Forms:", "PluralForms: nplurals=2; plural=0;\n",
}

var hugeKinds = []hugeExpr{{Open: "(", Close: ")", C: 1}, {Open: "(", Close: ")"}, {Open: "!"}, {Open: "-"}, {Open: "n?1:"}, {Open: "n?", Close: ":1", C: 1}, {Open: "n+"}, {Open: "n||"}, {Open: "n==1&&("}, {Open: "n%(", Close: ")", C: 1}, {Open: ")+"}, {Open: "?"}, {Open: " "}, {Open: "n "}, {Open: "9"}, {Open: "@"}, {Open: "!(!(!!)"}, {Open: ")("}, {Open: ")", Close: "(", C: 1}, {Open: "n?(", Close: "):1", C: 1}, {Open: "n%(n+(", Close: "))", C: 1}, {Open: "!(", Close: ")", C: 1}, {Open: "n?n:("}, {Open: "1?"}, {Open: ":"}}

func genC04(rt *rapid.T) badRuleCase {
	c := badRuleCase{Expr: S(genBadExpr(rt))}
	for i := intn(rt, "ns", 1, 3); i > 0; i-- {
		c.Ns = append(c.Ns, count(rt))
	}
	c.Ns = append(c.Ns, int64(intn(rt, "small", 0, 3)))
	if chance(rt, "huge", 1) && chance(rt, "huge2", 5) {
		h := pick(rt, "hugekind", hugeKinds...)
		h.K = pick(rt, "hugek", 100, 500, 5000, 100000)
		h.C *= h.K + intn(rt, "hugec", -1, 1)
		c.Expr, c.Huge = "", &h
	} else if chance(rt, "nosemi", 30) {
		c.NoSemi = true
	}
	if c.Huge == nil && chance(rt, "hdr", 50) {
		c.Header = S(pick(rt, "hdr.v", badHeaders...))
	}
	return c
}

func checkC04(c badRuleCase, o *Obs) error {
	ns := c.Ns
	if c.Huge != nil {
		c.Expr, c.Ns, ns = S(c.Huge.text()), c.Ns[:1], nil
		o.NT()
		o.Label("huge")
		evalLib(string(c.Expr), c.Ns[0]) // a value or an error, but an end
	}
	for _, n := range ns {
		v, val := judge(string(c.Expr), n)
		got, err := evalLib(string(c.Expr), n)
		desc := fmt.Sprintf("Eval(%q, %d) = %d, %v", string(c.Expr), n, got, err)
		switch v {
		case mustFail:
			o.NT()
			o.Label("must-fail")
			if err == nil {
				return fmt.Errorf("%s: not a plural expression with a value for this n, but no error", desc)
			}
		case valid:
			o.Label("valid")
		case mayFail:
			o.Label("undefined")
		case prefixOK:
			o.NT()
			o.Label("KF4")
			if err == nil && got != val {
				return fmt.Errorf("%s: malformed text accepted with value %d, which is not even that of the text read leniently (%d)", desc, got, val)
			}
			if err == nil {
				if e := o.Known("KF4", desc); e != nil {
					return e
				}
			}
		}
	}
	if strings.ContainsAny(string(c.Expr), "\n") {
		return nil // cannot stand in a header line
	}
	end := ";\n"
	if c.NoSemi {
		end = "\n"
	}
	headers := []string{"Language: zh_CN\nPlural-Forms: nplurals=3; plural=" + string(c.Expr) + end}
	if c.Header != "" {
		headers = append(headers, string(c.Header))
	}
	for i, h := range headers {
		msgs := []Msg{{Str: S(h)}, {ID: "s", Str: "single"}, {Ctxt: "c", ID: "s", Str: "ctx"}, {ID: "i", Plural: true, ID2: "p", StrN: []S{"f0", "f1", "f2"}}}
		cat := Catalog{NoHdr: true, Msgs: msgs}
		if h == "" {
			cat.Msgs = msgs[1:]
		}
		forms := map[string]func() (*translator.File, error){
			"api": func() (*translator.File, error) { return cat.file(), nil },
			"po": func() (*translator.File, error) {
				if strings.Contains(h, "\xff") || strings.Contains(h, "\r") {
					return cat.file(), nil
				}
				return readPoOwn(plainPo(cat.Msgs))
			},
			"mo": func() (*translator.File, error) { return readMoOwn(plainMO(cat.Msgs)) },
		}
		if strings.Contains(h, "\x00") {
			delete(forms, "mo")
		}
		for name, load := range forms {
			f, err := load()
			if err != nil {
				return fmt.Errorf("catalog with header %q does not load as %s: %v", h, name, err)
			}
			if g := f.X("", "s"); g != "single" {
				return fmt.Errorf("header %q (%s): X(s) = %q, want single", h, name, g)
			}
			if g := f.X("c", "s"); g != "ctx" {
				return fmt.Errorf("header %q (%s): X(c,s) = %q, want ctx", h, name, g)
			}
			for _, n := range c.Ns {
				want := defaultPlural("i", "p", n)
				got := f.XN64("", "i", "p", n)
				ok := got == want
				if !ok && c.Huge != nil {
					ok = got == "f0" || got == "f1" || got == "f2"
				} else if !ok && i == 0 {
					e := headerExpr(h)
					// blanks the expression grammar does not know (\r, \f) may
					// or may not be cut off at the ends
					for _, e := range []string{e, strings.Trim(e, " \t\r\f\v")} {
						v, val := judge(e, n)
						switch v {
						case valid, mayFail:
							ok = true // C02 and C03 judge these
						case prefixOK:
							ok = ok || val >= 0 && val < 3 && got == fmt.Sprintf("f%d", val)
						}
					}
				}
				if !ok {
					return fmt.Errorf("header %q (%s): XN64(i, p, %d) = %q, want %q", h, name, n, got, want)
				}
			}
		}
		if i == 1 {
			o.Label("bad-header")
			o.NT()
		}
	}
	return nil
}

// headerExpr is the expression text a header reader cuts out: from "plural="
// up to the last semicolon.
func headerExpr(h string) string {
	i := strings.LastIndex(h, "nplurals=3; plural=")
	s := h[i+len("nplurals=3; plural="):]
	s = strings.TrimSuffix(s, "\n")
	s = strings.TrimRight(s, " \t\r\f\v\u00a0\u0085\u3000")
	return strings.TrimLeft(strings.TrimSuffix(s, ";"), " \t\r\f\v")
}

func init() {
	register(Prop{
		ID: "C04", Quick: 80000, Thorough: 6400000, Silent: true,
		Technique: "grammar-mutation fuzzing against an independent expression parser",
		Level:     "exploration",
		Note:      "Mutated and random texts are classified by an independent lexer/parser; where no value exists an error is demanded, and catalogs carrying the text must load, answer singular lookups and fall back on plural ones. Finding KF4 is recognised with the exact value it yields. Output to stdout/stderr is watched.",
		Rule:      "published and generated expressions truncated, mutated at character level, nested, oversized, dividing by zero, plus malformed Plural-Forms headers; non-trivial = the text has no value by the independent parser, or the header is malformed",
	}, genC04, checkC04, func() []badRuleCase {
		var out []badRuleCase
		for _, s := range []string{"", " ", "nn", "1 2", "n)", "n()", "n ! = 1", "n!=1)", "(n!=1", "n!=", "!=1", "n==1?0", "n==1?0:", "n==1:0", "n=1", "n===1", "x", "n!=1;", "n;", "n/0", "n%0", "1/n", "9223372036854775808", "n+1 1", "n n", "n 1", "1n", "$", "n$", "+", "()", "n % % 2", "n&&", "||n", "n > > 1", "n % 1 0 == 1", "n\u00a0!=1"} {
			for _, h := range badHeaders[:4] {
				out = append(out, badRuleCase{Expr: S(s), Ns: []int64{0, 1, 2, 5}, Header: S(h)})
			}
		}
		for _, h := range hugeKinds {
			for _, k := range []int{1000, 50000, 1000000} {
				g := h
				g.K, g.C = k, k*h.C
				if len(g.Open)*k <= 6000000 {
					out = append(out, badRuleCase{Huge: &g, Ns: []int64{2}})
				}
			}
		}
		for _, h := range badHeaders {
			out = append(out, badRuleCase{Expr: "(", Ns: []int64{0, 1, 2, 5}, Header: S(h)})
		}
		return out
	})
}
