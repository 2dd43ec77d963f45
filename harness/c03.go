package main

import (
	"context"
	"fmt"
	"os"
	"strings"

	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
)

type exprCase struct {
	Exprs []string // renderings of one expression (same meaning)
	Ns    []int64
	Via   bool // also through a catalog
	Debug bool // also with DebugCtx: the same value
}

func init() {
	register(Prop{
		ID: "C03", Quick: 240000, Thorough: 19200000, Silent: true,
		Technique: "property-based testing against an independent C-expression evaluator",
		Level:     "exploration",
		Note:      "Generated expressions, layouts and counts compared with an independent parser and lazy evaluator; trusts that model. Findings KF1 and KF2 are recognised by exact models of the deviation.",
		Rule:      "a random expression tree (or a published formula) is rendered plainly, tightly and wildly (blanks, tabs, redundant parentheses) and evaluated for several n; non-trivial = at least one operator and a defined C value for some n",
		Assume:    []string{"signed 64-bit wrap-around on + - *", "expressions undefined in C (shift out of range, INT64_MIN/-1) only must not crash"},
	}, genC03, checkC03, func() []exprCase {
		var out []exprCase
		ns := []int64{0, 1, 2, 3, 4, 5, 10, 11, 12, 19, 20, 21, 22, 25, 100, 101, 102, 103, 111, 112, 121, 1 << 31, 1<<32 + 1, 1<<63 - 1}
		for _, r := range commonRules {
			e, _, _ := parseExpr(r.Expr, cPrec)
			out = append(out, exprCase{Exprs: []string{r.Expr, strings.ReplaceAll(r.Expr, " ", ""), "(" + r.Expr + ")", strings.ReplaceAll(r.Expr, " ", "\t"), e.rend(nil, renderPlain, 0, false), "0+(" + r.Expr + ")"}, Ns: ns, Via: true})
		}
		// published rules: every count up to 1300, with and without blanks
		for _, r := range commonRules {
			for _, s := range []string{strings.ReplaceAll(r.Expr, " ", ""), r.Expr} {
				for lo := int64(-20); lo < 1300; lo += 330 {
					c := exprCase{Exprs: []string{s}}
					for n := lo; n < lo+330; n++ {
						c.Ns = append(c.Ns, n)
					}
					out = append(out, c)
				}
			}
		}
		// every pair of neighbouring operators, alone and below ?:
		bin := []string{"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "&&", "||"}
		for _, a := range bin {
			var c exprCase
			c.Ns = []int64{0, 1, 2, 7}
			var all []string
			for _, b := range bin {
				all = append(all, "n"+a+"2"+b+"3", "5"+a+"n"+b+"2", "6"+a+"4"+b+"n", "7"+a+"!n"+b+"-2", "1"+a+"3"+b+"1?5:6")
			}
			for _, s := range all {
				if _, rest, ok := parseExpr(s, cPrec); ok && rest == 0 {
					out = append(out, exprCase{Exprs: []string{s}, Ns: c.Ns})
				}
			}
		}
		for _, s := range []string{
			"n&&1", "n||0", "!n", "n?1:0", "n%10&&n%100", "!(n%10)", "2&&3", "n-1?5:6", "!!n", "!5", "-n", "~n", "- -n", "n- -1", "++n", "--n", "n+1*2", "(n+1)*2", "n-1-1", "n/2/2", "n-(1-1)", "1<<2<<1", "n>>1>>1", "n==1==1", "n!=1==0", "n&6|1", "n|6&1", "n&3==3", "1||0&&0", "0&&0||1", "n<2==1", "n+1<2", "1?2:0?3:4", "0?1?2:3:4", "n?n?1:2:3", "n==1?0:n==2?1:n==3?2:3", "1<<3-1", "1<<62", "n*n", "9223372036854775807", "9223372036854775807+1", "n&4294967295", "n>2147483648", "-7/2", "-7%3", "(0-n)%3", "-n>>1", "~0", "n %\t10", "n==010", "n%0100==08?007:09", "n>0000000000000000000012", "000?1:02", "n%010", "00777+0",
		} {
			out = append(out, exprCase{Exprs: []string{s}, Ns: ns})
		}
		for _, s := range []string{"n^1", "6^3", "n<=n<1", "3>=2>1", "5>n>=1", "n==0||10/n>1", "n!=0&&10%n==0", "n?10/n:0", "n<2||1<<(n-2)", "n==0?1:n%n", "1||(0&&1/n)", "(n&&5/n)+1", "0&&1%n||n", "n>2?1<<(n-3):4", "!(n&&1/n)", "1?2:n/0", "n?n/0:3", "0&&(1/0&&2)", "n/0&&0||1", "-(n&&4/n)"} {
			out = append(out, exprCase{Exprs: []string{s}, Ns: []int64{0, 1, 2, 3, 5, -1}})
		}
		return out
	})
}

func genC03(rt *rapid.T) exprCase {
	var c exprCase
	if chance(rt, "formula", 15) {
		r := rapid.SampledFrom(commonRules).Draw(rt, "formula.r")
		e, _, _ := parseExpr(r.Expr, cPrec)
		c.Exprs = []string{e.render(rt, renderWild), e.render(rt, renderTight), e.render(rt, renderPlain)}
		c.Via = true
	} else {
		e := genExpr(rt, intn(rt, "depth", 1, 4), exprOpt{safe: chance(rt, "safe", 50)})
		c.Exprs = []string{e.render(rt, renderPlain), e.render(rt, renderWild)}
		if chance(rt, "tight", 30) {
			c.Exprs = append(c.Exprs, e.render(rt, renderTight))
		}
		c.Via = chance(rt, "via", 20)
		c.Debug = chance(rt, "debug", 10)
	}
	for i := intn(rt, "ns", 1, 4); i > 0; i-- {
		c.Ns = append(c.Ns, count(rt))
	}
	return c
}

// parenDepth is the deepest nesting of parentheses.
func parenDepth(s string) (deepest int) {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		}
		deepest = max(deepest, d)
	}
	return
}

func evalLib(s string, n int64) (int64, error) { return plurals.Eval(context.Background(), s, n) }

// evalDebug is evalLib under DebugCtx, which prints every step: what it prints is dropped.
func evalDebug(s string, n int64) (int64, error) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	out := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = out; null.Close() }()
	return plurals.Eval(plurals.DebugCtx(context.Background()), s, n)
}

func checkC03(c exprCase, o *Obs) error {
	for _, s := range c.Exprs {
		if len(s) > 1000 || parenDepth(s) > 60 {
			o.Label("too long") // a limit is allowed (C04)
			continue
		}
		e, rest, ok := parseExpr(s, cPrec)
		if !ok || rest != 0 {
			return fmt.Errorf("harness: generated bad expression %q", s)
		}
		q, _, _ := parseExpr(s, quirkPrec)
		for _, n := range c.Ns {
			want, st := e.eval(n, evalOpt{})
			got, err := evalLib(s, n)
			if c.Debug {
				o.Label("debug")
				if dgot, derr := evalDebug(s, n); dgot != got || (derr == nil) != (err == nil) {
					return fmt.Errorf("Eval(%q, %d) = %d, %v, but %d, %v under DebugCtx", s, n, got, err, dgot, derr)
				}
			}
			o.LabelIf(st == stOK, "defined")
			o.LabelIf(st != stOK, "undefined")
			if st != stOK {
				continue
			}
			if e.size() > 1 {
				o.NT()
			}
			o.LabelIf(want < 0 || want > 1, "value-not-bool")
			if err == nil && got == want {
				continue
			}
			// the listed deviations, modelled exactly
			qv, qst := q.eval(n, evalOpt{xorIsAnd: true})
			desc := fmt.Sprintf("Eval(%q, %d) = %d, %v; C gives %d", s, n, got, err, want)
			explained := false
			switch qst {
			case stOK:
				explained = err == nil && got == qv
			case stDivZero:
				explained = err != nil
			case stUndef:
				explained = true
			}
			switch {
			case explained && e.has("^"):
				if e := o.Known("KF1", desc); e != nil {
					return e
				}
			case explained && !e.equal(q):
				if e := o.Known("KF2", desc); e != nil {
					return e
				}
			default:
				return fmt.Errorf("%s", desc)
			}
		}
		if c.Via {
			if err := viaCatalog(s, e, q, c.Ns); err != nil {
				return err
			}
		}
	}
	return nil
}

// viaCatalog checks that a catalog with this rule selects the form of that value.
func viaCatalog(s string, e, q *Expr, ns []int64) error {
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=9; plural=" + s + ";\n"})
	forms := []string{"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8"}
	f.AddEntry(&translator.Entry{MsgID: "i", MsgID2: "p", IsPlural: true, MsgStrN: forms})
	for _, n := range ns {
		want, st := e.eval(n, evalOpt{})
		qv, qst := q.eval(n, evalOpt{xorIsAnd: true})
		if st != stOK || qst != stOK || qv != want {
			continue
		}
		exp := "p"
		if n == 1 {
			exp = "i"
		}
		if want >= 0 && want < 9 {
			exp = forms[want]
		}
		if got := f.XN64("", "i", "p", n); got != exp {
			return fmt.Errorf("catalog with plural=%q, n=%d: got %q, want %q (rule value %d)", s, n, got, exp, want)
		}
	}
	return nil
}
