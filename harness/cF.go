package main

// C26, C27, C28, C29: the template extractor.

import (
	"bytes"
	"fmt"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"text/template/parse"
	"time"
	"unicode/utf8"

	"github.com/youthlin/t/cmd/xtemplate/verifbridge"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- keywords

// KwDef is a keyword: positions are 0 when absent.
type KwDef struct {
	Name           string
	Ctxt, ID, ID2  int
	Style          int // spelling of the specification
	BlankA, BlankB string
}

func (k *KwDef) spec() string {
	s := k.Name
	var pos []string
	if k.Ctxt > 0 {
		pos = append(pos, strconv.Itoa(k.Ctxt)+"c")
	}
	pos = append(pos, strconv.Itoa(k.ID))
	if k.ID2 > 0 {
		pos = append(pos, strconv.Itoa(k.ID2))
	}
	if !(k.Style == 0 && len(pos) == 1 && k.ID == 1) {
		s += k.BlankA + ":" + k.BlankB + strings.Join(pos, k.BlankB+","+k.BlankA)
	}
	return k.BlankB + s + k.BlankA
}

func kwSpec(ks []KwDef) string {
	var s []string
	for i := range ks {
		s = append(s, ks[i].spec())
	}
	return strings.Join(s, ";")
}

var kwNames = []string{"T", "N", "X", "XN", "_", "gettext", "N64", "tr2", "翻译", "t", "print", "é1"}

func drawBlank(rt *rapid.T) string {
	return pick(rt, "blank", "", "", "", " ", "  ", "\t", " \t ")
}

func drawKw(rt *rapid.T) KwDef {
	k := KwDef{Name: pick(rt, "kw.name", kwNames...), Style: intn(rt, "kw.style", 0, 1), BlankA: drawBlank(rt), BlankB: drawBlank(rt)}
	if chance(rt, "kw.dict", 6) {
		w := dictStr(rt, "kw", func(s string) bool {
			switch s {
			case "if", "else", "end", "range", "with", "template", "define", "block", "break", "continue", "nil", "true", "false", "call", "Foo", "Bar", "bar", "tail":
				return false
			}
			return len(s) > 1 && token.IsIdentifier(s)
		})
		if w != "" {
			k.Name = w
		}
	}
	p := rapid.SampledFrom([][3]int{{0, 1, 0}, {0, 1, 2}, {1, 2, 0}, {1, 2, 3}, {0, 2, 0}, {0, 3, 0}, {0, 2, 1}, {2, 1, 0}, {3, 1, 2}, {1, 3, 2}, {0, 1, 3}, {2, 3, 4}, {1, 4, 2}, {0, 1, 1}}).Draw(rt, "kw.pos")
	k.Ctxt, k.ID, k.ID2 = p[0], p[1], p[2]
	return k
}

// ---------------------------------------------------------------- templates

// Use is one use of a message in a template.
type Use struct {
	Ctxt, ID, ID2 S
	Plural        bool
	File          string
	Lo, Hi        int // lines the call spans, from its action's start
}

type TplFile struct {
	Path string // relative to the case directory
	Src  S
}

type tplCase struct {
	Kws         []KwDef
	Left, Right string
	Funcs       string
	Files       []TplFile
	Pattern     string
	Uses        []Use
	CLI         bool
}

type tpl struct {
	rt          *rapid.T
	c           *tplCase
	file        string
	b           strings.Builder
	left, right string
	depth       int
	inRange     int
	names       []string
	open        int // line of the open action
	multi       bool
	decl        bool // $v is declared
	budget      int
}

func (w *tpl) put(s string) { w.b.WriteString(s) }
func (w *tpl) line() int    { return 1 + strings.Count(w.b.String(), "\n") }
func (w *tpl) sp() {
	if w.multi {
		w.put(pick(w.rt, "sp.m", " ", "\n", "  ", "\t", "\n  ", "\r\n"))
		return
	}
	w.put(pick(w.rt, "sp", " ", " ", " ", "  ", "\t"))
}
func (w *tpl) osp() {
	if chance(w.rt, "osp", 20) {
		w.sp()
	}
}

// plainText is text outside actions.
func (w *tpl) plainText() {
	for i := intn(w.rt, "txt.n", 0, 3); i > 0; i-- {
		k := w.c.Kws[intn(w.rt, "txt.kw", 0, len(w.c.Kws)-1)].Name
		s := pick(w.rt, "txt", "\n", "\n", "<p>", "a b", k+` "decoy1"`, "."+k+` "decoy2" "d" "e"`, "{ x }", "\r\n", `"`, "`", "中文", "} }", `// "q" | `+k, "\\", "%d", "/* */", "'", "-")
		// a piece must not form a left delimiter with what follows
		f := w.left[:1]
		s = strings.ReplaceAll(s, f, " ")
		w.put(s)
	}
}

func (w *tpl) act(f func()) {
	l, r := w.left, w.right
	if chance(w.rt, "trimL", 15) {
		l += "- "
	} else if chance(w.rt, "padL", 70) {
		l += " "
	}
	if chance(w.rt, "trimR", 15) {
		r = " -" + r
	} else if chance(w.rt, "padR", 70) || r[0] == '-' {
		r = " " + r
	}
	w.multi = chance(w.rt, "multi", 15)
	w.open = w.line()
	w.put(l)
	f()
	w.put(r)
	w.multi = false
}

type arg struct {
	lit  bool
	text string
}

func quoteLit(rt *rapid.T, s string) string {
	if chance(rt, "raw", 30) && !strings.ContainsAny(s, "`\r") && utf8.ValidString(s) && !strings.Contains(s, "\x00") {
		return "`" + s + "`"
	}
	if chance(rt, "ascii", 30) {
		return strconv.QuoteToASCII(s)
	}
	return strconv.Quote(s)
}

var msgPool = []string{"a", "b", "One apple", "%d apples", "100%", "ctx", "menu", "Hello, %s!", "x y", "msgid", "中文", "q\"q", "back\\slash", "a\nb", "tab\t", "", "{{", "}}", "T", "\x01"}

func (w *tpl) literal() string {
	if chance(w.rt, "lit.any", 30) {
		return string(text(w.rt, "lit", TextOpt{Short: true}))
	}
	return pick(w.rt, "lit.p", msgPool...)
}

func (w *tpl) litTok() arg {
	s := w.literal()
	d := intn(w.rt, "lit.par", 0, 9)
	if d < 8 {
		d = 0
	} else {
		d -= 7
	}
	for i := 0; i < d; i++ {
		w.put("(")
		w.osp()
	}
	w.put(quoteLit(w.rt, s))
	for i := 0; i < d; i++ {
		w.osp()
		w.put(")")
	}
	return arg{true, s}
}

// operand writes a non-literal argument.
func (w *tpl) operand() arg {
	k := intn(w.rt, "opnd", 0, 11)
	switch {
	case k <= 1:
		w.put(".")
	case k == 2:
		w.put("$")
	case k == 3:
		w.put(pick(w.rt, "fld", ".Foo", ".a.b", "$.x", "$.x.y"))
	case k == 4:
		w.put(pick(w.rt, "num", "42", "-1", "3.5", "0x1F", "true", "false", "nil", "'c'", "'\\''"))
	case k == 5 && w.decl:
		w.put(pick(w.rt, "var", "$v", "$v.f"))
	case k <= 8 && w.budget > 0:
		w.budget--
		w.put("(")
		w.osp()
		a := w.pipe()
		w.osp()
		w.put(")")
		if chance(w.rt, "chain", 20) {
			w.put(pick(w.rt, "chain.f", ".Foo", ".a.b"))
		} else if a != nil {
			return *a // a literal in parentheses
		}
	default:
		w.put(".Bar")
	}
	return arg{}
}

func (w *tpl) args(n int) (out []arg) {
	for i := 0; i < n; i++ {
		w.sp()
		if chance(w.rt, "arg.lit", 75) {
			out = append(out, w.litTok())
		} else {
			out = append(out, w.operand())
		}
	}
	return out
}

// fname draws a function or method name: a keyword or a near miss.
func (w *tpl) fname() string {
	k := w.c.Kws[intn(w.rt, "fn.kw", 0, len(w.c.Kws)-1)].Name
	if chance(w.rt, "fn.near", 15) {
		if chance(w.rt, "fn.dict", 40) {
			d := dictStr(w.rt, "fn", func(s string) bool { return token.IsIdentifier("a" + s) })
			if n := pick(w.rt, "fn.how", k+d, d+k); d != "" && token.IsIdentifier(n) {
				return n
			}
		}
		return pick(w.rt, "fn.other", k+"x", "x"+k, "Foo", "printf", "html", "len", "or", k+"2", "not", k+"٣", "_"+k, "aFunctionWithAVeryLongNameThatGoesOnAndOnAndOnForMoreThanSixtyFourLetters", strings.Repeat(k, 60))
	}
	return k
}

// command writes one command; piped is the literal piped into it, if any.
// It returns the command's value when that is a literal.
func (w *tpl) command(first bool, piped *arg) *arg {
	if first && chance(w.rt, "cmd.lit", 12) {
		a := w.litTok()
		return &a
	}
	if first && chance(w.rt, "cmd.opnd", 8) {
		switch intn(w.rt, "cmd.opnd.k", 0, 2) {
		case 0:
			w.put(".")
		case 1:
			w.put(".Foo.bar")
		default:
			w.put("42")
		}
		return nil
	}
	name := w.fname()
	if chance(w.rt, "cmd.call", 5) {
		w.put("call ")
		w.put(pick(w.rt, "call.head", ".", "$.", ".a.", "$.t.", ""))
		w.put(name)
	} else {
		switch intn(w.rt, "head", 0, 9) {
		case 0, 1, 2, 3:
			w.put(name)
		case 4, 5:
			w.put("." + name)
		case 6:
			w.put(pick(w.rt, "head.p", ".t.", ".a.b.", ".T.", "."+w.c.Kws[0].Name+".") + name)
		case 7:
			w.put(pick(w.rt, "head.v", "$.", "$.t.") + name)
		case 8:
			if w.decl {
				w.put(pick(w.rt, "head.dv", "$v.", "$v.t.") + name)
			} else {
				w.put("$.x.y." + name)
			}
		default:
			if w.budget > 0 {
				w.budget--
				w.put("(")
				w.osp()
				w.pipeline()
				w.osp()
				w.put(")")
				w.put(pick(w.rt, "head.c", ".", ".t.") + name)
			} else {
				w.put("fn." + name)
			}
		}
		if chance(w.rt, "tailfield", 4) { // the keyword is not the method called
			w.put(".tail")
			name = "tail"
		}
	}
	as := w.args(intn(w.rt, "args", 0, 5))
	if piped != nil {
		as = append(as, *piped)
	}
	w.record(name, as)
	return nil
}

// record notes the messages of a call.
func (w *tpl) record(name string, as []arg) {
	for _, k := range w.c.Kws {
		if k.Name != name {
			continue
		}
		get := func(p int) (string, bool) {
			if p == 0 {
				return "", true
			}
			if p > len(as) || !as[p-1].lit {
				return "", false
			}
			return as[p-1].text, true
		}
		c, ok1 := get(k.Ctxt)
		id, ok2 := get(k.ID)
		id2, ok3 := get(k.ID2)
		if !ok1 || !ok2 || !ok3 || c == "" && id == "" {
			continue
		}
		w.c.Uses = append(w.c.Uses, Use{Ctxt: S(c), ID: S(id), ID2: S(id2), Plural: k.ID2 > 0, File: w.file, Lo: w.open, Hi: w.line()})
	}
}

func (w *tpl) pipeline() { w.pipe() }

// pipe writes a pipeline; its value is returned when that is a literal.
func (w *tpl) pipe() *arg {
	a := w.command(true, nil)
	n := intn(w.rt, "pipes", 0, 5) - 3
	if n == 2 && chance(w.rt, "pipes.many", 25) {
		n = size(w.rt, "pipes.n", 3, 9, 40)
	}
	for ; n > 0; n-- {
		w.osp()
		w.put("|")
		w.osp()
		if a == nil {
			a = &arg{}
		}
		a = w.command(false, a)
	}
	return a
}

func (w *tpl) body() {
	w.plainText()
	for i := intn(w.rt, "body.n", 0, 3); i > 0; i-- {
		w.node()
		w.plainText()
	}
}

func (w *tpl) end() {
	w.act(func() { w.put("end") })
}

func (w *tpl) newName() string {
	n := fmt.Sprintf("%s%d", pick(w.rt, "tpl.name", "T", "header", "a b", "decoy"), len(w.names))
	w.names = append(w.names, n)
	return n
}

func (w *tpl) elses(kw string) {
	for i := intn(w.rt, "elseifs", 0, 3); i > 2; i-- {
		w.act(func() {
			w.put("else " + kw)
			w.sp()
			w.pipeline()
		})
		w.body()
	}
	if chance(w.rt, "else", 40) {
		w.act(func() { w.put("else") })
		w.body()
	}
}

func (w *tpl) node() {
	w.budget = 3
	if w.depth >= 3 {
		w.act(w.pipeline)
		return
	}
	w.depth++
	defer func() { w.depth-- }()
	switch k := intn(w.rt, "node", 0, 17); {
	case k <= 6:
		w.act(w.pipeline)
	case k == 7:
		w.act(func() {
			w.put("$x")
			w.sp()
			w.put(":=")
			w.sp()
			w.pipeline()
		})
	case k == 8 && w.decl:
		w.act(func() { w.put("$v = "); w.pipeline() })
	case k == 9:
		w.act(func() { w.put("if"); w.sp(); w.pipeline() })
		w.body()
		w.elses("if")
		w.end()
	case k == 10:
		w.act(func() {
			w.put("range")
			w.sp()
			w.put(pick(w.rt, "range.v", "", "", "$i := ", "$i, $e := "))
			w.pipeline()
		})
		w.inRange++
		w.body()
		if chance(w.rt, "break", 15) {
			w.act(func() { w.put(pick(w.rt, "brk", "break", "continue")) })
			w.body()
		}
		w.inRange--
		if chance(w.rt, "range.else", 40) {
			w.act(func() { w.put("else") })
			w.body()
		}
		w.end()
	case k == 11:
		w.act(func() {
			w.put("with")
			w.sp()
			w.put(pick(w.rt, "with.v", "", "", "$w := "))
			w.pipeline()
		})
		w.body()
		w.elses("with")
		w.end()
	case k == 12:
		n := pick(w.rt, "tpl.ref", append(w.names, "other")...)
		w.act(func() {
			w.put("template ")
			w.put(quoteLit(w.rt, n))
			if chance(w.rt, "tpl.arg", 60) {
				w.sp()
				w.pipeline()
			}
		})
	case k == 13:
		n := w.newName()
		w.act(func() {
			w.put("block ")
			w.put(quoteLit(w.rt, n))
			w.sp()
			w.pipeline()
		})
		d, r := w.decl, w.inRange
		w.decl, w.inRange = false, 0
		w.body()
		w.decl, w.inRange = d, r
		w.end()
	case k == 14 && w.depth == 1:
		n := w.newName()
		w.act(func() { w.put("define "); w.put(quoteLit(w.rt, n)) })
		d := w.decl
		w.decl = false
		w.body()
		w.decl = d
		w.end()
	case k == 15:
		kw := w.c.Kws[intn(w.rt, "cmt.kw", 0, len(w.c.Kws)-1)].Name
		trim := chance(w.rt, "cmt.trim", 30)
		l, r := w.left, w.right
		if trim {
			l, r = l+"- ", " -"+r
		}
		w.put(l + "/* " + kw + ` "decoy3" "d" "e" ` + pick(w.rt, "cmt", "", "\n", w.right, "."+kw+" `decoy4`") + " */" + r)
	default:
		w.act(w.pipeline)
	}
}

var delims = [][2]string{{"{{", "}}"}, {"{{", "}}"}, {"{{", "}}"}, {"<<", ">>"}, {"[[", "]]"}, {"<%", "%>"}, {"{%", "%}"}, {"<?", "?>"}, {"{{{", "}}}"}, {"«", "»"}, {"${", "}"}, {"@@", "@@"}, {"<!--", "-->"}}

// putCall writes a call of the keyword with the literals given for its positions.
func (w *tpl) putCall(k *KwDef, ctxt, id, id2 string) {
	w.put(k.Name)
	var as []arg
	for p := 1; p <= max(k.Ctxt, k.ID, k.ID2); p++ {
		s := "unused"
		switch p { // one position may serve twice
		case k.ID:
			s = id
		case k.ID2:
			s = id2
		case k.Ctxt:
			s = ctxt
		}
		w.put(" " + strconv.Quote(s))
		as = append(as, arg{true, s})
	}
	w.record(k.Name, as)
}

// bulk adds many files, many uses of one message, or much text.
func (c *tplCase) bulk(rt *rapid.T, sub bool) {
	dir := ""
	if sub {
		dir = "d1/"
	}
	k := &c.Kws[intn(rt, "bulk.kw", 0, len(c.Kws)-1)]
	n := pick(rt, "bulk.n", 12, 33, 70, 140, 300)
	if v, ok := dictInt(rt, "bulk", 3, 400); ok && chance(rt, "bulk.d", 30) {
		n = int(v)
	}
	switch intn(rt, "bulk.kind", 0, 4) {
	case 0: // many files
		for i := 0; i < n; i++ {
			w := &tpl{rt: rt, c: c, file: fmt.Sprintf("%sbulk%d.tmpl", dir, i), left: c.Left, right: c.Right}
			w.open = 1
			w.put(c.Left + " ")
			w.putCall(k, "bulk", fmt.Sprintf("bulk %d", i*i%n), "bulks")
			w.put(" " + c.Right)
			c.Files = append(c.Files, TplFile{Path: w.file, Src: S(w.b.String())})
		}
	case 1: // many uses
		w := &tpl{rt: rt, c: c, file: dir + "bulk.tmpl", left: c.Left, right: c.Right}
		for i := 0; i < n; i++ {
			w.open = w.line()
			w.put(c.Left + " ")
			w.putCall(k, "bulk", "bulk", "bulks")
			w.put(" " + c.Right + "\n")
		}
		c.Files = append(c.Files, TplFile{Path: w.file, Src: S(w.b.String())})
	case 2: // many messages
		w := &tpl{rt: rt, c: c, file: dir + "bulk.tmpl", left: c.Left, right: c.Right}
		for i := 0; i < n; i++ {
			w.open = w.line()
			w.put(c.Left + " ")
			w.putCall(k, fmt.Sprintf("bulk %d", i%7), fmt.Sprintf("bulk %d", i), "bulks")
			w.put(" " + c.Right)
		}
		c.Files = append(c.Files, TplFile{Path: w.file, Src: S(w.b.String())})
	case 3: // much text
		w := &tpl{rt: rt, c: c, file: dir + "bulk.tmpl", left: c.Left, right: c.Right}
		lines := n * 50
		if chance(rt, "bulk.lines", 20) {
			lines = 66000 + n
		}
		w.put(strings.Repeat("a long line of text ", n*30) + "\n" + strings.Repeat("line\n", lines))
		w.open = w.line()
		w.put(c.Left + " ")
		w.putCall(k, "bulk", "far below", "bulks")
		w.put(" " + c.Right)
		c.Files = append(c.Files, TplFile{Path: w.file, Src: S(w.b.String())})
	case 4: // long texts
		w := &tpl{rt: rt, c: c, file: dir + "bulk.tmpl", left: c.Left, right: c.Right}
		long := strings.Repeat("long text ", n*pick(rt, "bulk.len", 1, 10, 30))
		for _, p := range [][3]string{{"bulk", long + "id", "bulks"}, {long + "context", "bulk", "bulks"}, {"bulk", "bulk", long + "ids"}} {
			w.open = w.line()
			w.put(c.Left + " ")
			w.putCall(k, p[0], p[1], p[2])
			w.put(" " + c.Right + "\n")
		}
		c.Files = append(c.Files, TplFile{Path: w.file, Src: S(w.b.String())})
	}
}

// drawTpl draws a set of template files with the messages they hold.
func drawTpl(rt *rapid.T) tplCase {
	var c tplCase
	most := 4
	if chance(rt, "manykws", 8) {
		most = 24
	}
	for i := intn(rt, "kws", 1, most); i > 0; i-- {
		c.Kws = append(c.Kws, drawKw(rt))
	}
	d := rapid.SampledFrom(delims).Draw(rt, "delims")
	c.Left, c.Right = d[0], d[1]
	c.Funcs = pick(rt, "funcs", "", "", "Foo", "Foo,Bar", " Foo , ,é")
	if chance(rt, "funcs.many", 10) {
		c.Funcs = strings.Repeat("F", intn(rt, "funcs.len", 1, 80))
		for i := intn(rt, "funcs.n", 1, 40); i > 0; i-- {
			c.Funcs += fmt.Sprintf(",Fn%d", i)
		}
	}
	sub := chance(rt, "subdirs", 25)
	c.Pattern = "*.tmpl"
	if sub {
		c.Pattern = "*/*.tmpl"
	}
	n := intn(rt, "files", 1, 3)
	for i := 0; i < n; i++ {
		name := pick(rt, "file", "a", "b10", "b9", "Z", "x.html", "中", "c-d") + fmt.Sprint(i) + ".tmpl"
		if sub {
			name = pick(rt, "dir", "d1", "d2", "D") + "/" + name
		}
		w := &tpl{rt: rt, c: &c, file: name, left: c.Left, right: c.Right}
		if chance(rt, "decl", 50) {
			w.put(c.Left + " $v := 1 " + c.Right)
			w.decl = true
		}
		w.body()
		for i := intn(rt, "top", 0, 4); i > 0; i-- {
			w.node()
			w.plainText()
		}
		c.Files = append(c.Files, TplFile{Path: name, Src: S(w.b.String())})
	}
	if chance(rt, "bulk", 5) {
		c.bulk(rt, sub)
	}
	if chance(rt, "unmatched", 30) {
		c.Files = append(c.Files, TplFile{Path: "other.txt", Src: S(c.Left + " " + c.Kws[0].Name + ` "decoy5" "d" "e" ` + c.Right)})
	}
	c.CLI = chance(rt, "cli", 12)
	return c
}

// parseable reports whether the files are templates.
func (c *tplCase) parseable() error {
	for _, f := range c.Files {
		tr := parse.New("x")
		tr.Mode = parse.SkipFuncCheck
		if _, err := tr.Parse(string(f.Src), c.Left, c.Right, map[string]*parse.Tree{}); err != nil {
			return fmt.Errorf("%s: %v", f.Path, err)
		}
	}
	return nil
}

func (c *tplCase) write(dir string) error {
	if err := os.RemoveAll(dir); err != nil {
		return err
	}
	for _, f := range c.Files {
		p := filepath.Join(dir, f.Path)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(f.Src), 0644); err != nil {
			return err
		}
	}
	return nil
}

// quietStderr runs fn with os.Stderr going to a file and returns what was written.
func quietStderr(dir string, fn func() error) (string, error) {
	f, err := os.Create(filepath.Join(dir, "captured"))
	if err != nil {
		return "", err
	}
	old := os.Stderr
	os.Stderr = f
	func() {
		defer func() { os.Stderr = old }()
		err = fn()
	}()
	f.Close()
	b, _ := os.ReadFile(f.Name())
	return string(b), err
}

type cliResult struct {
	code           int
	stdout, stderr string
}

func xtemplatePath() string { return filepath.Join(os.Getenv("VERIF_SCRATCH"), "xtemplate") }

// runCLI runs the built command.
func runCLI(dir string, env []string, stdout *os.File, args ...string) (cliResult, error) {
	return runCmd(exec.Command(xtemplatePath(), args...), dir, env, stdout)
}

func runCmd(cmd *exec.Cmd, dir string, env []string, stdout *os.File) (cliResult, error) {
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	r := cliResult{0, so.String(), se.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			fatal2("cannot run xtemplate: %v", err)
		}
		r.code = ee.ExitCode()
		if r.code < 0 {
			r.code = 128
		}
	}
	return r, nil
}

// extractPOT runs the extraction and returns the POT and the reports.
func (c *tplCase) extractPOT(dir, out string) (pot, reports string, err error) {
	pattern := filepath.Join(dir, c.Pattern)
	if c.CLI {
		args := []string{"-i", pattern, "-k", kwSpec(c.Kws), "-left", c.Left, "-right", c.Right, "-f", c.Funcs}
		if out != "" {
			args = append(args, "-o", out)
		}
		r, err := runCLI(dir, nil, nil, args...)
		if err != nil {
			return "", "", err
		}
		if r.code != 0 {
			return "", "", fmt.Errorf("xtemplate exits with %d: %s", r.code, r.stderr)
		}
		if out == "" {
			return r.stdout, r.stderr, nil
		}
		reports = r.stderr
	} else {
		o := out
		if o == "" {
			o = filepath.Join(dir, "out.pot")
		}
		out = o
		reports, err = quietStderr(dir, func() error {
			return verifbridge.Run(pattern, c.Left, c.Right, kwSpec(c.Kws), c.Funcs, o)
		})
		if err != nil {
			return "", "", fmt.Errorf("Run: %v", err)
		}
	}
	b, err := os.ReadFile(out)
	return string(b), reports, err
}

// tref is a source reference.
type tref struct {
	file string
	line int
}

// refs reads the "#:" comments of an entry.
func entryRefs(m *Msg) (out []tref, err error) {
	for _, c := range m.Cmts {
		r, ok := strings.CutPrefix(string(c), "#:")
		if !ok {
			continue
		}
		for _, f := range strings.Fields(r) {
			i := strings.LastIndex(f, ":")
			if i < 0 {
				return nil, fmt.Errorf("bad reference %q", f)
			}
			n, err := strconv.Atoi(f[i+1:])
			if err != nil {
				return nil, fmt.Errorf("bad reference %q", f)
			}
			out = append(out, tref{f[:i], n})
		}
	}
	return out, nil
}

func hasFlag(m *Msg, flag string) bool {
	for _, c := range m.Cmts {
		if r, ok := strings.CutPrefix(string(c), "#,"); ok {
			for _, f := range strings.Split(r, ",") {
				if strings.TrimSpace(f) == flag {
					return true
				}
			}
		}
	}
	return false
}

type useGroup struct {
	sing, plur []Use
}

func (c *tplCase) groups() map[[2]S]*useGroup {
	g := map[[2]S]*useGroup{}
	for _, u := range c.Uses {
		k := [2]S{u.Ctxt, u.ID}
		if g[k] == nil {
			g[k] = &useGroup{}
		}
		if u.Plural {
			g[k].plur = append(g[k].plur, u)
		} else {
			g[k].sing = append(g[k].sing, u)
		}
	}
	return g
}

// checkPOT compares a POT with the uses the templates hold.
func (c *tplCase) checkPOT(pot, dir, reports string, o *Obs) error {
	entries, err := strictPO([]byte(pot))
	if err != nil {
		return fmt.Errorf("the POT is not well formed: %v\n%s", err, clip(pot, 1500))
	}
	groups := c.groups()
	seen := map[[2]S]bool{}
	header := false
	anyPlural := false
	for i := range entries {
		m := &entries[i].Msg
		if m.Ctxt == "" && m.ID == "" {
			if header {
				return fmt.Errorf("two header entries")
			}
			header = true
			continue
		}
		k := [2]S{m.Ctxt, m.ID}
		g := groups[k]
		if g == nil {
			return fmt.Errorf("the POT holds context %q id %q, which no template marks", m.Ctxt, m.ID)
		}
		if seen[k] {
			return fmt.Errorf("context %q id %q occurs twice in the POT", m.Ctxt, m.ID)
		}
		seen[k] = true
		uses := g.sing
		if m.Plural {
			uses = g.plur
			anyPlural = true
		}
		if len(uses) == 0 {
			return fmt.Errorf("context %q id %q: plural %v in the POT, but no use of that kind", m.Ctxt, m.ID, m.Plural)
		}
		if len(g.sing) > 0 && len(g.plur) > 0 {
			o.Label("conflict")
			if !strings.Contains(reports, string(m.ID)) && !strings.Contains(reports, uses[0].File) {
				return fmt.Errorf("id %q is used with and without plural, which is not reported (%s)", m.ID, clip(reports, 300))
			}
		}
		for _, s := range append([]S{m.Str}, m.StrN...) {
			if s != "" {
				return fmt.Errorf("id %q carries the translation %q", m.ID, s)
			}
		}
		if m.Plural {
			if len(m.StrN) != 2 {
				return fmt.Errorf("id %q: %d plural forms", m.ID, len(m.StrN))
			}
			ok := false
			for _, u := range uses {
				ok = ok || u.ID2 == m.ID2
			}
			if !ok {
				return fmt.Errorf("id %q has the plural %q, which no template gives it", m.ID, m.ID2)
			}
		}
		rs, err := entryRefs(m)
		if err != nil {
			return err
		}
		match := func(r tref, u Use) bool {
			return r.file == filepath.Join(dir, u.File) && r.line >= u.Lo && r.line <= u.Hi
		}
		for _, u := range uses {
			ok := false
			for _, r := range rs {
				ok = ok || match(r, u)
			}
			if !ok {
				return fmt.Errorf("context %q id %q: no reference to its use at %s:%d (has %v)", m.Ctxt, m.ID, u.File, u.Hi, rs)
			}
		}
		for _, r := range rs {
			ok := false
			for _, u := range append(append([]Use{}, g.sing...), g.plur...) {
				ok = ok || match(r, u)
			}
			if !ok {
				return fmt.Errorf("context %q id %q: reference to %s:%d, where it is not used", m.Ctxt, m.ID, r.file, r.line)
			}
		}
		pct := false
		for _, u := range append(append([]Use{}, g.sing...), g.plur...) {
			pct = pct || strings.Contains(string(u.ID)+string(u.ID2), "%")
		}
		own := string(m.ID + "\n" + m.ID2)
		if verb := strings.Contains(own, "%d") || strings.Contains(own, "%s") || strings.Contains(own, "%v"); verb && !hasFlag(m, "go-format") {
			return fmt.Errorf("id %q has no go-format flag", m.ID)
		}
		if !pct && hasFlag(m, "go-format") {
			return fmt.Errorf("id %q has a go-format flag", m.ID)
		}
		if hasFlag(m, "fuzzy") {
			return fmt.Errorf("id %q is fuzzy", m.ID)
		}
		o.LabelIf(c.CLI, "by command")
		o.LabelIf(len(uses) > 1, "merged")
		o.LabelIf(m.Plural, "plural")
		o.LabelIf(m.Ctxt != "", "context")
	}
	if !header {
		return fmt.Errorf("the POT has no header entry")
	}
	for k, g := range groups {
		if !seen[k] {
			u := append(append([]Use{}, g.sing...), g.plur...)[0]
			return fmt.Errorf("context %q id %q, used at %s:%d, is missing from the POT", k[0], k[1], u.File, u.Hi)
		}
	}
	h := headerFields(string(entries[0].Str))
	if entries[0].ID != "" || entries[0].Ctxt != "" {
		return fmt.Errorf("the header entry is not the first")
	}
	if anyPlural && h["Plural-Forms"] == "" {
		return fmt.Errorf("plural messages, but no Plural-Forms in the header")
	}
	return nil
}

func checkC26(c tplCase, o *Obs) error {
	if err := c.parseable(); err != nil {
		o.Label("skipped: the generated template does not parse")
		return nil
	}
	dir := filepath.Join(o.dir, "tpl")
	if err := c.write(dir); err != nil {
		return err
	}
	pot, reports, err := c.extractPOT(dir, "")
	if err != nil {
		return err
	}
	if len(c.Uses) > 0 {
		o.NT()
	}
	o.LabelIf(c.CLI, "command")
	for _, f := range c.Files {
		for _, k := range []string{"if ", "range", "with", "template", "block", "define", "call ", "/*", "else if", "else with", "|", "break", "("} {
			o.LabelIf(strings.Contains(string(f.Src), k), "has "+k)
		}
	}
	return c.checkPOT(pot, dir, reports, o)
}

// ---------------------------------------------------------------- C28

func stripDate(pot string) string {
	ls := strings.SplitAfter(pot, "\n")
	n := 0
	var out []string
	for _, l := range ls {
		if strings.HasPrefix(l, `"POT-Creation-Date:`) {
			n++
			continue
		}
		out = append(out, l)
	}
	return fmt.Sprint(n, "\n") + strings.Join(out, "")
}

// potDate reads a creation date, with or without seconds.
func potDate(s string) (time.Time, bool) {
	for _, l := range []string{"2006-01-02 15:04:05-0700", "2006-01-02 15:04-0700", "2006-01-02 15:04:05 -0700", "2006-01-02 15:04 -0700"} {
		if at, err := time.Parse(l, s); err == nil {
			return at, true
		}
	}
	return time.Time{}, false
}

type potCase struct {
	T    tplCase
	Out  string
	Seps int
	Zone int `json:",omitempty"` // minutes east of UTC
	// Prior is what the output file holds before the first run: nothing, longer text, or a longer template.
	Prior int `json:",omitempty"`
}

// prior writes the earlier content of the output file.
func (c *potCase) prior(out string) error {
	n := 0
	for _, f := range c.T.Files {
		n += len(f.Src)
	}
	b := "msgid \"\"\nmsgstr \"\"\n\"Project-Id-Version: old\\n\"\n"
	switch c.Prior {
	case 1:
		b = strings.Repeat("old text\n", n/4+1000)
	case 2:
		for i := 0; i < n/8+300; i++ {
			b += fmt.Sprintf("\n#: old:%d\nmsgid \"old %d\"\nmsgstr \"\"\n", i+1, i)
		}
	case 3:
		b = ""
	default:
		return nil
	}
	return os.WriteFile(out, []byte(b), 0o644)
}

func checkC28(c potCase, o *Obs) error {
	t := c.T
	if err := t.parseable(); err != nil {
		o.Label("skipped: the generated template does not parse")
		return nil
	}
	dir := filepath.Join(o.dir, "tpl")
	if err := t.write(dir); err != nil {
		return err
	}
	out := filepath.Join(dir, c.Out)
	if c.Zone != 0 && !t.CLI {
		defer func(l *time.Location) { time.Local = l }(time.Local)
		time.Local = time.FixedZone("", c.Zone*60)
		o.Label("zone")
	}
	if err := c.prior(out); err != nil {
		return err
	}
	o.LabelIf(c.Prior != 0, "the output file exists")
	start := time.Now()
	pot, reports, err := t.extractPOT(dir, out)
	if err != nil {
		return err
	}
	end := time.Now()
	if len(t.Uses) > 1 {
		o.NT()
	}
	if err := t.checkPOT(pot, dir, reports, o); err != nil {
		return err
	}
	entries, _ := strictPO([]byte(pot))
	h := headerFields(string(entries[0].Str))
	for k, want := range map[string]string{"Input": filepath.Join(dir, t.Pattern), "Left": t.Left, "Right": t.Right, "Keywords": kwSpec(t.Kws), "Functions": t.Funcs, "Output": out} {
		if v, ok := h["X-Xtemplate-"+k]; !ok || v != strings.TrimSpace(want) {
			return fmt.Errorf("the header records %q as the parameter %s, want %q", v, k, want)
		}
	}
	for _, k := range []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding"} {
		if !strings.Contains("\n"+string(entries[0].Str), "\n"+k+":") {
			return fmt.Errorf("the header lacks %s", k)
		}
	}
	if at, ok := potDate(h["POT-Creation-Date"]); !ok || at.Before(start.Add(-61*time.Second)) || at.After(end.Add(time.Second)) {
		return fmt.Errorf("the header gives %q as the creation date of a template written at %v", h["POT-Creation-Date"], start)
	}
	// the library reads its own template
	f, err := readPotOwn([]byte(pot))
	if err != nil {
		return fmt.Errorf("ReadPot rejects the POT: %v", err)
	}
	es := f.SortedEntry()
	if len(es) != len(entries) {
		return fmt.Errorf("ReadPot finds %d entries, the file has %d", len(es), len(entries))
	}
	for i, e := range es {
		m := &entries[i].Msg
		if e.MsgCtxt != string(m.Ctxt) || e.MsgID != string(m.ID) || e.MsgID2 != string(m.ID2) {
			return fmt.Errorf("entry %d of the POT is %q %q %q, read back as %q %q %q", i, m.Ctxt, m.ID, m.ID2, e.MsgCtxt, e.MsgID, e.MsgID2)
		}
	}
	// again, over the file written before
	pot2, _, err := t.extractPOT(dir, out)
	if err != nil {
		return fmt.Errorf("second run: %v", err)
	}
	if a, b := stripDate(pot), stripDate(pot2); a != b {
		return fmt.Errorf("two runs differ apart from the creation date:\n%s", diffLine(a, b))
	}
	// and over files whose times and creation order are different
	rev := t
	rev.Files = nil
	for i := len(t.Files) - 1; i >= 0; i-- {
		rev.Files = append(rev.Files, t.Files[i])
	}
	if err := rev.write(dir); err != nil {
		return err
	}
	t.CLI = false
	pot3, _, err := t.extractPOT(dir, out)
	if err != nil {
		return fmt.Errorf("third run: %v", err)
	}
	if a, b := stripDate(pot), stripDate(pot3); a != b {
		return fmt.Errorf("runs over the same files differ apart from the creation date:\n%s", diffLine(a, b))
	}
	return nil
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %d: %s / nothing", i, x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("line %d: %s / %s", i, x[i], y[i])
		}
	}
	return "the second is longer"
}

// ---------------------------------------------------------------- C27

type specCase struct {
	Kws  []KwDef
	Bad  string // when not empty: a specification to be rejected
	Kind string
}

// drawBadSpec draws a specification outside the documented form.
func drawBadSpec(rt *rapid.T) (string, string) {
	n := pick(rt, "bad.name", "T", "N", "gettext", "翻译")
	a, b := intn(rt, "bad.a", 1, 9), intn(rt, "bad.b", 1, 9)
	num := func() string {
		return pick(rt, "bad.num", "", "x", "1x", "0x1", "1.0", "1e1", "一", "c", "cc", "1cc", "1C", "--1", "99999999999999999999", "1_0", "１", "1;2x:3:4", "0", "-1", "-9223372036854775808", "00")
	}
	var s, kind string
	switch intn(rt, "bad", 0, 11) {
	case 0:
		kind, s = "position", fmt.Sprintf("%s:%s", n, num())
	case 1:
		kind, s = "plural position", fmt.Sprintf("%s:%d,%s", n, a, num())
	case 2:
		kind, s = "id position", fmt.Sprintf("%s:%s,%d", n, pick(rt, "bad.num2", "", "x", "c", "0", "-1", "0c", "-1c", "xc", "1cc", "cc", "1 cc", "1.5c", "1C"), b)
	case 3:
		kind, s = "id after context", fmt.Sprintf("%s:%dc,%s", n, a, num())
	case 4:
		x := []string{strconv.Itoa(a) + "c", strconv.Itoa(b), strconv.Itoa(a + b)}
		i := intn(rt, "bad.which", 0, 2)
		if i == 0 {
			x[0] = pick(rt, "bad.c", "1", "", "c", "0c", "-2c", "xc", "1cc", "2d")
		} else {
			x[i] = num()
		}
		kind, s = "three positions", n+":"+strings.Join(x, ",")
	case 5:
		kind, s = "too many positions", fmt.Sprintf("%s:%dc,%d,%d,%d", n, a, b, a, b)
	case 6:
		kind, s = "two colons", fmt.Sprintf("%s:%d:%d", n, a, b)
	case 7:
		kind, s = "no name", pick(rt, "bad.noname", ":1", " : 1", ":1,2", ":1c,2", ":", " ")
	case 8:
		kind, s = "empty element", pick(rt, "bad.empty", "", ";", "T;", ";T", "T;;N:1,2", "T; ;N", "T:1;")
	case 9:
		kind, s = "context without id", fmt.Sprintf("%s:%dc", n, a)
	case 10:
		kind, s = "context in the wrong place", fmt.Sprintf("%s:%d,%dc", n, a, b)
		if chance(rt, "bad.three", 50) {
			s = fmt.Sprintf("%s:%d,%dc,%d", n, a, b, a)
		}
	default:
		kind, s = "two contexts", fmt.Sprintf("%s:%dc,%dc", n, a, b)
		if chance(rt, "bad.three", 50) {
			s = fmt.Sprintf("%s:%dc,%d,%dc", n, a, b, a)
		}
	}
	if kind != "empty element" {
		if chance(rt, "bad.before", 30) {
			s = "X:1c,2;" + s
		}
		if chance(rt, "bad.after", 30) {
			s += ";N:1,2"
		}
	}
	return s, kind
}

func checkC27(c specCase, o *Obs) error {
	if c.Bad != "" || c.Kind != "" {
		o.Label("rejected: " + c.Kind)
		o.NT()
		ks, err := verifbridge.ParseKeywords(c.Bad)
		if err == nil {
			return fmt.Errorf("ParseKeywords(%q) accepts a specification with a bad part (%s): %+v", c.Bad, c.Kind, ks)
		}
		return nil
	}
	spec := kwSpec(c.Kws)
	ks, err := verifbridge.ParseKeywords(spec)
	if err != nil {
		return fmt.Errorf("ParseKeywords(%q): %v", spec, err)
	}
	if len(c.Kws) > 1 {
		o.NT()
	}
	if len(ks) != len(c.Kws) {
		return fmt.Errorf("ParseKeywords(%q) gives %d keywords, want %d", spec, len(ks), len(c.Kws))
	}
	for i, k := range c.Kws {
		o.Label(fmt.Sprintf("context=%v plural=%v", k.Ctxt > 0, k.ID2 > 0))
		if g := ks[i]; g.Name != k.Name || g.Ctxt != k.Ctxt || g.ID != k.ID || g.IDPlural != k.ID2 {
			return fmt.Errorf("ParseKeywords(%q): keyword %d is %+v, want %s context %d id %d plural %d", spec, i, g, k.Name, k.Ctxt, k.ID, k.ID2)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C29

type failCase struct {
	T      tplCase
	Faults []string // input and parameter faults
	Output string   // kind of output
	CLI    bool
	Debug  bool
	Lang   string
	At     int
}

func (c *failCase) bad() bool { return len(c.Faults) > 0 || badOutput(c.Output) }

func badOutput(k string) bool {
	switch k {
	case "file", "dash", "none", "existing", "longer", "dashname", "relative":
		return false
	}
	return true
}

func checkC29(c failCase, o *Obs) error {
	t := c.T
	if err := t.parseable(); err != nil {
		o.Label("skipped: the generated template does not parse")
		return nil
	}
	dir := filepath.Join(o.dir, "tpl")
	if err := t.write(dir); err != nil {
		return err
	}
	spec, pattern := kwSpec(t.Kws), filepath.Join(dir, t.Pattern)
	badName := func(i int) string { // sorts before, between or after the good ones
		n := []string{"00bad.tmpl", "b5bad.tmpl", "zzbad.tmpl"}[(c.At+i)%3]
		if strings.Contains(t.Pattern, "/") {
			os.MkdirAll(filepath.Join(dir, "d1"), 0755)
			return filepath.Join(dir, "d1", n)
		}
		return filepath.Join(dir, n)
	}
	extra := []string{}
	for i, ft := range c.Faults {
		o.Label("fault " + ft)
		var err error
		switch ft {
		case "unparsable":
			src := []string{t.Left + " if .x " + t.Right, t.Left + " end " + t.Right, t.Left + " T \"open ", t.Left + " | " + t.Right, t.Left + " .x (1 " + t.Right, t.Left + " /* open"}
			err = os.WriteFile(badName(i), []byte(src[c.At%len(src)]), 0644)
		case "directory":
			err = os.MkdirAll(badName(i), 0755)
		case "dangling":
			err = os.Symlink("/nonexistent/verif", badName(i))
		case "loop":
			n := badName(i)
			err = os.Symlink(filepath.Base(n), n)
		case "spec":
			spec = []string{"T:", ";", "T:1,2,3", "T:x", "T;", "N:1c", ":1", "T:0"}[c.At%8]
		case "pattern":
			pattern = []string{dir + "/[", dir + "/[a", dir + "/[]a]*", dir + "/*\\"}[c.At%4]
		case "name":
			spec = []string{"T-x", "a.b:1", "1T", "T T:1,2"}[c.At%4]
		case "no-i":
			pattern = " "
		case "no-k":
			spec = []string{"", " "}[c.At%2]
		case "flag":
			extra = []string{"-no-such-flag"}
		}
		if err != nil && !os.IsExist(err) {
			return err
		}
	}
	// glob accepts some of these depending on what it finds
	if contains(c.Faults, "pattern") {
		if _, err := filepath.Glob(pattern); err == nil {
			return nil
		}
	}
	out := filepath.Join(dir, "out.pot")
	var stdout *os.File
	switch c.Output {
	case "file":
	case "existing":
		if err := os.WriteFile(out, []byte("old"), 0644); err != nil {
			return err
		}
	case "longer":
		if err := os.WriteFile(out, bytes.Repeat([]byte("# old\n"), 5000), 0644); err != nil {
			return err
		}
	case "dash":
		out = "-"
	case "none":
		out = ""
	case "dashname", "relative":
		c.CLI = true
		out = map[string]string{"dashname": []string{"-out.pot", "--", "-o"}[c.At%3], "relative": []string{"out.pot", "./o", "o u t"}[c.At%3]}[c.Output]
	case "nodir":
		out = filepath.Join(dir, "missing", "out.pot")
	case "isdir":
		out = dir
	case "full":
		out = "/dev/full"
	case "notdir":
		out = filepath.Join(dir, "file", "out.pot")
		if err := os.WriteFile(filepath.Join(dir, "file"), nil, 0644); err != nil {
			return err
		}
	case "stdout-full":
		out = []string{"", "-"}[c.At%2]
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return nil
		}
		defer f.Close()
		stdout = f
	case "stdout-readonly":
		out = []string{"", "-"}[c.At%2]
		f, err := os.Open(os.DevNull)
		if err != nil {
			return nil
		}
		defer f.Close()
		stdout = f
	case "stdout-pipe":
		out = []string{"", "-"}[c.At%2]
		r, w, err := os.Pipe()
		if err != nil {
			return err
		}
		r.Close()
		defer w.Close()
		stdout = w
	}
	o.Label("output " + c.Output)
	o.NT()
	inProcess := !c.CLI && out != "" && out != "-" && !contains(c.Faults, "name") && !contains(c.Faults, "no-i") && !contains(c.Faults, "flag")
	if inProcess {
		_, err := quietStderr(o.dir, func() error {
			return verifbridge.Run(pattern, t.Left, t.Right, spec, t.Funcs, out)
		})
		if c.bad() {
			if err == nil {
				return fmt.Errorf("Run reports success with faults %v and output %s", c.Faults, c.Output)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("Run: %v", err)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return err
		}
		return t.complete(string(b), dir, o)
	}
	o.Label("command")
	args := []string{"-i", pattern, "-k", spec, "-left", t.Left, "-right", t.Right, "-f", t.Funcs}
	if contains(c.Faults, "no-i") && c.At%2 == 0 {
		args = args[2:]
	}
	if c.Debug {
		args = append(args, "-d")
	}
	if out != "" {
		args = append(args, "-o", out)
	}
	args = append(args, extra...)
	r, err := runCLI(dir, []string{"LANG=" + c.Lang}, stdout, args...)
	if err != nil {
		return err
	}
	if c.bad() {
		if r.code == 0 {
			return fmt.Errorf("xtemplate exits with 0 with faults %v and output %s; stderr: %s", c.Faults, c.Output, clip(r.stderr, 500))
		}
		if r.stderr == "" && c.Output != "stdout-pipe" { // ended by SIGPIPE
			return fmt.Errorf("xtemplate exits with %d without saying why", r.code)
		}
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("xtemplate exits with %d: %s", r.code, clip(r.stderr, 1000))
	}
	pot := r.stdout
	if out != "" && out != "-" {
		if !filepath.IsAbs(out) {
			out = filepath.Join(dir, out)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return fmt.Errorf("exit status 0, but no output file: %v", err)
		}
		pot = string(b)
	}
	return t.complete(pot, dir, o)
}

// complete: the output is the whole POT (reports are not this property's).
func (c *tplCase) complete(pot, dir string, o *Obs) error {
	entries, err := strictPO([]byte(pot))
	if err != nil {
		return fmt.Errorf("success, but the output is not a whole POT: %v\n%s", err, clip(pot, 1500))
	}
	have := map[[2]S]bool{}
	for i := range entries {
		have[[2]S{entries[i].Ctxt, entries[i].ID}] = true
	}
	if !have[[2]S{"", ""}] {
		return fmt.Errorf("success, but the output has no header")
	}
	for k := range c.groups() {
		if !have[k] {
			return fmt.Errorf("success, but context %q id %q is missing", k[0], k[1])
		}
	}
	return nil
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

var _ fs.FS
var _ = sort.Strings

func init() {
	register(Prop{
		ID: "C26", Quick: 36000, Thorough: 2880000,
		Technique: "grammar-based template generation with the expected messages computed during generation",
		Level:     "exploration",
		Note:      "Templates are generated from a grammar of the text/template language together with the messages they mark; the extracted POT is read by an independent strict PO reader and must hold exactly those messages, with references inside the lines of their calls.",
		Rule:      "1-3 files, 1-4 (at times 24) keywords with positions 1-4, 12 delimiter pairs; non-trivial = at least one message is marked",
		Assume:    []string{"the templates parse (text/template/parse decides)", "no carriage return, NUL or invalid UTF-8 in messages", "a keyword is called, not passed as a bare argument"},
	}, drawTpl, checkC26, nil)

	register(Prop{
		ID: "C27", Quick: 300000, Thorough: 24000000, Silent: true,
		Technique: "grammar-based generation of valid and invalid specifications",
		Level:     "exploration",
		Note:      "Specifications printed from known keyword lists must parse to exactly those lists; specifications with one part broken in a known way must be rejected.",
		Rule:      "1-6 keywords or one broken specification; non-trivial = more than one keyword, or broken",
		Assume:    []string{"names are identifiers", "signs (+1) and leading zeros in positions are not judged"},
	}, func(rt *rapid.T) specCase {
		var c specCase
		if chance(rt, "valid", 55) {
			n := size(rt, "kws", 1, 6, 300)
			if chance(rt, "kws.many", 2) {
				n = intn(rt, "kws.n", 150, 400)
			}
			for i := n; i > 0; i-- {
				k := drawKw(rt)
				if chance(rt, "bigpos", 30) {
					k.ID = intn(rt, "id", 1, 30)
					if k.Ctxt > 0 {
						k.Ctxt = intn(rt, "ctxt", 1, 1000)
					}
					if k.ID2 > 0 {
						k.ID2 = intn(rt, "id2", 1, 30)
					}
				}
				c.Kws = append(c.Kws, k)
			}
			return c
		}
		c.Bad, c.Kind = drawBadSpec(rt)
		return c
	}, checkC27, nil)

	register(Prop{
		ID: "C28", Quick: 20000, Thorough: 1600000,
		Technique: "property-based testing of whole runs: independent reader, run-to-run comparison",
		Level:     "exploration",
		Note:      "The POT of generated templates is read by an independent strict reader (one entry per message, all references, flags, header parameters), read back by the library, and compared byte for byte, creation date aside, with further runs over the same files.",
		Rule:      "1-3 files; non-trivial = at least two uses",
		Assume:    []string{"parameters contain no line breaks", "paths contain no blanks"},
	}, func(rt *rapid.T) potCase {
		return potCase{T: drawTpl(rt), Out: pick(rt, "out", "out.pot", "messages.pot", "o-中.pot"), Zone: pick(rt, "zone", 0, 60, 345, 480, 720, 840, -210, -300, -570, -720), Prior: pick(rt, "prior", 0, 1, 2, 0, 3)}
	}, checkC28, nil)

	register(Prop{
		ID: "C29", Quick: 15000, Thorough: 1200000,
		Technique: "fault injection into inputs, parameters and outputs of generated runs",
		Level:     "exploration",
		Note:      "Generated runs, in-process and through the built command, with unreadable or unparsable inputs at varied places, bad specifications, patterns and flags, and outputs that cannot be opened or written; success must come with the complete POT, every fault with an error or nonzero status.",
		Rule:      "0-2 faults and one of 15 outputs; every case is non-trivial",
		Assume:    []string{"/dev/full exists"},
	}, func(rt *rapid.T) failCase {
		c := failCase{T: drawTpl(rt), CLI: chance(rt, "useCLI", 40), Debug: chance(rt, "debug", 20), At: intn(rt, "at", 0, 23), Lang: pick(rt, "lang", "en_US.UTF-8", "zh_CN.UTF-8", "C", "de_DE")}
		if chance(rt, "faulty", 60) {
			for i := intn(rt, "nfaults", 1, 2); i > 0; i-- {
				c.Faults = append(c.Faults, pick(rt, "fault", "unparsable", "unparsable", "directory", "dangling", "loop", "spec", "pattern", "name", "no-i", "no-k", "flag"))
			}
		}
		c.Output = pick(rt, "output", "file", "file", "existing", "longer", "dash", "none", "dashname", "relative", "nodir", "isdir", "full", "notdir", "stdout-full", "stdout-readonly", "stdout-pipe")
		return c
	}, checkC29, nil)
}
