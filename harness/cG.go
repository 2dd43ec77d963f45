package main

// C31: the whole workflow (mark, extract, translate, load, look up).
// C32: a Translation is a map from languages to translators.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing/fstest"
	"text/template"
	"time"

	"github.com/youthlin/t"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C31

// e2eMsg is a message of the program.
type e2eMsg struct {
	Ctxt, ID, ID2 S
	Plural        bool
	Verbs         int // number of arguments the texts use (%v)
}

// e2eUse is one use of a message while rendering.
type e2eUse struct {
	Lit   S // literal text when Msg is -1
	Msg   int
	Fn    string
	N     int64
	Args  []S
	Inner int // index+1 of the use whose result is the first argument
	Outer string
}

type e2eLang struct {
	Lang   string
	Spell  string // how the locale is asked for
	Rule   Rule
	Skip   []int  // untranslated messages
	Form   string // po, mo, lib-po, lib-mo
	Prefix S
	PF     int `json:",omitempty"`
}

type e2eCase struct {
	T     tplCase
	Main  string
	Kind  string // how functions reach the templates
	Msgs  []e2eMsg
	Uses  []e2eUse // nested uses are not in Out
	Out   []int
	Langs []e2eLang
	Load  string
	Nums  []int64
}

type e2eGen struct {
	rt    *rapid.T
	c     *e2eCase
	b     strings.Builder
	out   []int
	live  bool // what is written is rendered
	root  bool // dot is the data
	left  string
	right string
	names int
	defs  []struct {
		name string
		out  []int
	}
	depth int
}

func (g *e2eGen) lit(s string) {
	g.b.WriteString(s)
	g.use(e2eUse{Lit: S(s), Msg: -1}, true)
}

func (g *e2eGen) use(u e2eUse, out bool) int {
	g.c.Uses = append(g.c.Uses, u)
	if out && g.live {
		g.out = append(g.out, len(g.c.Uses)-1)
	}
	return len(g.c.Uses) - 1
}

func (g *e2eGen) act(s string) {
	g.b.WriteString(g.left + pick(g.rt, "sp", "", " ", "  ") + s + pick(g.rt, "sp", "", " ", "\n") + g.right)
}

var e2eIDs = []string{"Open", "One apple", "100%", "a", "menu", "Close %d%%", "x\ny", "q\"q", "back\\slash", "中文", "tab\t|", "{}", "Hello", " blank ", "line one\nline two\n", "é", "%", "`"}

func (g *e2eGen) text(label string) string {
	if chance(g.rt, label+".any", 25) {
		return string(text(g.rt, label, TextOpt{NonEmpty: true, Short: true}))
	}
	return pick(g.rt, label, e2eIDs...)
}

// message draws a message or reuses one.
func (g *e2eGen) message(plural bool, one bool, ctxt bool) int {
	ms := g.c.Msgs
	if len(ms) > 0 && chance(g.rt, "reuse", 40) {
		i := intn(g.rt, "which", 0, len(ms)-1)
		m := ms[i]
		if m.Plural == plural && (m.Ctxt != "" == ctxt) && (!one || m.ID == m.ID2) {
			return i
		}
	}
	var m e2eMsg
	m.Plural = plural
	if ctxt {
		m.Ctxt = S(pick(g.rt, "ctxt", "c", "menu", "d", "a b", "中"))
	}
	m.ID = S(g.text("id"))
	if plural {
		m.ID2 = S(g.text("id2"))
	}
	if chance(g.rt, "verbs", 40) {
		m.Verbs = intn(g.rt, "nverbs", 1, 2)
		fix := func(s S) S { return S(strings.ReplaceAll(string(s), "%", "p") + []string{" %v", " %v, %v"}[m.Verbs-1]) }
		m.ID = fix(m.ID)
		if plural {
			m.ID2 = fix(m.ID2)
		}
	}
	if one {
		m.ID2 = m.ID
	}
	for again := true; again; {
		again = false
		for i := range ms {
			if ms[i].Ctxt == m.Ctxt && ms[i].ID == m.ID {
				m.ID = S(fmt.Sprintf("%d", len(ms))) + m.ID
				if one {
					m.ID2 = m.ID
				}
				again = true
			}
		}
	}
	g.c.Msgs = append(g.c.Msgs, m)
	return len(g.c.Msgs) - 1
}

func (g *e2eGen) str(s S) string {
	q := quoteLit(g.rt, string(s))
	if chance(g.rt, "paren", 8) {
		return "(" + q + ")"
	}
	return q
}

// call writes a call and returns its source and its use.
func (g *e2eGen) call(depth int) (src string, use int) {
	fn := pick(g.rt, "fn", "T", "T", "T", "X", "X", "N", "N", "XN", "N64", "XN64", "N1", "XN1")
	one := strings.HasSuffix(fn, "1")
	plural := strings.Contains(fn, "N")
	ctxt := strings.HasPrefix(fn, "X")
	u := e2eUse{Fn: fn, Msg: g.message(plural, one, ctxt)}
	m := g.c.Msgs[u.Msg]
	var args []string
	if ctxt {
		args = append(args, g.str(m.Ctxt))
	}
	args = append(args, g.str(m.ID))
	if plural {
		if !one {
			args = append(args, g.str(m.ID2))
		}
		i := intn(g.rt, "num", 0, len(g.c.Nums)-1)
		u.N = g.c.Nums[i]
		is64 := strings.HasSuffix(fn, "64")
		switch {
		case chance(g.rt, "numlit", 40):
			args = append(args, fmt.Sprint(u.N))
		case is64:
			args = append(args, fmt.Sprintf("$.b%d", i))
		default:
			args = append(args, fmt.Sprintf("$.n%d", i))
		}
	}
	for i := 0; i < m.Verbs; i++ {
		if i == 0 && depth < 2 && chance(g.rt, "nest", 25) {
			s, in := g.call(depth + 1)
			args = append(args, "("+s+")")
			u.Inner = in + 1
			u.Args = append(u.Args, "")
			continue
		}
		a := S(pick(g.rt, "arg", "Tom", "7", "", "100%", "%d", "é"))
		args = append(args, fmt.Sprintf("%q", string(a)))
		u.Args = append(u.Args, a)
	}
	f := fn
	if g.c.Kind == "method" {
		f = "$.t." + fn
		if g.root && chance(g.rt, "dot", 40) {
			f = ".t." + fn
		}
	}
	// the last literal may be piped in
	if last := len(args) - 1; m.Verbs == 0 && !plural && chance(g.rt, "pipe", 20) {
		src = args[last] + pick(g.rt, "bar", " | ", "|") + strings.Join(append([]string{f}, args[:last]...), " ")
	} else {
		src = strings.Join(append([]string{f}, args...), pick(g.rt, "argsp", " ", " ", "  ", "\n"))
	}
	return src, g.use(u, false)
}

func (g *e2eGen) node() {
	g.depth++
	defer func() { g.depth-- }()
	k := intn(g.rt, "node", 0, 13)
	if g.depth > 3 && k > 5 {
		k = 0
	}
	switch k {
	case 0, 1, 2, 3:
		s, u := g.call(0)
		switch {
		case chance(g.rt, "outer", 15):
			o := pick(g.rt, "o", "printf", "pipe")
			g.c.Uses[u].Outer = "<>"
			if o == "printf" {
				g.act(`printf "<%s>" (` + s + `)`)
			} else {
				g.act("(" + s + `) | printf "<%s>"`)
			}
		case chance(g.rt, "var", 10):
			g.act("$v := " + s)
			g.act("$v")
		default:
			g.act(s)
		}
		if g.live {
			g.out = append(g.out, u)
		}
	case 4:
		g.lit(pick(g.rt, "text", "text", ";", "T \"plain\"", "a", "<b>", "é"))
	case 5:
		g.b.WriteString(g.left + "/* T \"comment\" */" + g.right)
	case 6, 7: // if
		cond := pick(g.rt, "cond", "true", "false")
		live := g.live
		g.act("if " + map[string]string{"true": pick(g.rt, "ct", "true", "$.yes", "eq 1 1", `$.yes`), "false": pick(g.rt, "cf", "false", "$.no", "eq 1 2")}[cond])
		g.live = live && cond == "true"
		g.body()
		if chance(g.rt, "else", 60) {
			g.live = live && cond == "false"
			g.act("else")
			g.body()
		}
		g.live = live
		g.act("end")
	case 8, 9: // range
		n := intn(g.rt, "times", 0, 3)
		save, live, root := g.out, g.live, g.root
		g.out, g.root = nil, false
		g.act(fmt.Sprintf("range $.l%d", n))
		g.body()
		body := g.out
		g.out, g.root = nil, root
		if chance(g.rt, "else", 30) {
			g.live = live && n == 0
			g.act("else")
			g.body()
		}
		g.act("end")
		g.live = live
		for i := 0; i < n; i++ {
			save = append(save, body...)
		}
		g.out = append(save, g.out...)
	case 10: // with
		root, live := g.root, g.live
		ok := chance(g.rt, "withok", 60)
		g.act("with " + map[bool]string{true: pick(g.rt, "wt", "$.l2", `"x"`, "$.yes"), false: pick(g.rt, "wf", "$.l0", `""`, "$.no")}[ok])
		g.root, g.live = false, live && ok
		g.body()
		g.root = root
		if chance(g.rt, "else", 40) {
			g.live = live && !ok
			g.act("else")
			g.body()
		}
		g.live = live
		g.act("end")
	case 11: // define, used later
		g.names++
		name := fmt.Sprintf("def%d", g.names)
		if g.depth > 1 {
			return
		}
		save, live, root := g.out, g.live, g.root
		g.out, g.live, g.root = nil, true, true
		g.act(fmt.Sprintf("define %q", name))
		g.body()
		g.act("end")
		g.defs = append(g.defs, struct {
			name string
			out  []int
		}{name, g.out})
		g.out, g.live, g.root = save, live, root
	case 12: // template call
		if len(g.defs) == 0 {
			return
		}
		d := g.defs[intn(g.rt, "def", 0, len(g.defs)-1)]
		g.act(fmt.Sprintf("template %q $", d.name))
		if g.live {
			g.out = append(g.out, d.out...)
		}
	case 13: // block
		g.names++
		root := g.root
		g.act(fmt.Sprintf("block %q $", fmt.Sprintf("blk%d", g.names)))
		g.root = true
		g.body()
		g.root = root
		g.act("end")
	}
}

func (g *e2eGen) body() {
	for i := intn(g.rt, "nodes", 0, 3); i > 0; i-- {
		g.node()
	}
}

var e2eKws = []KwDef{{Name: "T", ID: 1}, {Name: "X", Ctxt: 1, ID: 2, Style: 1}, {Name: "N", ID: 1, ID2: 2, Style: 1}, {Name: "XN", Ctxt: 1, ID: 2, ID2: 3, Style: 1}, {Name: "N64", ID: 1, ID2: 2, Style: 1}, {Name: "XN64", Ctxt: 1, ID: 2, ID2: 3, Style: 1}, {Name: "N1", ID: 1, ID2: 1, Style: 1}, {Name: "XN1", Ctxt: 1, ID: 2, ID2: 2, Style: 1}}

func drawE2E(rt *rapid.T) e2eCase {
	c := e2eCase{Kind: pick(rt, "kind", "method", "func", "package"), Load: pick(rt, "load", "path", "fs", "domain", "view")}
	for i := 0; i < 4; i++ {
		n := count(rt)
		if n == math.MinInt64 {
			n++ // has no literal form
		}
		c.Nums = append(c.Nums, n)
	}
	d := pick(rt, "delims", [2]string{"{{", "}}"}, [2]string{"{{", "}}"}, [2]string{"<%", "%>"}, [2]string{"[[", "]]"})
	g := &e2eGen{rt: rt, c: &c, left: d[0], right: d[1], live: true, root: true}
	c.T = tplCase{Left: d[0], Right: d[1], Kws: e2eKws, Pattern: "*.tmpl", CLI: chance(rt, "cli", 4)}
	for i := intn(rt, "top", 1, 8); i > 0; i-- {
		g.node()
	}
	c.T.Files = append(c.T.Files, TplFile{Path: "main.tmpl", Src: S(g.b.String())})
	c.Out = g.out
	if chance(rt, "second file", 30) { // messages of a file that is extracted but not rendered here
		g.b.Reset()
		g.live = false
		for i := intn(rt, "top2", 1, 3); i > 0; i-- {
			g.node()
		}
		c.T.Files = append(c.T.Files, TplFile{Path: "other.tmpl", Src: S(g.b.String())})
	}
	n := intn(rt, "langs", 1, 3)
	for i := 0; i < n; i++ {
		l := e2eLang{Lang: langs[(i*4+intn(rt, "lang", 0, 3))%len(langs)], Form: pick(rt, "form", "po", "mo", "lib-po", "lib-mo"), Prefix: S(pick(rt, "prefix", "«", "t:", "\n", "译 ", "\"", strings.Repeat("word ", 20)))}
		for l.Rule = *rule(rt); l.Rule.N < 1 || l.Rule.N > 20; {
			l.Rule = *rule(rt)
		}
		l.PF = pfStyle(rt)
		l.Spell = l.Lang
		if chance(rt, "spell", 40) {
			l.Spell = pick(rt, "sp", strings.ReplaceAll(l.Lang, "_", "-"), strings.ToLower(l.Lang), l.Lang+".UTF-8")
		}
		for j := range c.Msgs {
			if chance(rt, "skip", 8) {
				l.Skip = append(l.Skip, j)
			}
		}
		c.Langs = append(c.Langs, l)
	}
	return c
}

// translate is the translator's work on one message.
func (c *e2eCase) translate(l *e2eLang, i int) (str S, strN []S) {
	m := c.Msgs[i]
	skip := contains(intsS(l.Skip), fmt.Sprint(i))
	tr := func(s S, tag string) S { return l.Prefix + S(tag) + S(l.Lang) + " " + s }
	if !m.Plural {
		if !skip {
			str = tr(m.ID, "")
		}
		return
	}
	for k := 0; k < l.Rule.N; k++ {
		if skip {
			strN = append(strN, "")
		} else {
			strN = append(strN, tr(m.ID2, fmt.Sprintf("[%d]", k)))
		}
	}
	return
}

func intsS(xs []int) (out []string) {
	for _, x := range xs {
		out = append(out, fmt.Sprint(x))
	}
	return
}

// model of the language's catalog.
func (c *e2eCase) model(l *e2eLang) *model {
	cat := Catalog{Lang: l.Lang, Rule: &l.Rule}
	for i, m := range c.Msgs {
		x := Msg{Ctxt: m.Ctxt, ID: m.ID, Plural: m.Plural, ID2: m.ID2}
		x.Str, x.StrN = c.translate(l, i)
		cat.Msgs = append(cat.Msgs, x)
	}
	return newModel(&cat)
}

// expect is what rendering writes.
func (c *e2eCase) expect(m *model) string {
	var b strings.Builder
	for _, i := range c.Out {
		b.WriteString(c.result(m, i))
	}
	return b.String()
}

func (c *e2eCase) result(m *model, i int) string {
	u := c.Uses[i]
	if u.Msg < 0 {
		return string(u.Lit)
	}
	msg := c.Msgs[u.Msg]
	var s string
	if msg.Plural {
		id2 := string(msg.ID2)
		if strings.HasSuffix(u.Fn, "1") {
			id2 = ""
		}
		s = m.xn(string(msg.Ctxt), string(msg.ID), id2, u.N)
	} else {
		s, _ = m.x(string(msg.Ctxt), string(msg.ID))
	}
	if len(u.Args) > 0 {
		var args []any
		for k, a := range u.Args {
			if k == 0 && u.Inner > 0 {
				args = append(args, c.result(m, u.Inner-1))
			} else {
				args = append(args, string(a))
			}
		}
		s = fmt.Sprintf(s, args...)
	}
	if u.Outer != "" {
		s = u.Outer[:1] + s + u.Outer[1:]
	}
	return s
}

// headerFor fills the header of the template.
func headerFor(h string, l *e2eLang) string {
	var out []string
	for _, line := range strings.Split(h, "\n") {
		switch {
		case strings.HasPrefix(line, "Language:"):
			line = "Language: " + l.Lang
		case strings.HasPrefix(line, "Content-Type:"):
			line = "Content-Type: text/plain; charset=UTF-8"
		case strings.HasPrefix(line, "Plural-Forms:"):
			line = "Plural-Forms: " + l.Rule.header(l.PF)
		}
		out = append(out, line)
	}
	return strings.Join(out, "\n")
}

// fill translates the template into a catalog file.
func (c *e2eCase) fill(l *e2eLang, pot []byte) (ext string, data []byte, err error) {
	find := func(ctxt, id string) (int, error) {
		for i, m := range c.Msgs {
			if string(m.Ctxt) == ctxt && string(m.ID) == id {
				return i, nil
			}
		}
		return 0, fmt.Errorf("the template holds context %q id %q, which nothing marks", ctxt, id)
	}
	if strings.HasPrefix(l.Form, "lib") {
		f, err := readPotOwn(pot)
		if err != nil {
			return "", nil, fmt.Errorf("ReadPot: %v", err)
		}
		for _, e := range f.SortedEntry() {
			if e.MsgCtxt == "" && e.MsgID == "" {
				e.MsgStr = headerFor(e.MsgStr, l)
				f.AddEntry(e)
				continue
			}
			i, err := find(e.MsgCtxt, e.MsgID)
			if err != nil {
				return "", nil, err
			}
			str, strN := c.translate(l, i)
			e.MsgStr, e.MsgStrN = string(str), nil
			for _, s := range strN {
				e.MsgStrN = append(e.MsgStrN, string(s))
			}
			f.AddEntry(e)
		}
		if l.Form == "lib-po" {
			data, err = poBytes(f)
			return ".po", data, err
		}
		data, err = moBytes(f)
		return ".mo", data, err
	}
	es, err := strictPO(pot)
	if err != nil {
		return "", nil, fmt.Errorf("the template is not well formed: %v", err)
	}
	var ms []Msg
	for _, e := range es {
		m := e.Msg
		if m.Ctxt == "" && m.ID == "" {
			m.Str = S(headerFor(string(m.Str), l))
		} else {
			i, err := find(string(m.Ctxt), string(m.ID))
			if err != nil {
				return "", nil, err
			}
			m.Str, m.StrN = c.translate(l, i)
		}
		ms = append(ms, m)
	}
	if l.Form == "po" {
		return ".po", plainPo(ms), nil
	}
	return ".mo", plainMO(ms), nil
}

func checkC31(c e2eCase, o *Obs) error {
	dir := filepath.Join(o.dir, "e2e")
	if err := c.T.write(dir); err != nil {
		return err
	}
	pot, _, err := c.T.extractPOT(dir, "")
	if err != nil {
		return fmt.Errorf("extraction: %v", err)
	}
	loc := filepath.Join(o.dir, "locale")
	if err := os.RemoveAll(loc); err != nil {
		return err
	}
	files := fstest.MapFS{}
	for i := range c.Langs {
		l := &c.Langs[i]
		o.Label("translated as " + l.Form)
		ext, data, err := c.fill(l, []byte(pot))
		if err != nil {
			return fmt.Errorf("%s: %v", l.Lang, err)
		}
		name := fmt.Sprintf("d%d/f%d%s", i%2, i, ext)
		files[name] = &fstest.MapFile{Data: data, Mode: 0444}
		p := filepath.Join(loc, name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, data, 0644); err != nil {
			return err
		}
	}
	used := map[int]bool{}
	for _, i := range c.Out {
		if c.Uses[i].Msg >= 0 {
			used[c.Uses[i].Msg] = true
		}
	}
	if len(used) > 1 {
		o.NT()
	}
	ts := t.NewTranslations()
	t.SetGlobal(ts)
	switch c.Load {
	case "path":
		t.Load(loc)
	case "fs":
		ts.BindFS("default", files)
	case "domain":
		t.BindFS("app", files)
		t.SetDomain("app")
	case "view":
		ts.BindFS("app", files)
		ts = ts.D("app")
	}
	all := append([]e2eLang{}, c.Langs...)
	all = append(all, e2eLang{Lang: "sw_KE", Spell: "sw_KE", Rule: Rule{2, "n != 1"}})
	for i := range all {
		l := &all[i]
		m := newModel(&Catalog{Lang: l.Lang})
		if i < len(c.Langs) {
			m = c.model(l)
		}
		want := c.expect(m)
		got, err := c.renderTpl(dir, ts, l.Spell)
		if err != nil {
			return fmt.Errorf("rendering in %s: %v", l.Spell, err)
		}
		if got != want {
			return fmt.Errorf("rendered in %s (%s) the templates give\n%q\nwant\n%q", l.Spell, l.Form, clip(got, 1500), clip(want, 1500))
		}
	}
	return nil
}

func (c *e2eCase) renderTpl(dir string, ts *t.Translations, lang string) (string, error) {
	v := ts.L(lang)
	fm := template.FuncMap{"T": v.T, "X": v.X, "N": v.N, "XN": v.XN, "N64": v.N64, "XN64": v.XN64, "N1": v.N1, "XN1": v.XN1}
	if c.Kind == "package" {
		old := t.Global()
		t.SetGlobal(v)
		defer t.SetGlobal(old)
		fm = template.FuncMap{"T": t.T, "X": t.X, "N": t.N, "XN": t.XN, "N64": t.N64, "XN64": t.XN64, "N1": t.N1, "XN1": t.XN1}
	}
	data := map[string]any{"t": v, "yes": true, "no": false, "l0": []int{}, "l1": []int{1}, "l2": []int{1, 2}, "l3": []int{0, 1, 2}}
	for i, n := range c.Nums {
		data[fmt.Sprintf("n%d", i)] = int(n)
		data[fmt.Sprintf("b%d", i)] = n
	}
	tp, err := template.New("main").Delims(c.T.Left, c.T.Right).Funcs(fm).Parse(string(c.T.Files[0].Src))
	if err != nil {
		fatal2("the generated template does not parse: %v\n%s", err, c.T.Files[0].Src)
	}
	var b bytes.Buffer
	if err := tp.Execute(&b, data); err != nil {
		return "", err
	}
	return b.String(), nil
}

// ---------------------------------------------------------------- C32

// ownTor is a user's translator.
type ownTor struct {
	lang, name string
}

func (o *ownTor) Lang() string { return o.lang }
func (o *ownTor) X(ctxt, id string, args ...any) string {
	return fmt.Sprint(o.name, ";", ctxt, ";", id, ";", len(args))
}
func (o *ownTor) XN64(ctxt, id, id2 string, n int64, args ...any) string {
	return fmt.Sprint(o.name, ";", ctxt, ";", id, ";", id2, ";", n, ";", len(args))
}

type regOp struct {
	Op    string // add, po, mo, file, fs, new
	Lang  string // canonical, "" for none
	Spell string
	Bad   string // damage: "", data, stat, read, name, open
	Tree  []regFile
	Dot   string // name of the file
}

type regFile struct {
	Name, Lang, Bad string
}

type regCase struct {
	Ops []regOp
}

func regData(lang, spell, name, form, bad string) []byte {
	switch bad {
	case "empty":
		return nil
	case "junk":
		return []byte("junk")
	}
	ms := []Msg{{Str: S("MIME-Version: 1.0\n")}, {ID: "who", Str: S(name)}}
	if lang != "" {
		ms[0].Str = S("Language: " + spell + "\nPlural-Forms: nplurals=1; plural=0;\n")
	}
	if form == "mo" {
		b := plainMO(ms)
		if bad == "data" {
			b = b[:len(b)-3]
		}
		return b
	}
	b := plainPo(ms)
	if bad == "data" {
		b = append(b, "msgid \"open\nmsgstr \"x\"\n"...)
	}
	return b
}

// oddFile is a file whose Stat or Read fails.
type oddFile struct {
	name, bad string
	r         *bytes.Reader
	closed    int
}

var errOdd = errors.New("verif: injected")

func (f *oddFile) Stat() (fs.FileInfo, error) {
	if f.bad == "stat" {
		return nil, errOdd
	}
	return oddInfo{f.name, f.r.Size()}, nil
}

func (f *oddFile) Read(b []byte) (int, error) {
	if f.bad == "read" {
		if f.r.Len() <= int(f.r.Size())/2 {
			return 0, errOdd
		}
		if len(b) > int(f.r.Size()+1)/2 {
			b = b[:int(f.r.Size()+1)/2]
		}
	}
	n, err := f.r.Read(b)
	if n == 0 && err == nil {
		err = io.EOF
	}
	return n, err
}
func (f *oddFile) Close() error { f.closed++; return nil }

type oddInfo struct {
	name string
	size int64
}

func (i oddInfo) Name() string       { return i.name }
func (i oddInfo) Size() int64        { return i.size }
func (i oddInfo) Mode() fs.FileMode  { return 0444 }
func (i oddInfo) ModTime() time.Time { return time.Time{} }
func (i oddInfo) IsDir() bool        { return false }
func (i oddInfo) Sys() any           { return nil }

// oddFS fails to open some of its files.
type oddFS struct {
	fstest.MapFS
	bad map[string]string
}

func (f oddFS) Open(name string) (fs.File, error) {
	switch f.bad[name] {
	case "open":
		return nil, &fs.PathError{Op: "open", Path: name, Err: errOdd}
	case "stat", "read":
		return &oddFile{name: filepath.Base(name), bad: f.bad[name], r: bytes.NewReader(f.MapFS[name].Data)}, nil
	}
	return f.MapFS.Open(name)
}

func drawReg(rt *rapid.T) regCase {
	var c regCase
	many := chance(rt, "manylangs", 4)
	lang := func() (string, string) {
		if chance(rt, "nolang", 8) {
			return "", ""
		}
		if many {
			l := pick(rt, "lang.o", otherLocales...)
			return l, pick(rt, "spell.o", l, strings.ReplaceAll(l, "_", "-"), strings.ToLower(l), l+".UTF-8")
		}
		l := rapid.SampledFrom(langs[:6]).Draw(rt, "lang")
		return l, pick(rt, "spell", l, strings.ReplaceAll(l, "_", "-"), strings.ToLower(l), l+".UTF-8", l[:2])
	}
	n := size(rt, "ops", 1, 12, 100)
	if many {
		n = intn(rt, "ops.many", 10, 60)
	}
	for i := n; i > 0; i-- {
		op := regOp{Op: pick(rt, "op", "add", "add", "po", "mo", "file", "fs", "fs", "new")}
		op.Lang, op.Spell = lang()
		switch op.Op {
		case "po", "mo":
			op.Bad = pick(rt, "bad", "", "", "", "", "", "data", "empty", "junk")
		case "file":
			op.Bad = pick(rt, "bad", "", "", "", "data", "empty", "junk", "stat", "read")
			op.Dot = pick(rt, "name", "a.po", "a.mo", "中.po", ".po", "x.mo.po")
		case "fs":
			for k := intn(rt, "files", 0, 4); k > 0; k-- {
				var f regFile
				f.Lang, _ = lang()
				f.Name = fmt.Sprintf("%s%c%s", pick(rt, "dir", "", "d/", "e/f/"), 'a'+byte(k), pick(rt, "ext", ".po", ".mo", ".po", ".txt", ".pot"))
				f.Bad = pick(rt, "fbad", "", "", "", "", "data", "empty", "junk", "stat", "read", "open")
				op.Tree = append(op.Tree, f)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC32(c regCase, o *Obs) error {
	tr := t.NewTranslation("d")
	want := map[string]string{} // language -> name answered
	own := map[string]t.Translator{}
	answer := func(tor t.Translator) string {
		s := tor.X("", "who")
		if i := strings.Index(s, ";"); i >= 0 {
			s = s[:i]
		}
		return s
	}
	for i, op := range c.Ops {
		name := fmt.Sprintf("op%d", i)
		canon := op.Lang
		if canon != "" && len(op.Spell) == 2 { // the likely region
			canon = map[string]string{"zh": "zh_CN", "en": "en_US", "de": "de_DE", "fr": "fr_FR", "ja": "ja_JP", "pt": "pt_BR"}[op.Spell]
		}
		switch op.Op {
		case "new":
			var tors []t.Translator
			for l, n := range want {
				tors = append(tors, &ownTor{l, n})
			}
			tors = append(tors, &ownTor{op.Spell, name})
			tr = t.NewTranslation("d", tors...)
			for _, x := range tors[:len(tors)-1] {
				own[x.Lang()] = x
			}
			if canon != "" {
				want[canon] = name
				own[canon] = tors[len(tors)-1]
			}
		case "add":
			tor := &ownTor{op.Spell, name}
			prev := tr.AddOrReplace(tor)
			if canon == "" {
				if prev != nil {
					return fmt.Errorf("op %d: adding a translator without language replaced %q", i, answer(prev))
				}
				break
			}
			if w, ok := want[canon]; ok != (prev != nil) {
				return fmt.Errorf("op %d: AddOrReplace(%s) reports a previous translator: %v, want %v", i, op.Spell, prev != nil, ok)
			} else if ok && answer(prev) != w {
				return fmt.Errorf("op %d: AddOrReplace(%s) returns %q as the previous translator, want %q", i, op.Spell, answer(prev), w)
			}
			if x, ok := own[canon]; ok && x != prev {
				return fmt.Errorf("op %d: AddOrReplace(%s) does not return the translator that was added", i, op.Spell)
			}
			want[canon] = name
			own[canon] = tor
		case "po", "mo", "file":
			form := op.Op
			if form == "file" {
				form = op.Dot[len(op.Dot)-2:]
			}
			data := regData(op.Lang, op.Spell, name, form, op.Bad)
			var err error
			switch op.Op {
			case "po":
				err = loadOwn(tr.LoadPo, data)
			case "mo":
				err = loadOwn(tr.LoadMo, data)
			default:
				err = tr.LoadFile(&oddFile{name: op.Dot, bad: op.Bad, r: bytes.NewReader(data)})
				if (op.Bad == "stat" || op.Bad == "read") && !errors.Is(err, errOdd) {
					return fmt.Errorf("op %d: LoadFile returns %v, want the %s error", i, err, op.Bad)
				}
			}
			if (err != nil) != (op.Bad != "") {
				return fmt.Errorf("op %d: loading %s with fault %q returns %v", i, op.Op, op.Bad, err)
			}
			if err == nil && canon != "" {
				want[canon] = name
				delete(own, canon)
			}
			o.LabelIf(err != nil, "failed load")
		case "fs":
			m := oddFS{fstest.MapFS{}, map[string]string{}}
			for _, f := range op.Tree {
				form := "po"
				if strings.HasSuffix(f.Name, ".mo") {
					form = "mo"
				}
				m.MapFS[f.Name] = &fstest.MapFile{Data: regData(f.Lang, f.Lang, name+f.Name, form, f.Bad), Mode: 0444}
				m.bad[f.Name] = f.Bad
			}
			loaded, unsure := false, false
			for _, ext := range []string{".mo", ".po"} {
				for _, n := range sortedNames(m.MapFS) {
					for _, f := range op.Tree {
						if f.Name == n && strings.HasSuffix(n, ext) && f.Bad == "" {
							if f.Lang == "" {
								unsure = true // whether a catalog without language counts is not judged
								continue
							}
							loaded = true
							want[f.Lang] = name + n
							delete(own, f.Lang)
						}
					}
				}
			}
			if got := tr.LoadFS(m); got != loaded && !unsure {
				return fmt.Errorf("op %d: LoadFS returns %v, loadable catalogs present: %v", i, got, loaded)
			}
			o.LabelIf(!loaded, "nothing loadable")
		}
		if len(want) > 1 {
			o.NT()
		}
		ask := append([]string{"", "sw_KE", "xx"}, langs[:6]...)
		for l := range want {
			if !slices.Contains(ask, l) {
				ask = append(ask, l)
			}
		}
		sort.Strings(ask[9:])
		for _, l := range ask {
			tor, ok := tr.Get(l)
			w, has := want[l]
			if ok != has {
				return fmt.Errorf("after op %d (%s %s): Get(%q) finds a translator: %v, want %v", i, op.Op, op.Spell, l, ok, has)
			}
			or := tr.GetOrNoop(l)
			if or == nil {
				return fmt.Errorf("after op %d: GetOrNoop(%q) is nil", i, l)
			}
			if !has {
				if s := or.X("c", "who"); s != "who" || or.Lang() != "" {
					return fmt.Errorf("after op %d: GetOrNoop(%q) answers %q, language %q", i, l, s, or.Lang())
				}
				if s := or.XN64("c", "one", "many", 2); s != "many" {
					return fmt.Errorf("after op %d: GetOrNoop(%q) answers %q", i, l, s)
				}
				continue
			}
			if answer(tor) != w || answer(or) != w {
				return fmt.Errorf("after op %d (%s %s): %s answers %q and %q, want %q", i, op.Op, op.Spell, l, answer(tor), answer(or), w)
			}
			if x, mine := own[l]; mine && (tor != x || or != x) {
				return fmt.Errorf("after op %d: %s is not the translator that was added", i, l)
			}
		}
	}
	return nil
}

func sortedNames(m fstest.MapFS) (out []string) {
	fs.WalkDir(m, ".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			out = append(out, p)
		}
		return nil
	})
	return
}

func init() {
	register(Prop{
		ID: "C31", Quick: 30000, Thorough: 2400000,
		Technique: "end-to-end property-based testing against a reference interpreter of the generated program",
		Level:     "exploration",
		Note:      "Executable templates are generated together with what they render; they are extracted, the POT is translated for several languages (by the library or by independent code, as PO or MO), the catalogs are loaded and the templates rendered in every language: each message must appear translated, in the right form, with its arguments.",
		Rule:      "1-8 top nodes, 8 functions called as methods, functions or package functions, 1-3 languages with own plural rules; non-trivial = at least two messages rendered",
		Assume:    []string{"an id is not used both with and without plural", "texts without carriage return, NUL, EOT or invalid UTF-8"},
	}, drawE2E, checkC31, nil)

	register(Prop{
		ID: "C32", Quick: 300000, Thorough: 24000000, Silent: true,
		Technique: "stateful model-based testing with injected faults and user-defined translators",
		Level:     "exploration",
		Note:      "Histories of adding translators (the library's and the user's own) and loading files, bytes and trees with faults; after every step each language must answer from the translator a plain map holds, and every return value must tell what happened.",
		Rule:      "1-12 operations; non-trivial = at least two languages present",
		Assume:    []string{"Get is asked for canonical names", "whether LoadFS counts a catalog without language is not judged"},
	}, drawReg, checkC32, nil)
}
