package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Msg is one message of a generated catalog.
type Msg struct {
	Cmts   []S  `json:",omitempty"`
	Ctxt   S    `json:",omitempty"`
	ID     S    `json:",omitempty"`
	Plural bool `json:",omitempty"`
	ID2    S    `json:",omitempty"`
	Str    S    `json:",omitempty"`
	StrN   []S  `json:",omitempty"`
}

func (m *Msg) key() string { return string(m.Ctxt) + "\x04" + string(m.ID) }

// translated reports whether a loaded file keeps the message.
func (m *Msg) translated() bool {
	if !m.Plural {
		return m.Str != ""
	}
	return len(m.StrN) > 0
}

// Rule is a plural rule: its declared number of forms and its expression text.
type Rule struct {
	N    int
	Expr string
}

// pfStyles are layouts of a Plural-Forms value that mean the same.
var pfStyles = []string{"nplurals=%d; plural=%s;", "nplurals=%d; plural=%s", "nplurals=%d;plural=%s;", "nplurals=%d;plural=%s", " nplurals=%d;  plural=%s;  ", "nplurals= %d ;\tplural= %s ;", "nplurals=%d; plural=%s ;\t", "nplurals=%d; plural=%s "}

// header is the Plural-Forms value in the given layout.
func (r *Rule) header(style int) string {
	return fmt.Sprintf(pfStyles[style%len(pfStyles)], r.N, r.Expr)
}

func pfStyle(rt *rapid.T) int {
	if chance(rt, "pf", 40) {
		return intn(rt, "pf.style", 1, len(pfStyles)-1)
	}
	return 0
}

// Catalog is a generated catalog.
type Catalog struct {
	Lang  string // Language header, "" for none
	Rule  *Rule  // Plural-Forms header, nil for none
	Extra []S    // further header lines "Key: value"
	HCmts []S    `json:",omitempty"`
	NoHdr bool   `json:",omitempty"` // no header entry at all
	PF    int    `json:",omitempty"` // layout of the Plural-Forms value
	Msgs  []Msg
}

// headerText is the msgstr of the header entry.
func (c *Catalog) headerText() string {
	var b strings.Builder
	for i, l := range c.Extra {
		if i%2 == 0 {
			b.WriteString(string(l) + "\n")
		}
	}
	if c.Lang != "" {
		b.WriteString("Language: " + c.Lang + "\n")
	}
	if c.Rule != nil {
		b.WriteString("Plural-Forms: " + c.Rule.header(c.PF) + "\n")
	}
	for i, l := range c.Extra {
		if i%2 == 1 {
			b.WriteString(string(l) + "\n")
		}
	}
	if b.Len() == 0 {
		b.WriteString("MIME-Version: 1.0\n")
	}
	return b.String()
}

// withHeader returns the messages with the header entry first.
func (c *Catalog) withHeader() []Msg {
	var out []Msg
	if !c.NoHdr {
		out = append(out, Msg{Str: S(c.headerText()), Cmts: c.HCmts})
	}
	return append(out, c.Msgs...)
}

// ---------------------------------------------------------------- draws

func pick[T any](rt *rapid.T, label string, xs ...T) T {
	return rapid.SampledFrom(xs).Draw(rt, label)
}

func chance(rt *rapid.T, label string, pct int) bool {
	// small values are the "no" side so that shrinking removes features
	return rapid.IntRange(0, 99).Draw(rt, label) >= 100-pct
}

func intn(rt *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(rt, label)
}

// TextOpt restricts generated texts.
type TextOpt struct {
	NonEmpty bool
	NUL      bool // allow NUL
	EOT      bool // allow EOT (0x04)
	CR       bool // allow carriage returns
	Bad      bool // allow invalid UTF-8
	NoLF     bool
	NoPct    bool // no percent signs
	Big      bool // allow texts beyond 64 KiB
	Short    bool
}

var atoms = []string{
	"a", "b", "c", "A", "e", "n", "0", "1", "7", " ", " ", " ", "  ", "one", "file", "apple", "Open", "|", "#", "#,", "#~ ", "#: ", "msgid ", "msgstr ", "msgid_plural ", "msgctxt ", "msgstr[0] ", "[", "]",
	"\"", "\"\"", "\\", "\\n", "\\\"", "\\x41", "\\101", "\\u00e9", "\\t", "\\\\", "'", "\n", "\n", "\n\n", "\t", "\v", "\f", "\a", "\b", "\x01", "\x02", "\x1b", "\x1f", "\x7f", "é", "ß", "中", "文", "个苹果", "日本語", "ру", "ا", "😀", "e\u0301", "\u00a0", "\u0080", "\u0085", "\u009f", "\u00ad", "\u200b", "\u200d", "\u2028", "\u2029", "\u3000", "\ufeff", "\ufffd", "\ufffe", "\U0010ffff", "\U000e0001", "<b>", "&amp;", "{{.}}", "$", "`", ":", ";", "=", "~", ",", ".",
}

var pctAtoms = []string{"%", "%%", "%d", "%s", "%v", "100%", "%[1]d", "%!", "%5.2f", "% d"}

// text draws one text.
func text(rt *rapid.T, label string, o TextOpt) S {
	s := rawText(rt, label, o)
	if o.NoLF {
		s = strings.ReplaceAll(s, "\n", "_")
	}
	if o.NoPct {
		s = strings.ReplaceAll(s, "%", "p")
	}
	if s == "" && o.NonEmpty {
		s = "x"
	}
	return S(s)
}

func rawText(rt *rapid.T, label string, o TextOpt) string {
	kind := intn(rt, label+".kind", 0, 19)
	switch {
	case kind < 6: // tiny alphabet: collisions and near misses
		n := intn(rt, label+".n", 0, 3)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(pick(rt, label, "a", "b", "A", " ", "|"))
		}
		return b.String()
	case kind < 16:
		return mixText(rt, label, o, intn(rt, label+".n", 0, 8))
	case kind < 18 && !o.Short: // around the wrapping threshold
		return wrapText(rt, label, o)
	case kind == 18 && !o.Short: // long
		unit := mixText(rt, label, o, intn(rt, label+".n", 1, 5))
		n := intn(rt, label+".rep", 1, 120)
		if chance(rt, label+".exact", 20) {
			if v, ok := dictInt(rt, label, 3, 3000); ok {
				return exactly(unit, int(v))
			}
		}
		if o.Big && chance(rt, label+".big", 3) {
			// saving is quadratic in the number of lines: few lines here
			unit = strings.ReplaceAll(unit, "\n", "_") + "w"
			n = 70000/(len(unit)+1) + 1
			return strings.Repeat(unit, n) + "\n" + unit
		}
		return strings.Repeat(unit, n)
	default:
		if chance(rt, label+".word", 8) {
			return o.word(rt, label)
		}
		return mixText(rt, label, o, intn(rt, label+".n", 0, 25))
	}
}

// word is a dictionary string that the options allow.
func (o TextOpt) word(rt *rapid.T, label string) string {
	s := dictStr(rt, label, func(s string) bool {
		return (o.NUL || !strings.Contains(s, "\x00")) && (o.EOT || !strings.Contains(s, "\x04")) && (o.CR || !strings.Contains(s, "\r"))
	})
	return s
}

// exactly makes a text of n bytes.
func exactly(unit string, n int) string {
	if unit == "" {
		unit = "w"
	}
	s := strings.Repeat(unit, n/len(unit))
	return s + strings.Repeat("x", n-len(s))
}

func mixText(rt *rapid.T, label string, o TextOpt, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		k := intn(rt, label+".k", 0, 39)
		switch {
		case k == 39 && o.NUL:
			b.WriteByte(0)
		case k == 38 && o.EOT:
			b.WriteByte(4)
		case k == 37 && o.CR:
			b.WriteString(pick(rt, label, "\r", "\r\n"))
		case k == 36 && o.Bad:
			b.WriteString(pick(rt, label, "\xff", "\x80", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80"))
		case k == 35:
			b.WriteString(pick(rt, label, pctAtoms...))
		case k == 34 || k == 32 && newWords():
			b.WriteString(o.word(rt, label))
		case k >= 33:
			r := rapid.Rune().Draw(rt, label)
			if r == 0 && !o.NUL || r == 4 && !o.EOT || r == '\r' && !o.CR {
				r = 'x'
			}
			b.WriteRune(r)
		default:
			b.WriteString(pick(rt, label, atoms...))
		}
	}
	return b.String()
}

// wrapText draws lines whose lengths straddle the wrapping width.
func wrapText(rt *rapid.T, label string, o TextOpt) string {
	var b strings.Builder
	lines := intn(rt, label+".lines", 1, 3)
	for l := 0; l < lines; l++ {
		want := pick(rt, label+".len", 10, 70, 75, 76, 77, 78, 79, 80, 81, 153, 154, 155, 156, 200)
		want += intn(rt, label+".jit", 0, 2)
		start := b.Len()
		for b.Len()-start < want {
			w := pick(rt, label+".word", "a", "ab", "word", "longerword", "é", "中文", "\"q\"", "\\", strings.Repeat("z", 30), strings.Repeat("y", 90))
			b.WriteString(w)
			if chance(rt, label+".sp", 60) {
				b.WriteString(pick(rt, label+".sep", " ", " ", " ", "  ", "\t"))
			}
		}
		if l < lines-1 || chance(rt, label+".nl", 30) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

var langs = []string{"zh_CN", "en_US", "de_DE", "fr_FR", "ja_JP", "pt_BR", "zh_TW", "ru_RU", "ar_EG", "sr_RS", "ko_KR", "es_ES", "pl_PL", "de_AT", "en_GB", "fr_CA", "pt_PT"}

var commonRules = []Rule{
	{1, "0"}, {2, "n != 1"}, {2, "n != 1"}, {2, "n > 1"}, {2, "n!=1"}, {2, "(n != 1)"}, {2, "(n > 1)"}, {2, " n  !=  1 "},
	{3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"},
	{3, "n==1 ? 0 : n==2 ? 1 : 2"},
	{3, "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{3, "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2"},
	{3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3"},
	{6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"},
	{5, "n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4"},
	{9, "n%9"}, {10, "n%10"}, {12, "n%12"}, {11, "n>9?10:n<0?0:n"}, {20, "n%20"}, {100, "n%100==7?9:n%100"}, {3, "n%3"}, {2, "n%10"}, {3, "n"}, {2, "n-1"}, {2, "2"}, {3, "n<0?2:n!=0"}, {2, "0"}, {1, "n != 1"}, {4, "n&3"}, {2, "!(n==1)"}, {2, "n%2"}, {4, "n%10 ? n%10>4 ? 3 : 2 : n ? 1 : 0"}, {0, "0"},
	// further rules that translators copy from lists of languages
	{2, "n%10!=1 || n%100==11"}, {2, "n==1 || n%10==1 ? 0 : 1"}, {3, "n==0 ? 0 : n==1 ? 1 : 2"}, {2, "n>=2"}, {2, "n==0||n==1 ? 0 : 1"},
	{4, "(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3"}, {4, "n==1 ? 0 : n==0 || (n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20) ? 2 : 3"},
	{4, "(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3"}, {4, "(n==1) ? 0 : (n==2) ? 1 : (n == 3) ? 2 : 3"}, {4, "(n == 1) ? 0 : ((n == 2) ? 1 : ((n > 10 && n % 10 == 0) ? 2 : 3))"},
	{2, "n==1 || n==2 || n==3 || (n%10!=4 && n%10!=6 && n%10!=9) ? 0 : 1"}, {2, "n > 1 && n < 11 || n > 99"}, {3, "n%10==0 || n%100>=11 && n%100<=19 ? 0 : n%10==1 ? 1 : 2"},
}

// rule draws a plural rule whose value is unambiguous (see cexpr.go).
func rule(rt *rapid.T) *Rule {
	if chance(rt, "rule.custom", 25) {
		e := genExpr(rt, 2, exprOpt{safe: true})
		n := intn(rt, "rule.n", 1, 7)
		if n == 7 {
			n = pick(rt, "rule.big", 8, 9, 10, 11, 16, 99, 100, 256, 1000)
		}
		return &Rule{N: n, Expr: e.render(rt, renderPlain)}
	}
	r := rapid.SampledFrom(commonRules).Draw(rt, "rule")
	return &r
}

var countPool = []int64{0, 1, 2, 3, 4, 5, 7, 10, 11, 12, 14, 19, 20, 21, 22, 25, 99, 100, 101, 102, 103, 104, 110, 111, 112, 119, 120, 121, 200, 1000, 1001, 1000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, -1, -2, -5, -11, -(1 << 31), -1 << 63}

func count(rt *rapid.T) int64 {
	switch intn(rt, "n.kind", 0, 3) {
	case 0:
		return int64(intn(rt, "n", 0, 12))
	case 1:
		return int64(intn(rt, "n", 0, 300))
	case 2:
		return rapid.SampledFrom(countPool).Draw(rt, "n")
	}
	if chance(rt, "n.dict", 15) {
		if v, ok := dictInt(rt, "n", -1<<63, 1<<63-1); ok {
			return v * int64(1-2*intn(rt, "n.neg", 0, 1))
		}
	}
	return rapid.Int64().Draw(rt, "n")
}

// CatOpt controls catalog generation.
type CatOpt struct {
	Text       TextOpt
	MaxMsgs    int
	Cmts       bool
	Untrans    bool // allow untranslated messages
	MustLang   bool
	AnyRule    bool // allow missing rule
	EmptyID2   bool // allow plural messages with an empty plural id
	EmptyCtxID bool // allow an empty id under a context
	FullForms  bool // plural messages store exactly nplurals forms
	NoHdr      bool
}

func comments(rt *rapid.T, label string) []S {
	var out []S
	n := intn(rt, label+".n", 0, 4)
	if n == 4 && chance(rt, label+".more", 50) {
		n = intn(rt, label+".n2", 5, 9)
		if n == 9 && chance(rt, label+".most", 50) {
			n = pick(rt, label+".n3", 15, 17, 33, 65, 130)
			if v, ok := dictInt(rt, label, 5, 300); ok {
				n = int(v)
			}
		}
	}
	for i := 0; i < n; i++ {
		out = append(out, S(comment(rt, label)))
	}
	return out
}

func comment(rt *rapid.T, label string) string {
	switch intn(rt, label+".k", 0, 6) {
	case 0:
		return "#"
	case 1:
		return "# " + string(text(rt, label, TextOpt{NoLF: true, Short: true}))
	case 2:
		return "#. " + string(text(rt, label, TextOpt{NoLF: true, Short: true}))
	case 3:
		var refs []string
		for i := intn(rt, label+".refs", 1, 3); i > 0; i-- {
			r := fmt.Sprintf("%s:%d", pick(rt, label+".f", "a.go", "b.go", "a b.go", "dir/x.html", "a.go2", "z"), pick(rt, label+".l", 1, 2, 9, 10, 11, 99, 100, 1000, 123456, 1000000))
			if chance(rt, label+".col", 30) {
				r += fmt.Sprintf(":%d", intn(rt, label+".c", 1, 120))
			}
			refs = append(refs, r)
		}
		return "#: " + strings.Join(refs, " ")
	case 4:
		return pick(rt, label+".flag", "#, c-format", "#, go-format", "#, no-wrap", "#, go-format, no-wrap")
	case 5:
		return pick(rt, label+".prev", "#| msgid \"old\"", "#| msgctxt \"x\"", "#~ msgid \"obsolete\"", "#~ msgstr \"old\"", "#~| msgid \"p\"")
	default:
		return "#" + pick(rt, label+".odd", "no space", "\"quoted\"", "msgid \"x\"", ":", ",", "~", ".")
	}
}

func genMsg(rt *rapid.T, o CatOpt, nforms int) Msg {
	var m Msg
	if chance(rt, "hasctxt", 35) {
		to := o.Text
		to.NonEmpty = true
		m.Ctxt = text(rt, "ctxt", to)
	}
	to := o.Text
	to.NonEmpty = !(m.Ctxt != "" && o.EmptyCtxID)
	m.ID = text(rt, "id", to)
	to = o.Text
	to.NonEmpty = true
	if chance(rt, "plural", 40) {
		m.Plural = true
		if o.EmptyID2 && chance(rt, "id2empty", 10) {
			m.ID2 = ""
		} else if chance(rt, "id2same", 15) {
			m.ID2 = m.ID
		} else {
			m.ID2 = text(rt, "id2", to)
		}
		if m.ID2 == "" && !o.EmptyID2 {
			m.ID2 = "ids"
		}
		n := nforms
		if !o.FullForms {
			n = intn(rt, "forms", 1, 6)
			if chance(rt, "forms.many", 6) {
				n = size(rt, "forms.n", 7, 13, 300)
			}
			if chance(rt, "forms.decl", 25) && nforms >= 1 && nforms <= 100 {
				n = nforms
			}
		} else if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if chance(rt, "form.empty", 8) {
				m.StrN = append(m.StrN, "")
			} else {
				m.StrN = append(m.StrN, text(rt, "form", to))
			}
		}
		if o.Untrans && chance(rt, "untrans", 10) {
			m.StrN = nil
		}
	} else {
		m.Str = text(rt, "str", to)
		if o.Untrans && chance(rt, "untrans", 10) {
			m.Str = ""
		}
	}
	if o.Cmts {
		m.Cmts = comments(rt, "cmt")
	}
	return m
}

// catalog draws a catalog with unique (context, id) pairs.
func catalog(rt *rapid.T, o CatOpt) Catalog {
	var c Catalog
	if o.MustLang || chance(rt, "haslang", 90) {
		c.Lang = rapid.SampledFrom(langs).Draw(rt, "lang")
	}
	if !o.AnyRule || !chance(rt, "norule", 12) {
		c.Rule = rule(rt)
		c.PF = pfStyle(rt)
	}
	if o.NoHdr && chance(rt, "nohdr", 6) {
		c.NoHdr, c.Lang, c.Rule = true, "", nil
	}
	for i := intn(rt, "extra.n", 0, 3); i > 0; i-- {
		k := pick(rt, "extra.k", "Project-Id-Version", "X-Generator", "Last-Translator", "MIME-Version", "Content-Transfer-Encoding", "X-Poedit-Bookmarks", "Report-Msgid-Bugs-To")
		dup := false
		for _, e := range c.Extra {
			if strings.HasPrefix(string(e), k+":") {
				dup = true
			}
		}
		if dup {
			continue
		}
		if chance(rt, "extra.dict", 5) {
			if w := strings.TrimSpace(TextOpt{}.word(rt, "extra.d")); w != "" && !strings.Contains(w, "\n") {
				c.Extra = append(c.Extra, S(k+": "+w))
				continue
			}
		}
		v := pick(rt, "extra.v", "x", "1.0", "a: b", "http://x/y: z", "Tom <t@x.org>", "名", "", "a b  c", "Language: zz")
		c.Extra = append(c.Extra, S(k+": "+v))
	}
	if !c.NoHdr && o.Cmts {
		c.HCmts = comments(rt, "hcmt")
	}
	max := o.MaxMsgs
	if max == 0 {
		max = 8
	}
	n := size(rt, "msgs", 0, max, 300)
	nforms := 1
	if c.Rule != nil {
		nforms = c.Rule.N
	}
	seen := map[string]bool{"\x04": true}
	for i := 0; i < n; i++ {
		m := genMsg(rt, o, nforms)
		for seen[m.key()] {
			m.ID += S(fmt.Sprintf("%d", i))
		}
		seen[m.key()] = true
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

// family draws messages whose contexts or ids are long and differ in one place only.
func family(rt *rapid.T) []Msg {
	n := pick(rt, "fam.n", 15, 31, 63, 127, 254, 255, 256, 1023, 4095, 8192, 65535, 70000)
	if v, ok := dictInt(rt, "fam", 3, 100000); ok && chance(rt, "fam.dict", 30) {
		n = int(v)
	}
	unit := pick(rt, "fam.unit", "x", "long text ", "中", "é\n", "%", "a\"")
	long := strings.Repeat(unit, n/len(unit)+1)
	at := pick(rt, "fam.at", 0, len(long)/2, len(long))
	for at < len(long) && at%len(unit) != 0 {
		at--
	}
	var out []Msg
	for i := intn(rt, "fam.msgs", 2, 4); i > 0; i-- {
		s := S(long[:at] + pick(rt, "fam.mid", "1", "2", "A", "a", "") + fmt.Sprint(i) + long[at:])
		m := Msg{ID: s, Str: S(fmt.Sprintf("family %d", i))}
		switch intn(rt, "fam.kind", 0, 3) {
		case 1:
			m.Ctxt, m.ID = s, "same"
		case 2:
			m.Plural, m.ID2, m.Str = true, s+"s", ""
			m.StrN = []S{S(fmt.Sprintf("f0 %d", i)), S(fmt.Sprintf("f1 %d", i)), S(fmt.Sprintf("f2 %d", i))}
		case 3:
			m.Ctxt = s
		}
		out = append(out, m)
	}
	return out
}

// many draws a big regular catalog (entry counts beyond one byte and beyond a few KiB).
func manyMsgs(rt *rapid.T) []Msg {
	if v, ok := dictInt(rt, "many", 9, 2000); ok && chance(rt, "many.dict", 30) {
		return manyMsgsN(int(v))
	}
	return manyMsgsN(pick(rt, "many", 255, 256, 257, 300, 700))
}

func manyMsgsN(n int) []Msg {
	var out []Msg
	for i := 0; i < n; i++ {
		m := Msg{ID: S(fmt.Sprintf("id %d", i)), Str: S(fmt.Sprintf("str %d", i*7))}
		if i%5 == 0 {
			m.Ctxt = S(fmt.Sprintf("c%d", i%3))
		}
		if i%7 == 0 {
			m.Plural, m.ID2, m.Str = true, "ids", ""
			m.StrN = []S{S(fmt.Sprintf("f0 %d", i)), S(fmt.Sprintf("f1 %d", i))}
		}
		out = append(out, m)
	}
	return out
}
