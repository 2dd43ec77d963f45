package main

// An independent PO writer (any layout) and a strict reader of the GNU grammar.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// poStyle are the per-file layout choices.
type poStyle struct {
	crlf, mixed bool
	escapes     int // 0 minimal, 1 some, 2 wild
	wrap        int // 0 never, 1 like gettext, 2 random
	blanks      int // 0 one blank line, 1 none, 2 random
	cmts        bool
	sep         int // 0 one blank, 1 tab, 2 random, 3 none
	indent      bool
	noFinal     bool
	trailing    bool // blanks after the strings
	midBlank    bool // blank lines inside entries
}

func drawPoStyle(rt *rapid.T) poStyle {
	st := poStyle{
		crlf: chance(rt, "po.crlf", 20), mixed: chance(rt, "po.mixed", 5),
		escapes: intn(rt, "po.esc", 0, 2), wrap: intn(rt, "po.wrap", 0, 2), blanks: intn(rt, "po.blanks", 0, 2),
		cmts: chance(rt, "po.cmts", 60), noFinal: chance(rt, "po.nofinal", 30), trailing: chance(rt, "po.trail", 10),
		midBlank: chance(rt, "po.mid", 5), indent: chance(rt, "po.indent", 12),
	}
	if chance(rt, "po.oddsep", 15) {
		st.sep = intn(rt, "po.sep", 1, 3)
	}
	return st
}

type poWriter struct {
	rt *rapid.T
	st poStyle
	b  strings.Builder
}

func (w *poWriter) eol() {
	if w.st.crlf || w.st.mixed && chance(w.rt, "po.eol", 50) {
		w.b.WriteString("\r\n")
	} else {
		w.b.WriteString("\n")
	}
}

func (w *poWriter) line(s string) { w.b.WriteString(s); w.eol() }

func isOct(c byte) bool { return c >= '0' && c <= '7' }
func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// quote writes s as one quoted string; next tells what may follow numeric escapes.
func (w *poWriter) quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	num := func(c byte, next string) {
		digit := next != "" && isOct(next[0])
		hexDigit := next != "" && isHex(next[0])
		switch k := intn(w.rt, "esc.num", 0, 3); {
		case k == 0 && !hexDigit:
			fmt.Fprintf(&b, `\x%02x`, c)
		case k == 1 && !hexDigit && c < 16:
			fmt.Fprintf(&b, `\x%X`, c)
		case k == 2 && !digit:
			fmt.Fprintf(&b, `\%o`, c)
		default:
			fmt.Fprintf(&b, `\%03o`, c)
		}
	}
	for i := 0; i < len(s); {
		r, size := utf8.DecodeRuneInString(s[i:])
		c := s[i]
		next := s[i+size:]
		if r == utf8.RuneError && size == 1 {
			num(c, next)
			i++
			continue
		}
		if size > 1 {
			if w.st.escapes == 2 && chance(w.rt, "esc.multi", 5) {
				for j := 0; j < size; j++ {
					nx := ""
					if j == size-1 {
						nx = next
					}
					num(s[i+j], nx)
				}
			} else {
				b.WriteString(s[i : i+size])
			}
			i += size
			continue
		}
		i++
		if j := strings.IndexByte("\n\"\\\t\r\a\b\f\v", c); j >= 0 {
			must := c == '\n' || c == '"' || c == '\\' || c == '\r'
			switch {
			case w.st.escapes == 2 && chance(w.rt, "esc.alt", 20):
				num(c, next)
			case !must && w.st.escapes > 0 && c == '\t' && chance(w.rt, "esc.rawtab", 30):
				b.WriteByte(c)
			default:
				b.WriteByte('\\')
				b.WriteByte("n\"\\trabfv"[j])
			}
			continue
		}
		if c < 0x20 || c == 0x7f {
			num(c, next)
			continue
		}
		if w.st.escapes == 2 && chance(w.rt, "esc.plain", 2) {
			num(c, next)
			continue
		}
		b.WriteByte(c)
	}
	b.WriteByte('"')
	return b.String()
}

// cut splits s into the pieces of its lines.
func (w *poWriter) cut(s string) []string {
	switch w.st.wrap {
	case 0:
		return []string{s}
	case 1: // gettext: break after newlines
		parts := strings.SplitAfter(s, "\n")
		if len(parts) > 1 && parts[len(parts)-1] == "" {
			parts = parts[:len(parts)-1]
		}
		if len(parts) > 1 {
			parts = append([]string{""}, parts...)
		}
		return parts
	}
	var parts []string
	if chance(w.rt, "wrap.first", 40) {
		parts = append(parts, "")
	}
	n := size(w.rt, "wrap.n", 0, 4, 100)
	if len(s) > 5000 {
		n += 8
	}
	for i := 0; i < n && s != ""; i++ {
		at := intn(w.rt, "wrap.at", 0, min(len(s), 1+len(s)/(n-i)))
		for at < len(s) && !utf8.RuneStart(s[at]) {
			at++
		}
		parts = append(parts, s[:at])
		s = s[at:]
	}
	return append(parts, s)
}

func (w *poWriter) field(kw, s string) {
	ind := ""
	if w.st.indent && chance(w.rt, "ind", 50) {
		ind = pick(w.rt, "ind.s", " ", "\t", "    ")
	}
	sep := " "
	switch w.st.sep {
	case 1:
		sep = "\t"
	case 2:
		sep = pick(w.rt, "sep.s", " ", "  ", "\t", " \t", "\t\t")
	case 3:
		sep = ""
	}
	for i, p := range w.cut(s) {
		l := ind + kw + sep
		if i > 0 {
			l = ind
			if w.st.indent {
				l = pick(w.rt, "ind.c", "", " ", "\t", "       ")
			}
			if w.st.midBlank && chance(w.rt, "midblank", 20) {
				w.line(pick(w.rt, "midblank.s", "", " "))
			}
		}
		l += w.quote(p)
		if w.st.trailing {
			l += pick(w.rt, "trail", "", " ", "\t", "  ")
		}
		w.line(l)
	}
}

func (w *poWriter) gap() {
	n := 1
	switch w.st.blanks {
	case 1:
		n = 0
	case 2:
		n = size(w.rt, "gap", 0, 3, 100)
	}
	for ; n > 0; n-- {
		if w.st.blanks == 2 {
			w.line(pick(w.rt, "gap.s", "", "", "  ", "\t"))
		} else {
			w.line("")
		}
	}
}

func (w *poWriter) randomComments() {
	for i := size(w.rt, "cmts", 0, 3, 100); i > 0; i-- {
		w.line(comment(w.rt, "cmt"))
	}
	if chance(w.rt, "obsolete", 15) {
		w.line(`#~ msgctxt "c"`)
		w.line(`#~ msgid "obsolete"`)
		w.line(`#~ msgid_plural "obsoletes"`)
		w.line(`#~ msgstr[0] "alt"`)
		w.line(`#~ "more"`)
		w.gap()
	}
}

func (w *poWriter) msg(m *Msg) {
	for _, c := range m.Cmts {
		w.line(string(c))
	}
	if w.st.cmts {
		w.randomComments()
	}
	if m.Ctxt != "" {
		w.field("msgctxt", string(m.Ctxt))
	}
	w.field("msgid", string(m.ID))
	if !m.Plural {
		w.field("msgstr", string(m.Str))
	} else {
		w.field("msgid_plural", string(m.ID2))
		for i, s := range m.StrN {
			w.field(fmt.Sprintf("msgstr[%d]", i), string(s))
		}
		if len(m.StrN) == 0 {
			w.field("msgstr[0]", "")
			if chance(w.rt, "untrans2", 50) {
				w.field("msgstr[1]", "")
			}
		}
	}
	w.gap()
}

// poText renders the messages as a PO file in a drawn layout.
func poText(rt *rapid.T, msgs []Msg) []byte {
	w := &poWriter{rt: rt, st: drawPoStyle(rt)}
	if w.st.blanks == 2 {
		w.gap()
	}
	for i := range msgs {
		w.msg(&msgs[i])
	}
	if w.st.cmts && chance(rt, "endcmt", 30) {
		w.randomComments()
	}
	s := w.b.String()
	if w.st.noFinal {
		s = strings.TrimRight(s, "\r\n")
	}
	if s == "" { // an empty file is not a catalog
		s = "#\n"
	}
	return []byte(s)
}

// plainPo renders messages in one fixed layout.
func plainPo(msgs []Msg) []byte {
	var b strings.Builder
	esc := func(s string) string {
		var e strings.Builder
		for i := 0; i < len(s); i++ {
			switch c := s[i]; {
			case c == '\n':
				e.WriteString(`\n`)
			case c == '"' || c == '\\':
				e.WriteByte('\\')
				e.WriteByte(c)
			case c < 0x20 || c == 0x7f:
				fmt.Fprintf(&e, `\%03o`, c)
			default:
				e.WriteByte(c)
			}
		}
		return e.String()
	}
	for _, m := range msgs {
		for _, c := range m.Cmts {
			b.WriteString(string(c) + "\n")
		}
		if m.Ctxt != "" {
			b.WriteString("msgctxt \"" + esc(string(m.Ctxt)) + "\"\n")
		}
		b.WriteString("msgid \"" + esc(string(m.ID)) + "\"\n")
		if m.Plural {
			b.WriteString("msgid_plural \"" + esc(string(m.ID2)) + "\"\n")
			for i, s := range m.StrN {
				fmt.Fprintf(&b, "msgstr[%d] \"%s\"\n", i, esc(string(s)))
			}
			if len(m.StrN) == 0 {
				b.WriteString("msgstr[0] \"\"\n")
			}
		} else {
			b.WriteString("msgstr \"" + esc(string(m.Str)) + "\"\n")
		}
		b.WriteString("\n")
	}
	return []byte(b.String())
}

// ---------------------------------------------------------------- strict reader

// PEntry is one entry as the strict reader sees it.
type PEntry struct {
	Msg
	line int
}

// strictPO parses the GNU PO grammar (without the obsolete and previous entries,
// which are comments here). Raw bytes must be valid UTF-8.
func strictPO(data []byte) ([]PEntry, error) {
	if !utf8.Valid(data) {
		return nil, fmt.Errorf("invalid UTF-8")
	}
	type item struct {
		kw    string
		val   string
		line  int
		index int
	}
	var items []item
	var cmts []S
	var out []PEntry
	seen := map[string]int{}
	flush := func() error {
		if len(items) == 0 {
			return nil
		}
		it := items
		items = nil
		e := PEntry{line: it[0].line}
		e.Cmts, cmts = cmts, nil
		if it[0].kw == "msgctxt" {
			e.Ctxt = S(it[0].val)
			if it[0].val == "" {
				return fmt.Errorf("line %d: empty msgctxt", e.line)
			}
			it = it[1:]
		}
		if len(it) == 0 || it[0].kw != "msgid" {
			return fmt.Errorf("line %d: msgid missing", e.line)
		}
		e.ID = S(it[0].val)
		it = it[1:]
		if len(it) > 0 && it[0].kw == "msgid_plural" {
			e.Plural, e.ID2 = true, S(it[0].val)
			it = it[1:]
			if len(it) == 0 {
				return fmt.Errorf("line %d: no msgstr[0]", e.line)
			}
			for i, x := range it {
				if x.kw != "msgstr[]" || x.index != i {
					return fmt.Errorf("line %d: expected msgstr[%d]", x.line, i)
				}
				e.StrN = append(e.StrN, S(x.val))
			}
		} else {
			if len(it) != 1 || it[0].kw != "msgstr" {
				return fmt.Errorf("line %d: expected exactly one msgstr", e.line)
			}
			e.Str = S(it[0].val)
		}
		if l, dup := seen[e.key()]; dup {
			return fmt.Errorf("line %d: duplicate of line %d", e.line, l)
		}
		seen[e.key()] = e.line
		out = append(out, e)
		return nil
	}
	lines := strings.Split(string(data), "\n")
	for no, l := range lines {
		no++
		l = strings.Trim(l, " \t\r")
		if l == "" {
			continue
		}
		if l[0] == '#' {
			if err := flush(); err != nil {
				return nil, err
			}
			cmts = append(cmts, S(l))
			continue
		}
		if l[0] == '"' {
			v, err := strictUnquote(l)
			if err != nil {
				return nil, fmt.Errorf("line %d: %w", no, err)
			}
			if len(items) == 0 {
				return nil, fmt.Errorf("line %d: string without keyword", no)
			}
			items[len(items)-1].val += v
			continue
		}
		i := strings.IndexAny(l, " \t\"")
		if i < 0 {
			return nil, fmt.Errorf("line %d: %q", no, l)
		}
		kw, rest := l[:i], strings.TrimLeft(l[i:], " \t")
		it := item{kw: kw, line: no}
		switch {
		case kw == "msgctxt" || kw == "msgid":
			// starts an entry unless it continues one
			if len(items) > 0 && !(kw == "msgid" && len(items) == 1 && items[0].kw == "msgctxt") {
				if err := flush(); err != nil {
					return nil, err
				}
			}
		case kw == "msgid_plural" || kw == "msgstr":
		case strings.HasPrefix(kw, "msgstr[") && strings.HasSuffix(kw, "]"):
			n, err := strconv.Atoi(kw[7 : len(kw)-1])
			if err != nil || kw[7] == '+' || kw[7] == '-' {
				return nil, fmt.Errorf("line %d: bad index %q", no, kw)
			}
			it.kw, it.index = "msgstr[]", n
		default:
			return nil, fmt.Errorf("line %d: unknown keyword %q", no, kw)
		}
		v, err := strictUnquote(rest)
		if err != nil {
			return nil, fmt.Errorf("line %d: %w", no, err)
		}
		it.val = v
		items = append(items, it)
	}
	if err := flush(); err != nil {
		return nil, err
	}
	return out, nil
}

// strictUnquote reads one quoted string with C escapes only.
func strictUnquote(s string) (string, error) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", fmt.Errorf("not a quoted string: %s", q(s))
	}
	s = s[1 : len(s)-1]
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			return "", fmt.Errorf("unescaped quote in %s", q(s))
		}
		if c != '\\' {
			b.WriteByte(c)
			continue
		}
		i++
		if i == len(s) {
			return "", fmt.Errorf("dangling backslash")
		}
		c = s[i]
		if j := strings.IndexByte(`n"\trabfv`, c); j >= 0 {
			b.WriteByte("\n\"\\\t\r\a\b\f\v"[j])
			continue
		}
		switch {
		case isOct(c):
			v := 0
			j := i
			for ; j < len(s) && j < i+3 && isOct(s[j]); j++ {
				v = v*8 + int(s[j]-'0')
			}
			if v > 255 {
				return "", fmt.Errorf("octal escape above 255")
			}
			b.WriteByte(byte(v))
			i = j - 1
		case c == 'x':
			j := i + 1
			v := 0
			for ; j < len(s) && isHex(s[j]); j++ {
				d, _ := strconv.ParseUint(s[j:j+1], 16, 8)
				v = v*16 + int(d)
				if v > 255 {
					return "", fmt.Errorf("hexadecimal escape above 255 in %s", q(s))
				}
			}
			if j == i+1 {
				return "", fmt.Errorf("invalid control sequence \\x")
			}
			b.WriteByte(byte(v))
			i = j - 1
		default:
			return "", fmt.Errorf("invalid control sequence \\%c", c)
		}
	}
	return b.String(), nil
}
