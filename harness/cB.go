package main

// C05-C09, C11, C30, C24: the file formats.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- shared

var stdNs = []int64{0, 1, 2, 5, 11, 21}

func checkHeaders(f *translator.File, c *Catalog) error {
	want := map[string]string{}
	if !c.NoHdr {
		want = headerFields(c.headerText())
	}
	for k, v := range want {
		got, ok := f.GetHeader(k)
		if !ok || got != v {
			return fmt.Errorf("header %q is %q (%v), want %q", k, got, ok, v)
		}
	}
	for _, k := range []string{"Language", "Plural-Forms", "X-None", "", "language"} {
		if _, ok := want[k]; ok {
			continue
		}
		if got, ok := f.GetHeader(k); ok || got != "" {
			return fmt.Errorf("header %q is %q, want none", k, got)
		}
	}
	if f.Lang() != want["Language"] {
		return fmt.Errorf("language is %q, want %q", f.Lang(), want["Language"])
	}
	return nil
}

// split divides messages into those a PO reader must keep and those it may drop.
func split(msgs []Msg) (must, may []Msg) {
	for _, m := range msgs {
		if !m.translated() {
			if m.Plural { // written as one empty form
				m.StrN = []S{""}
				may = append(may, m)
			}
			continue
		}
		empty := m.Plural
		for _, s := range m.StrN {
			if s != "" {
				empty = false
			}
		}
		if empty {
			may = append(may, m)
		} else {
			must = append(must, m)
		}
	}
	return
}

type fileCase struct {
	Cat    Catalog
	Data   S       `json:",omitempty"`
	Data2  S       `json:",omitempty"`
	Probes []Probe `json:",omitempty"`
	Args   int     `json:",omitempty"`
	Flag   bool    `json:",omitempty"`
	Flag2  bool    `json:",omitempty"`
	Big    string  `json:",omitempty"` // a big catalog in the plain forms instead of Cat, Data, Data2
}

// expand builds the catalog of a Big case.
func (c *fileCase) expand(o *Obs) {
	if c.Big == "" {
		return
	}
	o.Label("big-" + c.Big)
	c.Cat = Catalog{Lang: "zh_CN", Rule: &commonRules[1]}
	add := func(m ...Msg) { c.Cat.Msgs = append(c.Cat.Msgs, m...) }
	switch c.Big {
	case "70000 messages":
		add(manyMsgsN(70000)...)
	case "18 MiB text": // offsets beyond 24 bits
		add(Msg{ID: "a", Str: S(strings.Repeat("long text ", 1<<21*9/10))}, Msg{ID: "b", Str: "B"}, Msg{Ctxt: "c", ID: "z", Plural: true, ID2: "zs", StrN: []S{"f0", "f1"}})
	case "many lines":
		add(Msg{ID: "a", Str: S(strings.Repeat("l\n", manyLines))}, Msg{ID: "b", Str: "B"})
	case "2 MiB keys":
		s := S(strings.Repeat("key ", 1<<19))
		add(Msg{Ctxt: s, ID: s + "1", Str: "1"}, Msg{Ctxt: s, ID: s + "2", Str: "2"}, Msg{ID: s, Plural: true, ID2: s, StrN: []S{s + "x", s + "y"}})
	}
	for i := range c.Cat.Msgs {
		if i%1000 < 3 {
			m := &c.Cat.Msgs[i]
			c.Probes = append(c.Probes, Probe{Ctxt: m.Ctxt + "x", ID: m.ID, Plural: m.Plural, ID2: m.ID2, N: 3})
		}
	}
	c.Data, c.Data2 = S(plainPo(c.Cat.withHeader())), S(plainMO(c.Cat.withHeader()))
	if c.Big == "many lines" { // one line of the file for each line of the text
		one := strings.Repeat("l\\n", manyLines)
		if strings.Count(string(c.Data), one) != 1 {
			panic("harness: plainPo")
		}
		c.Data = S(strings.Replace(string(c.Data), one, strings.Repeat("l\\n\"\n\"", manyLines), 1))
	}
}

const manyLines = 600000

func bigCases(kinds ...string) func() []fileCase {
	return func() (out []fileCase) {
		for _, k := range kinds {
			out = append(out, fileCase{Big: k})
		}
		return
	}
}

func labelTexts(c *Catalog, o *Obs) {
	for _, m := range c.Msgs {
		for _, s := range append([]S{m.ID, m.Str, m.ID2, m.Ctxt}, m.StrN...) {
			o.LabelIf(len(s) > 77, "text-beyond-wrap")
			o.LabelIf(len(s) > 65536, "text-beyond-64K")
			o.LabelIf(strings.Contains(string(s), "\n"), "multi-line")
			o.LabelIf(!utf8.ValidString(string(s)), "invalid-utf8")
		}
		o.LabelIf(m.Plural, "plural")
		o.LabelIf(m.Ctxt != "", "context")
		o.LabelIf(!m.translated(), "untranslated")
	}
	o.LabelIf(len(c.Msgs) > 200, "many-messages")
}

func sometimesMany(rt *rapid.T, c *Catalog, pct int) {
	if chance(rt, "manymsgs", pct) {
		c.Msgs = manyMsgs(rt)
	}
}

// ---------------------------------------------------------------- C05

func checkC05(c fileCase, o *Obs) error {
	c.expand(o)
	labelTexts(&c.Cat, o)
	f, err := readPoOwn([]byte(c.Data))
	if err != nil {
		return fmt.Errorf("well-formed PO file rejected: %v", err)
	}
	all := c.Cat.withHeader()
	must, may := split(all)
	if err := sameEntries(f.SortedEntry(), must, may, false); err != nil {
		return err
	}
	if c.Big == "" {
		if err := sameComments(f, []byte(c.Data), o); err != nil {
			return err
		}
	}
	if err := checkHeaders(f, &c.Cat); err != nil {
		return err
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	m := newModel(&c.Cat)
	ps := append(allProbes(&c.Cat, stdNs...), c.Probes...)
	if err := checkLookups("file", f, m, ps, nil); err != nil {
		return err
	}
	tr := t.NewTranslation("d")
	if err := loadOwn(tr.LoadPo, []byte(c.Data)); err != nil {
		return fmt.Errorf("LoadPo: %v", err)
	}
	if c.Cat.Lang != "" {
		tor, ok := tr.Get(c.Cat.Lang)
		if !ok {
			return fmt.Errorf("LoadPo did not bind %s", c.Cat.Lang)
		}
		return checkLookups("translation", tor, m, ps, nil)
	}
	return nil
}

// sameComments checks that each message carries the comment lines written before it.
// Where the lines of obsolete entries (#~) go is not specified.
func sameComments(f *translator.File, data []byte, o *Obs) error {
	entries, err := strictPO(data)
	if err != nil { // layouts and bytes the strict reader does not know
		o.Label("comments-not-judged")
		return nil
	}
	byKey := map[string]*translator.Entry{}
	for _, e := range f.SortedEntry() {
		byKey[e.MsgCtxt+"\x04"+e.MsgID] = e
	}
	plain := func(l []string) (out []string) {
		for _, c := range l {
			if c = strings.Trim(c, " \t\r"); !strings.HasPrefix(c, "#~") {
				out = append(out, c)
			}
		}
		return
	}
	for _, p := range entries {
		e := byKey[p.key()]
		if e == nil {
			continue // untranslated
		}
		var want []string
		for _, c := range p.Cmts {
			want = append(want, string(c))
		}
		o.LabelIf(len(want) > 0, "comments")
		if w, g := plain(want), plain(e.MsgCmts); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
			return fmt.Errorf("message (%s, %s) has the comments %.400q, in the file %.400q", q(string(p.Ctxt)), q(string(p.ID)), g, w)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C06

func checkC06(c fileCase, o *Obs) error {
	c.expand(o)
	labelTexts(&c.Cat, o)
	var f *translator.File
	msgs := c.Cat.withHeader()
	if c.Data != "" {
		var err error
		if f, err = readPoOwn([]byte(c.Data)); err != nil {
			return fmt.Errorf("well-formed PO file rejected: %v", err)
		}
		// what is to be preserved is what was read
		msgs = nil
		for _, e := range f.SortedEntry() {
			msgs = append(msgs, fromEntry(e))
		}
		o.Label("from-po")
	} else {
		f = c.Cat.file()
	}
	if len(msgs) == 0 {
		return nil
	}
	po1, err := poBytes(f)
	if err != nil {
		return fmt.Errorf("SaveAsPo: %v", err)
	}
	f2, err := readPoOwn(po1)
	if err != nil {
		return fmt.Errorf("saved PO file is rejected: %v\n%s", err, clip(string(po1), 1000))
	}
	var must []Msg
	full := true
	for _, m := range msgs {
		if m.translated() {
			must = append(must, m)
		} else {
			full = false
		}
	}
	var may []Msg
	for _, m := range msgs {
		if !m.translated() {
			if m.Plural {
				m.StrN = []S{""}
			}
			may = append(may, m)
		}
	}
	if err := sameEntries(f2.SortedEntry(), must, may, true); err != nil {
		return fmt.Errorf("after saving and reading: %w", err)
	}
	if c.Data == "" {
		if err := checkHeaders(f2, &c.Cat); err != nil {
			return err
		}
		if err := checkLookups("reread", f2, newModel(&c.Cat), append(allProbes(&c.Cat, stdNs...), c.Probes...), nil); err != nil {
			return err
		}
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	if full {
		po2, err := poBytes(f2)
		if err != nil {
			return fmt.Errorf("SaveAsPo: %v", err)
		}
		if !bytes.Equal(po1, po2) {
			return fmt.Errorf("saving the re-read catalog gives other bytes: %s", diffAt(po1, po2))
		}
	}
	return nil
}

func fromEntry(e *translator.Entry) Msg {
	m := Msg{Ctxt: S(e.MsgCtxt), ID: S(e.MsgID), Plural: e.IsPlural, ID2: S(e.MsgID2), Str: S(e.MsgStr)}
	for _, c := range e.MsgCmts {
		m.Cmts = append(m.Cmts, S(c))
	}
	for _, s := range e.MsgStrN {
		m.StrN = append(m.StrN, S(s))
	}
	return m
}

func diffAt(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-40)
	return fmt.Sprintf("at byte %d of %d/%d: %q / %q", i, len(a), len(b), clip(string(a[from:]), 120), clip(string(b[from:]), 120))
}

// ---------------------------------------------------------------- C07

func normMO(c *Catalog) Catalog {
	d := *c
	d.Msgs = append([]Msg{}, c.Msgs...)
	for i := range d.Msgs {
		if d.Msgs[i].Plural && len(d.Msgs[i].StrN) == 0 {
			d.Msgs[i].StrN = []S{""}
		}
		d.Msgs[i].Cmts = nil
	}
	d.HCmts = nil
	return d
}

func checkC07(c fileCase, o *Obs) error {
	c.expand(o)
	labelTexts(&c.Cat, o)
	if c.Big != "" {
		c.Data = c.Data2
	}
	mo, err := readMO([]byte(c.Data))
	if err != nil || !mo.sorted {
		return fmt.Errorf("harness: built an invalid MO file: %v", err)
	}
	o.Label(fmt.Sprintf("%v rev=%08x hash=%v", mo.bo, mo.rev, mo.hsize > 0))
	f, err := readMoOwn([]byte(c.Data))
	if err != nil {
		return fmt.Errorf("valid MO file rejected: %v", err)
	}
	d := normMO(&c.Cat)
	if err := sameEntries(f.SortedEntry(), d.withHeader(), nil, false); err != nil {
		return err
	}
	if err := checkHeaders(f, &c.Cat); err != nil {
		return err
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	m := newModel(&c.Cat)
	ps := append(allProbes(&c.Cat, stdNs...), c.Probes...)
	if err := checkLookups("file", f, m, ps, nil); err != nil {
		return err
	}
	tr := t.NewTranslation("d")
	if err := loadOwn(tr.LoadMo, []byte(c.Data)); err != nil {
		return fmt.Errorf("LoadMo: %v", err)
	}
	if c.Cat.Lang != "" {
		tor, ok := tr.Get(c.Cat.Lang)
		if !ok {
			return fmt.Errorf("LoadMo did not bind %s", c.Cat.Lang)
		}
		return checkLookups("translation", tor, m, ps, nil)
	}
	return nil
}

// ---------------------------------------------------------------- C08

func checkC08(c fileCase, o *Obs) error {
	c.expand(o)
	labelTexts(&c.Cat, o)
	f := c.Cat.file()
	data, err := moBytes(f)
	if err != nil {
		return fmt.Errorf("SaveAsMo: %v", err)
	}
	mo, err := readMO(data)
	if err != nil {
		return fmt.Errorf("saved MO file is invalid: %v", err)
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	want := map[string]string{}
	for _, p := range moPairs(c.Cat.withHeader()) {
		want[p.id] = p.str
	}
	for _, p := range mo.pairs {
		w, ok := want[p.id]
		if !ok {
			return fmt.Errorf("saved MO file has the extra original string %s", q(p.id))
		}
		if w != p.str {
			return fmt.Errorf("saved MO file translates %s as %s, want %s", q(p.id), q(p.str), q(w))
		}
		delete(want, p.id)
	}
	for id, s := range want {
		if s != "" || strings.Contains(id, "\x00") {
			return fmt.Errorf("saved MO file lacks %s", q(id))
		}
	}
	o.LabelIf(mo.sorted, "sorted")
	if !mo.sorted {
		// KF5: the strings stand in the order of the entry list
		es := f.SortedEntry()
		ok := len(es) == len(mo.pairs)
		for i := 0; ok && i < len(es); i++ {
			e := fromEntry(es[i])
			ok = moPairs([]Msg{e})[0].id == mo.pairs[i].id
		}
		if !ok {
			return fmt.Errorf("original strings are not sorted")
		}
		if err := o.Known("KF5", fmt.Sprintf("original strings are not sorted: %s before %s", q(firstUnsorted(mo)[0]), q(firstUnsorted(mo)[1]))); err != nil {
			return err
		}
	} else {
		for _, p := range mo.pairs {
			if s, ok := mo.search(p.id); !ok || s != p.str {
				return fmt.Errorf("binary search for %s fails", q(p.id))
			}
		}
	}
	f2, err := readMoOwn(data)
	if err != nil {
		return fmt.Errorf("saved MO file is rejected: %v", err)
	}
	if err := checkHeaders(f2, &c.Cat); err != nil {
		return err
	}
	d := normMO(&c.Cat)
	if err := sameEntries(f2.SortedEntry(), d.withHeader(), nil, false); err != nil {
		return fmt.Errorf("after saving and reading: %w", err)
	}
	return checkLookups("reread", f2, newModel(&c.Cat), append(allProbes(&c.Cat, stdNs...), c.Probes...), nil)
}

func firstUnsorted(f *moFile) [2]string {
	for i := 1; i < len(f.pairs); i++ {
		if f.pairs[i-1].id > f.pairs[i].id {
			return [2]string{f.pairs[i-1].id, f.pairs[i].id}
		}
	}
	return [2]string{}
}

// ---------------------------------------------------------------- C09

var argSets = [][]any{nil, {1}, {"x"}, {1, "y"}, {int64(5), 2.5, "z"}, {nil}, {"%d"}}

func checkC09(c fileCase, o *Obs) error {
	c.expand(o)
	labelTexts(&c.Cat, o)
	api := c.Cat.file()
	po, err := readPoOwn([]byte(c.Data))
	if err != nil {
		return fmt.Errorf("PO form rejected: %v", err)
	}
	own, err := moBytes(api)
	if err != nil {
		return fmt.Errorf("SaveAsMo: %v", err)
	}
	mo1, err := readMoOwn(own)
	if err != nil {
		return fmt.Errorf("own MO form rejected: %v", err)
	}
	mo2, err := readMoOwn([]byte(c.Data2))
	if err != nil {
		return fmt.Errorf("independent MO form rejected: %v", err)
	}
	pob, err := poBytes(api)
	if err != nil {
		return err
	}
	forms := []struct {
		name string
		f    *translator.File
	}{{"po", po}, {"own mo", mo1}, {"independent mo", mo2}}
	if len(pob) > 0 {
		po2, err := readPoOwn(pob)
		if err != nil {
			return fmt.Errorf("own PO form rejected: %v", err)
		}
		forms = append(forms, struct {
			name string
			f    *translator.File
		}{"own po", po2})
	}
	if c.Flag && msgfmtPath != "" {
		data, err := msgfmt(o.dir, []byte(c.Data))
		if err != nil {
			return fmt.Errorf("harness: msgfmt rejects the generated PO file: %v", err)
		}
		f, err := readMoOwn(data)
		if err != nil {
			return fmt.Errorf("msgfmt's MO form rejected: %v", err)
		}
		o.Label("msgfmt")
		forms = append(forms, struct {
			name string
			f    *translator.File
		}{"msgfmt mo", f})
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	ps := append([]Probe{}, c.Probes...)
	for _, m := range c.Cat.withHeader() {
		ps = append(ps, Probe{Ctxt: m.Ctxt, ID: m.ID})
		for _, n := range stdNs {
			ps = append(ps, Probe{Plural: true, Ctxt: m.Ctxt, ID: m.ID, ID2: m.ID2, N: n}, Probe{Plural: true, Ctxt: m.Ctxt, ID: m.ID, ID2: "%d other", N: n})
		}
	}
	args := argSets[c.Args%len(argSets)]
	for _, p := range ps {
		for _, as := range [][]any{nil, args} {
			want := p.ask(api, as...)
			for _, f := range forms {
				if got := p.ask(f.f, as...); got != want {
					return fmt.Errorf("%v with %d args: %s gives %s, the catalog itself %s", p, len(as), f.name, q(got), q(want))
				}
			}
		}
	}
	for _, f := range forms {
		if err := checkHeaders(f.f, &c.Cat); err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
		a, b := t.NewTranslation("x", api), t.NewTranslation("x", f.f)
		if c.Cat.Lang != "" {
			if _, ok := a.Get(c.Cat.Lang); !ok {
				return fmt.Errorf("not available as %s", c.Cat.Lang)
			}
			if _, ok := b.Get(c.Cat.Lang); !ok {
				return fmt.Errorf("%s: not available as %s", f.name, c.Cat.Lang)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- msgfmt

var msgfmtPath, _ = exec.LookPath("msgfmt")

func msgfmt(dir string, po []byte) ([]byte, error) {
	in, out := filepath.Join(dir, "m.po"), filepath.Join(dir, "m.mo")
	os.Remove(out)
	if err := os.WriteFile(in, po, 0600); err != nil {
		return nil, err
	}
	cmd := exec.Command(msgfmtPath, "-o", out, in)
	cmd.Env = []string{"LC_ALL=C.UTF-8", "PATH=/usr/bin:/bin"}
	if b, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, clip(string(b), 600))
	}
	return os.ReadFile(out)
}

// msgfmtSafe makes the catalog one GNU msgfmt takes literally.
func msgfmtSafe(c *Catalog) {
	var ex []S
	for _, e := range c.Extra {
		if !strings.HasPrefix(string(e), "Content-T") {
			ex = append(ex, e)
		}
	}
	c.Extra = append(ex, "Content-Type: text/plain; charset=UTF-8", "Content-Transfer-Encoding: 8bit")
	keep := func(in []S) (out []S) {
		for _, s := range in {
			if !strings.HasPrefix(string(s), "#~") && !strings.HasPrefix(string(s), "#|") {
				// msgfmt's lexer joins comment lines at a final backslash
				out = append(out, S(strings.ReplaceAll(string(s), "\\", "/")))
			}
		}
		return
	}
	c.HCmts = keep(c.HCmts)
	// msgfmt insists on the same newlines at the ends of id and translation
	trim := func(s S) S {
		s = S(strings.ReplaceAll(string(s), "\ufeff", "F")) // msgfmt drops byte order marks
		if strings.HasPrefix(string(s), "\n") {
			s = "[" + s
		}
		if strings.HasSuffix(string(s), "\n") {
			s += "]"
		}
		return s
	}
	seen := map[string]bool{}
	var msgs []Msg
	for _, m := range c.Msgs {
		m.Cmts = keep(m.Cmts)
		m.Ctxt, m.ID, m.ID2, m.Str = trim(m.Ctxt), trim(m.ID), trim(m.ID2), trim(m.Str)
		m.StrN = append([]S{}, m.StrN...)
		for i := range m.StrN {
			m.StrN[i] = trim(m.StrN[i])
		}
		if !seen[m.key()] {
			seen[m.key()] = true
			msgs = append(msgs, m)
		}
	}
	c.Msgs = msgs
}

// ---------------------------------------------------------------- C24, C30

func templateOf(msgs []Msg) []Msg {
	var out []Msg
	for _, m := range msgs {
		if m.Plural {
			m.StrN = []S{"", ""}
			m.Str = ""
		} else if m.Ctxt != "" || m.ID != "" {
			m.Str = ""
		}
		out = append(out, m)
	}
	return out
}

func checkC24(c fileCase, o *Obs) error {
	labelTexts(&c.Cat, o)
	msgs := c.Cat.withHeader()
	f := c.Cat.file()
	if len(msgs) == 0 {
		return nil
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	pot1, err := potBytes(f)
	if err != nil {
		return fmt.Errorf("SaveAsPot: %v", err)
	}
	tmpl := templateOf(msgs)
	// independent view of the file
	es, err := strictPO(pot1)
	if err == nil {
		if err := samePEntries(es, tmpl, true); err != nil {
			return fmt.Errorf("saved POT: %w", err)
		}
	} else if utf8.Valid(pot1) {
		return fmt.Errorf("saved POT is malformed: %v", err)
	}
	f2, err := readPotOwn(pot1)
	if err != nil {
		return fmt.Errorf("saved POT is rejected: %v\n%s", err, clip(string(pot1), 1000))
	}
	if err := sameEntries(f2.SortedEntry(), tmpl, nil, true); err != nil {
		return fmt.Errorf("after saving and reading: %w", err)
	}
	if err := checkHeaders(f2, &c.Cat); err != nil {
		return fmt.Errorf("after saving and reading: %w", err)
	}
	pot2, err := potBytes(f2)
	if err != nil {
		return err
	}
	if !bytes.Equal(pot1, pot2) {
		return fmt.Errorf("saving the re-read POT gives other bytes: %s", diffAt(pot1, pot2))
	}
	// a POT in any layout, with comments anywhere
	f3, err := readPotOwn([]byte(c.Data))
	if err != nil {
		return fmt.Errorf("well-formed POT rejected: %v", err)
	}
	if err := sameEntries(f3.SortedEntry(), tmpl, nil, false); err != nil {
		return fmt.Errorf("reading a POT: %w", err)
	}
	if err := checkHeaders(f3, &c.Cat); err != nil {
		return fmt.Errorf("reading a POT: %w", err)
	}
	// saving a template as PO keeps every message, still untranslated
	pot3, err := potBytes(f3)
	if err != nil {
		return err
	}
	f4, err := readPotOwn(pot3)
	if err != nil {
		return fmt.Errorf("POT saved from a read POT is rejected: %v", err)
	}
	return sameEntries(f4.SortedEntry(), tmpl, nil, false)
}

func samePEntries(got []PEntry, want []Msg, cmts bool) error {
	by := map[string]*PEntry{}
	for i := range got {
		by[got[i].key()] = &got[i]
	}
	for i := range want {
		m := &want[i]
		e := by[m.key()]
		if e == nil {
			return fmt.Errorf("message (%s, %s) is missing", q(string(m.Ctxt)), q(string(m.ID)))
		}
		delete(by, m.key())
		te := e.entry()
		if !cmts {
			te.MsgCmts = nil
		} else {
			// the strict reader trims comments
			for j := range m.Cmts {
				if j < len(te.MsgCmts) && strings.Trim(string(m.Cmts[j]), " \t\r") == te.MsgCmts[j] {
					te.MsgCmts[j] = string(m.Cmts[j])
				}
			}
		}
		if err := sameEntry(te, m, cmts); err != nil {
			return err
		}
	}
	for _, e := range by {
		return fmt.Errorf("unexpected message (%s, %s) in line %d", q(string(e.Ctxt)), q(string(e.ID)), e.line)
	}
	return nil
}

func checkC30(c fileCase, o *Obs) error {
	labelTexts(&c.Cat, o)
	msgs := c.Cat.withHeader()
	if len(msgs) == 0 {
		return nil
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	f := c.Cat.file()
	po, err := poBytes(f)
	if err != nil {
		return err
	}
	pot, err := potBytes(f)
	if err != nil {
		return err
	}
	es, err := strictPO(po)
	if err != nil {
		return fmt.Errorf("saved PO breaks the GNU grammar: %v\n%s", err, clip(string(po), 1500))
	}
	exp := append([]Msg{}, msgs...)
	for i := range exp {
		if exp[i].Plural && len(exp[i].StrN) == 0 {
			exp[i].StrN = []S{""}
		}
	}
	for i := range es { // an untranslated plural may be written with any number of empty forms
		e := &es[i]
		if e.Plural && strings.Join(strs(e.StrN), "") == "" {
			for j := range exp {
				if exp[j].key() == e.key() && strings.Join(strs(exp[j].StrN), "") == "" && len(msgs[j].StrN) == 0 {
					exp[j].StrN = e.StrN
				}
			}
		}
	}
	if err := samePEntries(es, exp, true); err != nil {
		return fmt.Errorf("saved PO as a strict reader sees it: %w", err)
	}
	es, err = strictPO(pot)
	if err != nil {
		return fmt.Errorf("saved POT breaks the GNU grammar: %v\n%s", err, clip(string(pot), 1500))
	}
	if err := samePEntries(es, templateOf(msgs), true); err != nil {
		return fmt.Errorf("saved POT as a strict reader sees it: %w", err)
	}
	if c.Flag && msgfmtPath != "" {
		o.Label("msgfmt")
		data, err := msgfmt(o.dir, po)
		if err != nil {
			return fmt.Errorf("msgfmt rejects the saved PO: %v\n%s", err, clip(string(po), 1500))
		}
		mo, err := readMO(data)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		want := map[string]string{}
		for _, p := range moPairs(msgs) {
			if p.str != "" && p.str[0] != 0 {
				want[p.id] = p.str
			}
		}
		for _, p := range mo.pairs {
			if want[p.id] != p.str {
				return fmt.Errorf("msgfmt reads %s as %s, want %s", q(p.id), q(p.str), q(want[p.id]))
			}
			delete(want, p.id)
		}
		for id := range want {
			return fmt.Errorf("msgfmt does not find %s", q(id))
		}
		if data, err = msgfmt(o.dir, pot); err != nil {
			return fmt.Errorf("msgfmt rejects the saved POT: %v\n%s", err, clip(string(pot), 1500))
		}
	}
	return nil
}

func strs(in []S) (out []string) {
	for _, s := range in {
		out = append(out, string(s))
	}
	return
}

// ---------------------------------------------------------------- C11

type damageCase struct {
	Cat  Catalog
	Data S
	Rnd  []uint32 // replacement values
}

func checkC11(c damageCase, o *Obs) error {
	data := []byte(c.Data)
	mo, err := readMO(data)
	if err != nil {
		return fmt.Errorf("harness: built an invalid MO file: %v", err)
	}
	if _, err := readMoOwn(data); err != nil {
		return fmt.Errorf("the undamaged file is rejected: %v", err)
	}
	n := len(mo.pairs)
	size := len(data)
	mustFail := func(what string, d []byte) error {
		o.NT()
		o.Label(strings.Fields(what)[0])
		f, err := readMoOwn(d)
		if err == nil || f != nil {
			return fmt.Errorf("%s (%d of %d bytes): loaded anyway (err=%v)", what, len(d), size, err)
		}
		tr := t.NewTranslation("x")
		if err := loadOwn(tr.LoadMo, d); err == nil {
			return fmt.Errorf("%s: LoadMo succeeded", what)
		}
		if c.Cat.Lang != "" {
			if _, ok := tr.Get(c.Cat.Lang); ok {
				return fmt.Errorf("%s: LoadMo failed but bound the catalog", what)
			}
		}
		return nil
	}
	// end of the last byte that is really referred to
	need := 28
	if e := int(mo.oOff) + 8*n; n > 0 && e > need {
		need = e
	}
	if e := int(mo.tOff) + 8*n; n > 0 && e > need {
		need = e
	}
	for i := 0; i < n; i++ {
		for _, tab := range []uint32{mo.oOff, mo.tOff} {
			at := int(tab) + 8*i
			ln, off := int(mo.bo.Uint32(data[at:])), int(mo.bo.Uint32(data[at+4:]))
			if ln > 0 && off+ln > need {
				need = off + ln
			}
		}
	}
	step := 1
	if need > 1200 && !o.thorough {
		step = need/1200 + 1
	}
	for k := 0; k < need; k += step {
		if err := mustFail("truncated file", data[:k:k]); err != nil {
			return err
		}
	}
	if err := mustFail("truncated file", data[:need-1:need-1]); err != nil {
		return err
	}
	for i := 0; i < n && i < 40; i++ {
		for ti, tab := range []uint32{mo.oOff, mo.tOff} {
			at := int(tab) + 8*i
			ln, off := mo.bo.Uint32(data[at:]), mo.bo.Uint32(data[at+4:])
			put := func(what string, l, of uint32) error {
				if uint64(l)+uint64(of) <= uint64(size) {
					return nil
				}
				d := append([]byte{}, data...)
				mo.bo.PutUint32(d[at:], l)
				mo.bo.PutUint32(d[at+4:], of)
				return mustFail(fmt.Sprintf("%s of entry %d in table %d set to length %d, offset %d", what, i, ti, l, of), d)
			}
			for _, v := range append([]uint32{uint32(size), uint32(size) + 1, uint32(size) - ln + 1, 1 << 31, 1<<31 - 1, 1<<32 - 1, -ln, -off}, c.Rnd...) {
				if err := put("offset", ln, v); err != nil {
					return err
				}
				if err := put("length", v, off); err != nil {
					return err
				}
			}
		}
	}
	if n > 0 {
		for _, v := range append([]uint32{uint32(size), uint32(size) - uint32(8*n) + 1, 1<<32 - 1, 1 << 31, -uint32(8 * n)}, c.Rnd...) {
			if uint64(v)+8*uint64(n) <= uint64(size) {
				continue
			}
			for _, h := range []int{12, 16} {
				d := append([]byte{}, data...)
				mo.bo.PutUint32(d[h:], v)
				if err := mustFail(fmt.Sprintf("table offset at byte %d set to %d", h, v), d); err != nil {
					return err
				}
			}
		}
		for _, v := range append([]uint32{1<<32 - 1, 1 << 31, 1 << 29, uint32(size/8) + 1}, c.Rnd...) {
			if uint64(mo.oOff)+8*uint64(v) <= uint64(size) && uint64(mo.tOff)+8*uint64(v) <= uint64(size) {
				continue
			}
			d := append([]byte{}, data...)
			mo.bo.PutUint32(d[8:], v)
			if err := mustFail(fmt.Sprintf("count set to %d", v), d); err != nil {
				return err
			}
		}
	}
	for _, v := range append([]uint32{0, 0x950412df, 0x950412dd, 0x12de9504, 0x041295de, 1<<32 - 1}, c.Rnd...) {
		if v == 0x950412de || v == 0xde120495 {
			continue
		}
		d := append([]byte{}, data...)
		mo.bo.PutUint32(d, v)
		if err := mustFail(fmt.Sprintf("magic number set to %08x", v), d); err != nil {
			return err
		}
	}
	for _, v := range append([]uint32{2, 2 << 16, 0xffff, 0xffff << 16, 1<<16 | 2, 2<<16 | 1, 0x100, 0x1000000, 1<<32 - 1}, c.Rnd...) {
		if v>>16 <= 1 && v&0xffff <= 1 {
			continue
		}
		d := append([]byte{}, data...)
		mo.bo.PutUint32(d[4:], v)
		if err := mustFail(fmt.Sprintf("revision set to %08x", v), d); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	poOpt := CatOpt{Text: TextOpt{CR: true, Bad: true, Big: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true}
	register(Prop{
		ID: "C05", Quick: 60000, Thorough: 4800000, Silent: true,
		Technique: "property-based testing: independent PO writer with random layouts vs ReadPo",
		Level:     "exploration",
		Note:      "An independent writer renders known messages in random legal layouts (wrapping, escapes, indentation, comments, obsolete entries, line ends); the loaded entry list, headers and lookups must be exactly those messages. Trusts the writer's reading of the PO grammar.",
		Rule:      "random catalogs (contexts, plurals, wrap-boundary and >64 KiB texts, control and invalid bytes) in random layouts; non-trivial = at least one message besides the header",
		Assume:    []string{"no fuzzy entries, duplicates, or empty msgctxt", "no raw CR or raw invalid UTF-8 inside strings (they occur escaped)", "texts contain neither NUL nor EOT", "one string per line"},
	}, func(rt *rapid.T) fileCase {
		o := poOpt
		o.Cmts = chance(rt, "owncmts", 40)
		c := fileCase{Cat: catalog(rt, o)}
		sometimesMany(rt, &c.Cat, 1)
		msgs := c.Cat.withHeader()
		if len(msgs) > 1 && !c.Cat.NoHdr && chance(rt, "hdrpos", 5) { // the header need not come first
			i := intn(rt, "hdrpos.i", 1, len(msgs)-1)
			msgs[0], msgs[i] = msgs[i], msgs[0]
		}
		c.Data = S(poText(rt, msgs))
		c.Probes = probes(rt, c.Cat.Msgs, poOpt.Text, 0, 4)
		return c
	}, checkC05, bigCases("70000 messages", "18 MiB text", "2 MiB keys", "many lines"))

	c06 := poOpt
	c06.Text.NUL, c06.Text.EOT, c06.Cmts = true, true, true
	register(Prop{
		ID: "C06", Quick: 70000, Thorough: 5600000, Silent: true,
		Technique: "property-based round trip SaveAsPo/ReadPo with a message model",
		Level:     "exploration",
		Note:      "save, read, compare every field with the original messages, save again, compare bytes; catalogs come from the API and from PO files in random layouts.",
		Rule:      "random catalogs with every control character, NUL, invalid UTF-8, wrap-boundary and >64 KiB texts and all comment kinds; non-trivial = at least one message besides the header",
		Assume:    []string{"untranslated messages may be dropped by reading (checked to change no lookup)", "an entirely empty catalog is not a file"},
	}, func(rt *rapid.T) fileCase {
		o := c06
		o.Untrans = chance(rt, "untranscat", 20)
		c := fileCase{Cat: catalog(rt, o)}
		sometimesMany(rt, &c.Cat, 1)
		if chance(rt, "frompo", 30) {
			cc := c.Cat
			c.Data = S(poText(rt, cc.withHeader()))
		}
		for _, p := range probes(rt, c.Cat.Msgs, o.Text, 0, 3) {
			if !strings.Contains(string(p.Ctxt+p.ID), "\x04") { // EOT separates context and id in keys
				c.Probes = append(c.Probes, p)
			}
		}
		return c
	}, checkC06, bigCases("70000 messages", "18 MiB text", "2 MiB keys", "many lines"))

	moOpt := CatOpt{Text: TextOpt{CR: true, Bad: true, Big: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true}
	register(Prop{
		ID: "C07", Quick: 70000, Thorough: 5600000, Silent: true,
		Technique: "property-based testing: independent MO writer with random layouts vs ReadMo",
		Level:     "exploration",
		Note:      "An independent encoder places tables and strings anywhere (both byte orders, revisions, sharing, padding, hash table); the loaded entries, headers and lookups must be exactly the messages. Trusts the encoder, which is itself checked by a strict reader.",
		Rule:      "random catalogs x random layout; non-trivial = at least one message besides the header",
		Assume:    []string{"texts contain neither NUL nor EOT", "no system-dependent strings (revision x.1 segments are empty)"},
	}, func(rt *rapid.T) fileCase {
		c := fileCase{Cat: catalog(rt, moOpt)}
		sometimesMany(rt, &c.Cat, 2)
		c.Data = S(drawMO(rt, c.Cat.withHeader()))
		c.Probes = probes(rt, c.Cat.Msgs, moOpt.Text, 0, 4)
		return c
	}, checkC07, bigCases("70000 messages", "18 MiB text", "2 MiB keys"))

	register(Prop{
		ID: "C08", Quick: 100000, Thorough: 8000000, Silent: true,
		Technique: "property-based testing: SaveAsMo vs an independent strict MO reader",
		Level:     "exploration",
		Note:      "The saved bytes are decoded by an independent strict reader (bounds, NUL termination, uniqueness, order) and compared with the catalog; the library's own reader must give the same lookups. Finding KF5 (order) is recognised only when the order equals the entry list's.",
		Rule:      "random catalogs, some with more than 255 entries or texts beyond 64 KiB; non-trivial = at least one message besides the header",
		Assume:    []string{"texts contain neither NUL nor EOT, which the format uses as separators"},
	}, func(rt *rapid.T) fileCase {
		o := moOpt
		o.Cmts = true
		c := fileCase{Cat: catalog(rt, o)}
		sometimesMany(rt, &c.Cat, 2)
		c.Probes = probes(rt, c.Cat.Msgs, o.Text, 0, 4)
		return c
	}, checkC08, func() []fileCase {
		return append([]fileCase{{Cat: Catalog{Lang: "zh_CN", Rule: &commonRules[1], Msgs: []Msg{{ID: "b", Str: "B"}, {Ctxt: "a", ID: "x", Str: "X"}}}}}, bigCases("70000 messages", "18 MiB text", "2 MiB keys")()...)
	})

	c09 := CatOpt{Text: TextOpt{CR: true, Bad: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true, Cmts: true}
	register(Prop{
		ID: "C09", Quick: 40000, Thorough: 3200000, Silent: true,
		Technique: "differential property-based testing across PO, own MO, independent MO and msgfmt MO",
		Level:     "exploration",
		Note:      "The same catalog in up to five forms must answer every lookup alike, with and without arguments, and report the same language and headers. GNU msgfmt takes part in a fraction of the cases when it is installed.",
		Rule:      "random catalogs with untranslated, partly translated and absent messages; non-trivial = at least one message besides the header",
		Assume:    []string{"texts contain neither NUL nor EOT", "no fuzzy entries"},
	}, func(rt *rapid.T) fileCase {
		o := c09
		c := fileCase{}
		if chance(rt, "msgfmt", 5) {
			c.Flag = true
			o.NoHdr, o.Text.Bad = false, false
		}
		c.Cat = catalog(rt, o)
		if c.Flag {
			msgfmtSafe(&c.Cat)
			// msgfmt drops a plural message whose first form is empty
			for i := range c.Cat.Msgs {
				if m := &c.Cat.Msgs[i]; len(m.StrN) > 0 && m.StrN[0] == "" {
					m.StrN[0] = "first"
				}
			}
			c.Data = S(plainPo(c.Cat.withHeader()))
		} else {
			c.Data = S(poText(rt, c.Cat.withHeader()))
		}
		ms := c.Cat.withHeader()
		if chance(rt, "mo.drop", 60) { // compilers leave untranslated messages out
			var kept []Msg
			for _, m := range ms {
				if m.translated() {
					kept = append(kept, m)
				}
			}
			ms = kept
		}
		c.Data2 = S(drawMO(rt, ms))
		c.Args = intn(rt, "args", 0, 6)
		c.Probes = probes(rt, c.Cat.Msgs, o.Text, 1, 6)
		return c
	}, checkC09, bigCases("70000 messages", "18 MiB text", "2 MiB keys"))

	register(Prop{
		ID: "C11", Quick: 15000, Thorough: 1200000, Silent: true,
		Technique: "exhaustive truncation and table-damage enumeration over generated MO files",
		Level:     "fault_enumeration",
		Note:      "For every generated valid file: every truncation point (sampled above 1200 bytes in the quick tier) that loses referenced bytes, every table entry redirected outside the file, wrong table offsets, counts, magic numbers and revisions; all must be rejected without a catalog.",
		Rule:      "random small catalogs x random layout x all damages; non-trivial = at least one damage applied (every case)",
		Assume:    []string{"losing only padding, the hash table or a final NUL terminator is not counted as damage"},
	}, func(rt *rapid.T) damageCase {
		o := CatOpt{Text: TextOpt{Short: true}, MaxMsgs: 4, AnyRule: true, Untrans: true, NoHdr: true}
		c := damageCase{Cat: catalog(rt, o)}
		c.Data = S(drawMO(rt, c.Cat.withHeader()))
		for i := intn(rt, "rnd", 0, 2); i > 0; i-- {
			c.Rnd = append(c.Rnd, rapid.Uint32().Draw(rt, "rnd.v"))
		}
		return c
	}, checkC11, func() []damageCase {
		cat := Catalog{Lang: "zh_CN", Rule: &commonRules[1], Msgs: []Msg{{ID: "a", Str: "A"}, {ID: "u"}, {Ctxt: "c", ID: "i", Plural: true, ID2: "p", StrN: []S{"f0", "f1"}}}}
		var out []damageCase
		for ord := 0; ord < 6; ord++ {
			for _, big := range []bool{false, true} {
				out = append(out, damageCase{Cat: cat, Data: S(buildMO(nil, moPairs(cat.withHeader()), moLayout{Order: ord, Big: big}))})
			}
		}
		return out
	})

	c24 := c06
	register(Prop{
		ID: "C24", Quick: 50000, Thorough: 4000000, Silent: true,
		Technique: "property-based round trip SaveAsPot/ReadPot plus an independent strict reader",
		Level:     "exploration",
		Note:      "The saved POT is read by an independent strict reader and by ReadPot and compared with the template derived from the model; POT files in random layouts with comments anywhere must be read completely.",
		Rule:      "random catalogs with all comment kinds, untranslated and plural messages; non-trivial = at least one message besides the header",
		Assume:    []string{"the header entry, where there is one, has text"},
	}, func(rt *rapid.T) fileCase {
		c := fileCase{Cat: catalog(rt, c24)}
		sometimesMany(rt, &c.Cat, 1)
		msgs := templateOf(c.Cat.withHeader())
		for i := range msgs {
			msgs[i].Cmts = nil
		}
		c.Data = S(poText(rt, msgs))
		return c
	}, checkC24, nil)

	c30 := CatOpt{Text: TextOpt{CR: true, Bad: true, Big: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true, Cmts: true}
	register(Prop{
		ID: "C30", Quick: 80000, Thorough: 6400000, Silent: true,
		Technique: "property-based testing of saved PO/POT against an independent strict GNU reader and msgfmt",
		Level:     "exploration",
		Note:      "Every saved file is parsed by an independent reader of the GNU grammar (C escapes only, complete entries) and, for a fraction of the cases when msgfmt is installed, by GNU msgfmt; the texts recovered must be the catalog's.",
		Rule:      "random catalogs with control characters, private and invisible Unicode, wrap-boundary texts, untranslated messages; non-trivial = at least one message besides the header",
		Assume:    []string{"texts contain no NUL (C strings)", "msgfmt cases carry a UTF-8 charset header, no obsolete/previous comments and valid UTF-8"},
	}, func(rt *rapid.T) fileCase {
		o := c30
		c := fileCase{}
		if chance(rt, "msgfmt", 6) {
			c.Flag = true
			o.NoHdr, o.Text.Bad = false, false
		}
		c.Cat = catalog(rt, o)
		if c.Flag {
			msgfmtSafe(&c.Cat)
		}
		return c
	}, checkC30, nil)
}
