package main

// The reference model of catalogs and lookups.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
)

// defaultPlural is the source text of a plural lookup.
func defaultPlural(id, id2 string, n int64) string {
	if id2 == "" || n == 1 {
		return id
	}
	return id2
}

// model answers lookups for one catalog.
type model struct {
	cat  *Catalog
	msgs map[[2]string]*Msg
}

func newModel(c *Catalog) *model {
	m := &model{cat: c, msgs: map[[2]string]*Msg{}}
	all := c.withHeader()
	for i := range all {
		x := all[i]
		m.msgs[[2]string{string(x.Ctxt), string(x.ID)}] = &x
	}
	return m
}

// x is the text of a singular lookup; ok is false when the pair is a plural
// message, for which a singular lookup is not specified.
func (m *model) x(ctxt, id string) (s string, ok bool) {
	e := m.msgs[[2]string{ctxt, id}]
	if e == nil {
		return id, true
	}
	if e.Plural {
		return "", false
	}
	if e.Str == "" {
		return id, true
	}
	return string(e.Str), true
}

// xn is the text of a plural lookup.
func (m *model) xn(ctxt, id, id2 string, n int64) string {
	e := m.msgs[[2]string{ctxt, id}]
	if e == nil {
		return defaultPlural(id, id2, n)
	}
	if !e.Plural {
		if e.Str != "" {
			return string(e.Str)
		}
		return defaultPlural(id, id2, n)
	}
	idx, ok := m.formIndex(n)
	if !ok || idx >= len(e.StrN) || e.StrN[idx] == "" {
		return defaultPlural(id, id2, n)
	}
	return string(e.StrN[idx])
}

// formIndex is the form the rule names for n, when that is a declared form.
func (m *model) formIndex(n int64) (int, bool) {
	r := m.cat.Rule
	if r == nil {
		return 0, false
	}
	v, st := evalRule(r.Expr, n)
	if st != stOK || v < 0 || v >= int64(r.N) {
		return 0, false
	}
	return int(v), true
}

// headers parses the header text: first "Key: value" per key, trimmed.
func headerFields(text string) map[string]string {
	out := map[string]string{}
	for _, l := range strings.Split(text, "\n") {
		k, v, ok := strings.Cut(l, ": ")
		if !ok {
			continue
		}
		k, v = strings.TrimSpace(k), strings.TrimSpace(v)
		if _, dup := out[k]; !dup {
			out[k] = v
		}
	}
	return out
}

// ---------------------------------------------------------------- library objects

func (m *Msg) entry() *translator.Entry {
	e := &translator.Entry{MsgCtxt: string(m.Ctxt), MsgID: string(m.ID), IsPlural: m.Plural, MsgID2: string(m.ID2), MsgStr: string(m.Str)}
	for _, c := range m.Cmts {
		e.MsgCmts = append(e.MsgCmts, string(c))
	}
	for _, s := range m.StrN {
		e.MsgStrN = append(e.MsgStrN, string(s))
	}
	return e
}

// file builds the library's catalog through AddEntry.
func (c *Catalog) file() *translator.File {
	f := new(translator.File)
	for _, m := range c.withHeader() {
		f.AddEntry(m.entry())
	}
	return f
}

func saveBytes(save func(w *bytes.Buffer) error) ([]byte, error) {
	var b bytes.Buffer
	err := save(&b)
	return b.Bytes(), err
}

func poBytes(f *translator.File) ([]byte, error) {
	return saveBytes(func(w *bytes.Buffer) error { return f.SaveAsPo(w) })
}
func moBytes(f *translator.File) ([]byte, error) {
	return saveBytes(func(w *bytes.Buffer) error { return f.SaveAsMo(w) })
}
func potBytes(f *translator.File) ([]byte, error) {
	return saveBytes(func(w *bytes.Buffer) error { return f.SaveAsPot(w) })
}

// ---------------------------------------------------------------- probes

// Probe is one lookup.
type Probe struct {
	Plural bool `json:",omitempty"`
	Ctxt   S    `json:",omitempty"`
	ID     S    `json:",omitempty"`
	ID2    S    `json:",omitempty"`
	N      int64
}

func replacer(ps ...string) func(string) string { return strings.NewReplacer(ps...).Replace }

// lookalikes turn a text into another one that a lax comparison takes for the same.
var lookalikes = []func(string) string{
	replacer("\r\n", "\n"), replacer("\n", "\r\n"), replacer("\r", ""), replacer("\n", " "), replacer("\n", "\\n"), replacer("\\n", "\n"),
	replacer("é", "e\u0301", "ü", "u\u0308"), replacer("e\u0301", "é"), replacer("é", "e", "ß", "ss"), replacer("ß", "SS"),
	replacer("\u00a0", " ", "\u3000", " ", "\t", " "), replacer(" ", "\u00a0"), replacer(" ", "\t"), replacer("  ", " "), replacer(" ", "  "), replacer(" ", ""),
	replacer("%d", "%s"), replacer("%", "%%"), replacer("%%", "%"), replacer("\u200b", "", "\u200d", "", "\u00ad", "", "\ufeff", ""), replacer("\"", "'", "'", "\""), replacer("\\", "", "\"", ""),
	replacer(".", "", ",", "", ":", "", "|", ""), strings.ToLower, strings.ToTitle,
	func(s string) string { return strings.ToValidUTF8(s, "\ufffd") }, func(s string) string { return strings.ToValidUTF8(s, "") },
	func(s string) string { return strings.Join(strings.Fields(s), " ") }, func(s string) string { return strings.Trim(s, ".:!?… ") },
	func(s string) string { // one byte in the middle
		if i := len(s) / 2; i < len(s) && s[i] < 0x80 && s[i] >= ' ' {
			return s[:i] + string(s[i]^1|0x20) + s[i+1:]
		}
		return s
	},
	func(s string) string {
		if len(s) > 16 {
			return s[:len(s)/2]
		}
		return s
	},
}

// nearMisses are keys resembling (ctxt, id) that are different keys.
func nearMisses(ctxt, id string) [][2]string {
	out := [][2]string{
		{"", id}, {ctxt, ""}, {id, ctxt}, {ctxt, id + " "}, {ctxt, " " + id}, {ctxt + " ", id}, {ctxt, strings.ToUpper(id)}, {ctxt, strings.TrimSpace(id)},
		{ctxt, id + "\n"}, {ctxt, strings.TrimSuffix(id, "\n")}, {"x" + ctxt, id}, {ctxt, id + "x"}, {ctxt + id, ""}, {"", ctxt + id}, {"", ctxt + "|" + id},
	}
	for _, f := range lookalikes {
		if s := f(id); s != id {
			out = append(out, [2]string{ctxt, s})
		}
		if s := f(ctxt); s != ctxt {
			out = append(out, [2]string{s, id})
		}
	}
	if len(id) > 1 {
		out = append(out, [2]string{ctxt + id[:1], id[1:]}, [2]string{ctxt, id[:len(id)-1]}, [2]string{ctxt, id[1:]})
	}
	if len(ctxt) > 1 {
		out = append(out, [2]string{ctxt[:len(ctxt)-1], ctxt[len(ctxt)-1:] + id}, [2]string{ctxt[:1], ctxt[1:] + id})
	}
	return out
}

// probe draws a lookup aimed at the messages ms (hit, near miss, or anything).
func probe(rt *rapid.T, ms []Msg, o TextOpt) Probe {
	var p Probe
	p.Plural = chance(rt, "p.plural", 60)
	if len(ms) == 0 || chance(rt, "p.random", 8) {
		p.Ctxt, p.ID = text(rt, "p.ctxt", o), text(rt, "p.id", o)
	} else {
		m := rapid.SampledFrom(ms).Draw(rt, "p.msg")
		p.Ctxt, p.ID, p.ID2 = m.Ctxt, m.ID, m.ID2
		if chance(rt, "p.near", 25) {
			k := rapid.SampledFrom(nearMisses(string(m.Ctxt), string(m.ID))).Draw(rt, "p.near.k")
			p.Ctxt, p.ID = S(k[0]), S(k[1])
		}
	}
	switch intn(rt, "p.id2", 0, 5) {
	case 0:
		p.ID2 = ""
	case 1:
		p.ID2 = text(rt, "p.id2t", o)
	case 2:
		if p.ID2 == "" {
			p.ID2 = "%d things"
		}
	}
	p.N = count(rt)
	return p
}

func probes(rt *rapid.T, ms []Msg, o TextOpt, lo, hi int) []Probe {
	var ps []Probe
	for i := intn(rt, "probes", lo, hi); i > 0; i-- {
		ps = append(ps, probe(rt, ms, o))
	}
	return ps
}

// lookups is what both a translator.File and a Translations offer.
type lookups interface {
	X(ctxt, id string, args ...any) string
	XN64(ctxt, id, id2 string, n int64, args ...any) string
}

// ask runs the probe.
func (p *Probe) ask(l lookups, args ...any) string {
	if p.Plural {
		return l.XN64(string(p.Ctxt), string(p.ID), string(p.ID2), p.N, args...)
	}
	return l.X(string(p.Ctxt), string(p.ID), args...)
}

// short asks the same through the shorter entry points that can express the lookup.
func (p *Probe) short(ts *t.Translations) map[string]string {
	out := map[string]string{}
	x, id, id2, n := string(p.Ctxt), string(p.ID), string(p.ID2), p.N
	switch {
	case !p.Plural && x == "":
		out["T"] = ts.T(id)
	case p.Plural:
		out["XN"] = ts.XN(x, id, id2, int(n))
		if id2 == "" {
			out["XN1"], out["XN1_64"] = ts.XN1(x, id, int(n)), ts.XN1_64(x, id, n)
		}
		if x == "" {
			out["N"], out["N64"] = ts.N(id, id2, int(n)), ts.N64(id, id2, n)
			if id2 == "" {
				out["N1"], out["N1_64"] = ts.N1(id, int(n)), ts.N1_64(id, n)
			}
		}
	}
	return out
}

// want is the model's answer; ok is false for a singular lookup of a plural message.
func (p *Probe) want(m *model) (string, bool) {
	if p.Plural {
		return m.xn(string(p.Ctxt), string(p.ID), string(p.ID2), p.N), true
	}
	return m.x(string(p.Ctxt), string(p.ID))
}

func (p *Probe) source() string {
	if p.Plural {
		return defaultPlural(string(p.ID), string(p.ID2), p.N)
	}
	return string(p.ID)
}

func (p Probe) String() string {
	if p.Plural {
		return fmt.Sprintf("XN64(%q,%q,%q,%d)", clip(string(p.Ctxt), 80), clip(string(p.ID), 80), clip(string(p.ID2), 80), p.N)
	}
	return fmt.Sprintf("X(%q,%q)", clip(string(p.Ctxt), 80), clip(string(p.ID), 80))
}

func q(s string) string { return fmt.Sprintf("%q", clip(s, 300)) }

// checkLookups compares every probe, every message and its near misses with the model.
func checkLookups(what string, l lookups, m *model, ps []Probe, o *Obs) error {
	for _, p := range ps {
		want, ok := p.want(m)
		if !ok {
			continue
		}
		if got := p.ask(l); got != want {
			return fmt.Errorf("%s: %v = %s, want %s", what, p, q(got), q(want))
		}
		if !strings.Contains(want, "%") {
			// nothing to format: arguments must not matter
			args := argPool[:1+len(p.ID)%6]
			if got := p.ask(l, args...); got != want {
				return fmt.Errorf("%s: %v with %d arguments = %s, want %s", what, p, len(args), q(got), q(want))
			}
		}
		if ts, ok := l.(*t.Translations); ok {
			for name, got := range p.short(ts) {
				if got != want {
					return fmt.Errorf("%s: %v through %s = %s, want %s", what, p, name, q(got), q(want))
				}
			}
		}
		if want != p.source() && o != nil {
			o.NT()
			o.Label("hit")
		}
	}
	return nil
}

// allProbes covers every message of the catalog.
func allProbes(c *Catalog, ns ...int64) []Probe {
	var ps []Probe
	for _, m := range c.withHeader() {
		if m.Plural {
			for _, n := range ns {
				ps = append(ps, Probe{Plural: true, Ctxt: m.Ctxt, ID: m.ID, ID2: m.ID2, N: n})
			}
		} else {
			ps = append(ps, Probe{Ctxt: m.Ctxt, ID: m.ID})
		}
	}
	return ps
}

// sameEntries compares a loaded catalog with the expected messages: all of
// must, and nothing that is neither in must nor in may.
func sameEntries(got []*translator.Entry, must []Msg, may []Msg, cmts bool) error {
	byKey := map[string]*translator.Entry{}
	for _, e := range got {
		k := e.MsgCtxt + "\x04" + e.MsgID
		if byKey[k] != nil {
			return fmt.Errorf("message (%q, %q) is listed twice", e.MsgCtxt, e.MsgID)
		}
		byKey[k] = e
	}
	for i := range must {
		m := &must[i]
		e := byKey[m.key()]
		if e == nil {
			return fmt.Errorf("message (%s, %s) is missing", q(string(m.Ctxt)), q(string(m.ID)))
		}
		if err := sameEntry(e, m, cmts); err != nil {
			return err
		}
		delete(byKey, m.key())
	}
	for i := range may {
		m := &may[i]
		if e := byKey[m.key()]; e != nil {
			if m.Plural && allEmpty(m.StrN) && len(e.MsgStrN) > 0 && strings.Join(e.MsgStrN, "") == "" {
				delete(byKey, m.key()) // any number of empty forms
				continue
			}
			if err := sameEntry(e, m, cmts); err != nil {
				return err
			}
			delete(byKey, m.key())
		}
	}
	for _, e := range byKey {
		return fmt.Errorf("unexpected message (%s, %s) = %s %q", q(e.MsgCtxt), q(e.MsgID), q(e.MsgStr), e.MsgStrN)
	}
	return nil
}

func sameEntry(e *translator.Entry, m *Msg, cmts bool) error {
	bad := func(field string, got, want any) error {
		return fmt.Errorf("message (%s, %s): %s is %s, want %s", q(string(m.Ctxt)), q(string(m.ID)), field, clip(fmt.Sprintf("%q", got), 400), clip(fmt.Sprintf("%q", want), 400))
	}
	if e.MsgCtxt != string(m.Ctxt) {
		return bad("context", e.MsgCtxt, m.Ctxt)
	}
	if e.MsgID != string(m.ID) {
		return bad("id", e.MsgID, m.ID)
	}
	if e.IsPlural != m.Plural {
		return bad("plural flag", fmt.Sprint(e.IsPlural), fmt.Sprint(m.Plural))
	}
	if e.MsgID2 != string(m.ID2) {
		return bad("plural id", e.MsgID2, m.ID2)
	}
	if e.MsgStr != string(m.Str) {
		return bad("translation", e.MsgStr, m.Str)
	}
	if len(e.MsgStrN) != len(m.StrN) {
		return bad("forms", e.MsgStrN, m.StrN)
	}
	for i := range m.StrN {
		if e.MsgStrN[i] != string(m.StrN[i]) {
			return bad(fmt.Sprintf("form %d", i), e.MsgStrN[i], m.StrN[i])
		}
	}
	if cmts {
		if len(e.MsgCmts) != len(m.Cmts) {
			return bad("comments", e.MsgCmts, m.Cmts)
		}
		for i := range m.Cmts {
			if e.MsgCmts[i] != string(m.Cmts[i]) {
				return bad("comment", e.MsgCmts[i], m.Cmts[i])
			}
		}
	}
	return nil
}

func allEmpty(ss []S) bool {
	for _, s := range ss {
		if s != "" {
			return false
		}
	}
	return true
}

func (p *Probe) nSource() string { return defaultPlural(string(p.ID), string(p.ID2), p.N) }

// The readers take a private copy of the bytes and must neither change it nor keep it:
// callers reuse their buffers.

func readOwn(read func([]byte) (*translator.File, error), data []byte) (*translator.File, error) {
	var f *translator.File
	err := loadOwn(func(b []byte) (err error) {
		f, err = read(b)
		return
	}, data)
	return f, err
}

func loadOwn(load func([]byte) error, data []byte) error {
	buf := append(make([]byte, 0, len(data)+8), data...)
	err := load(buf)
	if !bytes.Equal(buf, data) {
		return fmt.Errorf("reading changes the caller's bytes (err=%v)", err)
	}
	buf = buf[:cap(buf)]
	for i := range buf {
		buf[i] = '#'
	}
	return err
}

func readPoOwn(data []byte) (*translator.File, error)  { return readOwn(translator.ReadPo, data) }
func readPotOwn(data []byte) (*translator.File, error) { return readOwn(translator.ReadPot, data) }
func readMoOwn(data []byte) (*translator.File, error)  { return readOwn(translator.ReadMo, data) }
