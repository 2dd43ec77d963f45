package main

// C14, C15, C16, C20: state, views, entry points, purity.

import (
	"context"
	"fmt"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- state model

// mstate is the model of one instance: domain -> language -> mark of the catalog.
type mstate struct {
	locale, domain, source string
	doms                   map[string]map[string]string
}

func newState() *mstate {
	return &mstate{locale: "en_US", domain: "default", source: "en_US", doms: map[string]map[string]string{}}
}

func (m *mstate) clone() *mstate {
	c := *m
	c.doms = map[string]map[string]string{}
	for k, v := range m.doms {
		c.doms[k] = v // catalogs are replaced as a whole, never changed
	}
	return &c
}

var stateDomains = []string{"default", "a", "b", "", "Default", "default "}
var stateLocales = []string{"en_US", "zh_CN", "de_DE", "fr_FR"}

// otherLocales are the languages of catalogs beyond those the histories select.
var otherLocales = func() (out []string) {
	for l, r := range likely {
		if n := l + "_" + r; !slices.Contains(stateLocales, n) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return
}()

// Op is one operation on a node.
type Op struct {
	K    string // bind bindbad load remove clear domain locale source; derive: D L DL Global ctx setglobal
	Node int
	Dom  string              `json:",omitempty"`
	Lang string              `json:",omitempty"`
	Norm string              `json:",omitempty"`
	Tree map[string]treeLang `json:",omitempty"`
	Ctx  []ctxSet            `json:",omitempty"`
	Path bool                `json:",omitempty"`
	// Langless adds a valid catalog that names no language: it loads, but answers for none.
	Langless bool `json:",omitempty"`
	// Extra further domains get the catalogs too.
	Extra int `json:",omitempty"`
}

type treeLang struct {
	Spell string
	Mark  string
	MO    bool
}

type ctxSet struct {
	Lang bool
	Val  string
	Norm string
}

func drawOpTree(rt *rapid.T, i int) map[string]treeLang {
	tr := map[string]treeLang{}
	for j := intn(rt, "tree.n", 1, 3); j > 0; j-- {
		l := pick(rt, "tree.lang", stateLocales...)
		tr[l] = treeLang{Spell: spelling(rt, l), Mark: fmt.Sprintf("t%d-%s", i, l), MO: chance(rt, "tree.mo", 40)}
	}
	if chance(rt, "tree.many", 10) {
		for j := size(rt, "tree.extra", 1, 6, 24); j > 0; j-- {
			l := pick(rt, "tree.other", otherLocales...)
			if _, ok := tr[l]; !ok {
				tr[l] = treeLang{Spell: spelling(rt, l), Mark: fmt.Sprintf("t%d-%s", i, l), MO: chance(rt, "tree.mo", 40)}
			}
		}
	}
	return tr
}

func opFS(tr map[string]treeLang, langless bool) fstest.MapFS {
	m := fstest.MapFS{}
	if langless {
		m["langless.po"] = &fstest.MapFile{Data: []byte(plainPo(treeCatalog("", "langless").withHeader()))}
	}
	for l, x := range tr {
		msgs := treeCatalog(x.Spell, S(x.Mark)).withHeader()
		if x.MO {
			m[l+".mo"] = &fstest.MapFile{Data: plainMO(msgs)}
		} else {
			m["d/"+l+".po"] = &fstest.MapFile{Data: []byte(plainPo(msgs))}
		}
	}
	return m
}

func badFS(i int) fs.FS {
	switch i % 3 {
	case 0:
		return fstest.MapFS{}
	case 1:
		return fstest.MapFS{"x.po": {Data: []byte("garbage")}, "y.mo": {Data: []byte("garbage")}, "z.txt": {Data: []byte(plainPo(treeCatalog("zh_CN", "z").withHeader()))}}
	}
	return os.DirFS("/nonexistent/verif")
}

func drawLang(rt *rapid.T, op *Op) {
	op.Norm = pick(rt, "lang", stateLocales...)
	if chance(rt, "lang.other", 8) {
		op.Norm = pick(rt, "lang.o", otherLocales...)
	}
	op.Lang = spelling(rt, op.Norm)
	if chance(rt, "deflang", 8) {
		op.Lang, op.Norm = "", "en_US"
	}
}

func drawOp(rt *rapid.T, i, nodes int, derive bool) Op {
	op := Op{Node: intn(rt, "node", 0, nodes-1)}
	kinds := []string{"bind", "bind", "locale", "domain", "bind", "bindbad", "remove", "clear", "source", "load"}
	if derive {
		kinds = append(kinds, "L", "D", "DL", "LD", "Global", "ctx", "setglobal", "L", "D", "ctx")
	}
	op.K = pick(rt, "op", kinds...)
	op.Dom = pick(rt, "dom", stateDomains...)
	if chance(rt, "dom.dict", 4) {
		if w := dictStr(rt, "dom", nil); w != "" {
			op.Dom = w
		}
	}
	switch op.K {
	case "bind", "load":
		op.Tree = drawOpTree(rt, i)
		op.Path = chance(rt, "path", 5)
		if op.K == "bind" && chance(rt, "extra", 6) {
			op.Extra = size(rt, "extra.n", 1, 12, 70)
		}
		if op.Langless = chance(rt, "langless", 15); op.Langless && chance(rt, "only", 50) {
			op.Tree = nil
		}
		if op.Dom == "" {
			op.Dom = "a"
		}
	case "bindbad":
		if op.Dom == "" {
			op.Dom = "b"
		}
	case "locale", "L", "DL", "LD":
		drawLang(rt, &op)
	case "source":
		op.Norm = pick(rt, "lang", stateLocales...)
		op.Lang = spelling(rt, op.Norm)
	case "ctx":
		for j := intn(rt, "ctx.n", 0, 3); j > 0; j-- {
			s := ctxSet{Lang: chance(rt, "ctx.lang", 60)}
			if s.Lang {
				var l Op
				drawLang(rt, &l)
				s.Norm, s.Val = l.Norm, l.Lang
			} else {
				s.Val = pick(rt, "dom", stateDomains...)
			}
			op.Ctx = append(op.Ctx, s)
		}
	}
	return op
}

// inst is what both *t.Translations and the package offer.
type inst interface {
	BindFS(string, fs.FS)
	RemoveDomain(string) bool
	ClearDomains()
	SetDomain(string)
	SetLocale(string)
	SetSourceCodeLocale(string)
	Domain() string
	Domains() []string
	HasDomain(string) bool
	Locale() string
	Locales() []string
	SourceCodeLocale() string
	UsedLocale() string
	MostMatchLocale() string
	X(string, string, ...any) string
	XN64(string, string, string, int64, ...any) string
	T(string, ...any) string
	D(string) *t.Translations
	L(string) *t.Translations
}

// pkg is the package-level API as an inst.
type pkg struct{}

func (pkg) BindFS(d string, f fs.FS)       { t.BindFS(d, f) }
func (pkg) RemoveDomain(d string) bool     { return t.RemoveDomain(d) }
func (pkg) ClearDomains()                  { t.ClearDomains() }
func (pkg) SetDomain(d string)             { t.SetDomain(d) }
func (pkg) SetLocale(l string)             { t.SetLocale(l) }
func (pkg) SetSourceCodeLocale(l string)   { t.SetSourceCodeLocale(l) }
func (pkg) Domain() string                 { return t.Domain() }
func (pkg) Domains() []string              { return t.Domains() }
func (pkg) HasDomain(d string) bool        { return t.HasDomain(d) }
func (pkg) Locale() string                 { return t.Locale() }
func (pkg) Locales() []string              { return t.Locales() }
func (pkg) SourceCodeLocale() string       { return t.SourceCodeLocale() }
func (pkg) UsedLocale() string             { return t.UsedLocale() }
func (pkg) MostMatchLocale() string        { return t.MostMatchLocale() }
func (pkg) D(d string) *t.Translations     { return t.D(d) }
func (pkg) L(l string) *t.Translations     { return t.L(l) }
func (pkg) T(id string, a ...any) string   { return t.T(id, a...) }
func (pkg) X(c, i string, a ...any) string { return t.X(c, i, a...) }
func (pkg) XN64(c, i, p string, n int64, a ...any) string {
	return t.XN64(c, i, p, n, a...)
}

// apply runs a mutating op on the instance and its model.
func (op *Op) apply(ts inst, m *mstate, dir string, i int) error {
	switch op.K {
	case "bind", "load":
		dom := op.Dom
		if op.K == "load" {
			dom = m.domain
			if dom == "" {
				return nil
			}
		}
		f := opFS(op.Tree, op.Langless)
		_, isPkg := ts.(pkg)
		switch {
		case op.Path && isPkg:
			root := filepath.Join(dir, fmt.Sprintf("op%d", i))
			for p, mf := range f {
				if err := os.MkdirAll(filepath.Dir(filepath.Join(root, p)), 0755); err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				if err := os.WriteFile(filepath.Join(root, p), mf.Data, 0644); err != nil {
					return fmt.Errorf("harness: %v", err)
				}
			}
			if op.K == "load" {
				t.Load(root)
			} else {
				t.Bind(dom, root)
			}
			os.RemoveAll(root)
		case op.K == "load" && isPkg:
			t.LoadFS(f)
		default:
			ts.BindFS(dom, f)
		}
		m.doms[dom] = map[string]string{}
		for l, x := range op.Tree {
			m.doms[dom][l] = x.Mark
		}
		for j := 0; j < op.Extra; j++ {
			d := fmt.Sprintf("x%02d", j)
			ts.BindFS(d, f)
			m.doms[d] = m.doms[dom]
		}
	case "bindbad":
		ts.BindFS(op.Dom, badFS(i))
	case "remove":
		_, had := m.doms[op.Dom]
		if got := ts.RemoveDomain(op.Dom); got != had {
			return fmt.Errorf("RemoveDomain(%q) = %v, want %v", op.Dom, got, had)
		}
		if had {
			delete(m.doms, op.Dom)
			if m.domain == op.Dom {
				m.domain = "default"
			}
		}
	case "clear":
		ts.ClearDomains()
		m.doms, m.domain = map[string]map[string]string{}, "default"
	case "domain":
		ts.SetDomain(op.Dom)
		m.domain = op.Dom
	case "locale":
		ts.SetLocale(op.Lang)
		m.locale = op.Norm
	case "source":
		ts.SetSourceCodeLocale(op.Lang)
		m.source = op.Norm
	}
	return nil
}

// verify compares every answer of the instance with the model.
func (m *mstate) verify(ts inst, deep bool) error {
	var doms []string
	for d := range m.doms {
		doms = append(doms, d)
	}
	sort.Strings(doms)
	got := ts.Domains()
	sort.Strings(got)
	if strings.Join(got, "\x00") != strings.Join(doms, "\x00") || len(got) != len(doms) {
		return fmt.Errorf("Domains() = %q, want %q", got, doms)
	}
	for _, d := range stateDomains {
		if _, has := m.doms[d]; ts.HasDomain(d) != has {
			return fmt.Errorf("HasDomain(%q) = %v", d, !has)
		}
	}
	if g := ts.Domain(); g != m.domain {
		return fmt.Errorf("Domain() = %q, want %q", g, m.domain)
	}
	if g := ts.Locale(); g != m.locale {
		return fmt.Errorf("Locale() = %q, want %q", g, m.locale)
	}
	if g := ts.SourceCodeLocale(); g != m.source {
		return fmt.Errorf("SourceCodeLocale() = %q, want %q", g, m.source)
	}
	cur := m.doms[m.domain]
	used := m.source
	if _, ok := cur[m.locale]; ok {
		used = m.locale
	}
	if g := ts.UsedLocale(); g != used {
		return fmt.Errorf("UsedLocale() = %q, want %q (domain %q, locale %s)", g, used, m.domain, m.locale)
	}
	set := map[string]bool{m.source: true}
	for l := range cur {
		set[l] = true
	}
	var ls []string
	for l := range set {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	if g := ts.Locales(); strings.Join(g, " ") != strings.Join(ls, " ") {
		return fmt.Errorf("Locales() = %v, want %v", g, ls)
	}
	mm := ts.MostMatchLocale()
	if !set[mm] {
		return fmt.Errorf("MostMatchLocale() = %q, not one of %v", mm, ls)
	}
	if set[m.locale] && mm != m.locale {
		return fmt.Errorf("MostMatchLocale() = %q although %q is supported", mm, m.locale)
	}
	if err := checkMark(ts, cur[m.locale]); err != nil {
		return fmt.Errorf("domain %q, locale %s: %w", m.domain, m.locale, err)
	}
	if deep {
		for i, d := range append(slices.Clone(stateDomains), doms...) {
			if i >= len(stateDomains) && slices.Contains(stateDomains, d) {
				continue
			}
			v := ts.D(d)
			ask := slices.Clone(stateLocales)
			for l := range m.doms[d] {
				if !slices.Contains(ask, l) {
					ask = append(ask, l)
				}
			}
			sort.Strings(ask[len(stateLocales):])
			for _, l := range ask {
				if err := checkMark(v.L(l), m.doms[d][l]); err != nil {
					return fmt.Errorf("D(%q).L(%s): %w", d, l, err)
				}
			}
		}
	}
	return nil
}

func checkMark(ts lookups, mark string) error {
	c := &Catalog{NoHdr: true}
	if mark != "" {
		c = treeCatalog("zh_CN", S(mark))
	}
	m := newModel(c)
	return checkLookups("lookup", ts, m, []Probe{{ID: "who"}, {Ctxt: "c", ID: "who"}, {Plural: true, ID: "n", ID2: "ns", N: 1}, {Plural: true, ID: "n", ID2: "ns", N: 7}, {ID: "absent"}}, nil)
}

// ---------------------------------------------------------------- C14

type historyCase struct {
	Pkg bool
	Ops []Op
}

func checkC14(c historyCase, o *Obs) error {
	ts := t.NewTranslations()
	var in inst = ts
	if c.Pkg {
		t.SetGlobal(ts)
		in = pkg{}
		o.Label("package-level")
	}
	m := newState()
	if err := m.verify(in, true); err != nil {
		return fmt.Errorf("new instance: %w", err)
	}
	binds := 0
	for i := range c.Ops {
		op := &c.Ops[i]
		o.Label(op.K)
		if op.K == "bind" || op.K == "load" {
			binds++
		}
		_, rebind := m.doms[op.Dom]
		o.LabelIf(op.K == "bind" && rebind, "rebind")
		o.LabelIf(op.K == "remove" && rebind && op.Dom == m.domain, "remove-current")
		if err := op.apply(in, m, o.dir, i); err != nil {
			return fmt.Errorf("op %d %s: %w", i, op.K, err)
		}
		if err := m.verify(in, i%3 == 2 || i == len(c.Ops)-1); err != nil {
			return fmt.Errorf("after op %d (%s %q %q): %w", i, op.K, op.Dom, op.Lang, err)
		}
	}
	if binds > 0 && len(c.Ops) > 2 {
		o.NT()
	}
	return nil
}

// ---------------------------------------------------------------- C15

type node struct {
	ts *t.Translations
	m  *mstate
}

func checkC15(c historyCase, o *Obs) error {
	g := t.NewTranslations()
	t.SetGlobal(g)
	nodes := []node{{g, newState()}, {t.NewTranslations(), newState()}}
	global := 0
	derived := false
	all := func(deep bool) error {
		if err := nodes[global].m.verify(pkg{}, deep); err != nil {
			return fmt.Errorf("global instance: %w", err)
		}
		for i, n := range nodes {
			if err := n.m.verify(n.ts, deep && i >= len(nodes)-3); err != nil {
				return fmt.Errorf("instance %d: %w", i, err)
			}
		}
		return nil
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		k := op.Node % len(nodes)
		n := nodes[k]
		o.Label(op.K)
		add := func(ts *t.Translations, m *mstate) { nodes = append(nodes, node{ts, m}); derived = true }
		switch op.K {
		case "D":
			m := n.m.clone()
			m.domain = op.Dom
			add(n.ts.D(op.Dom), m)
		case "L":
			m := n.m.clone()
			m.locale = op.Norm
			add(n.ts.L(op.Lang), m)
		case "DL":
			m := n.m.clone()
			m.domain, m.locale = op.Dom, op.Norm
			add(n.ts.D(op.Dom).L(op.Lang), m)
		case "LD":
			m := nodes[global].m.clone()
			m.domain, m.locale = op.Dom, op.Norm
			add(t.L(op.Lang).D(op.Dom), m)
		case "Global":
			add(t.Global(), nodes[global].m.clone())
		case "ctx":
			m := nodes[global].m.clone()
			ctx := context.Background()
			for _, s := range op.Ctx {
				if s.Lang {
					ctx = t.SetCtxLocale(ctx, s.Val)
					m.locale = s.Norm
				} else {
					ctx = t.SetCtxDomain(ctx, s.Val)
					m.domain = s.Val
				}
			}
			if err := checkCtx(ctx, op.Ctx); err != nil {
				return err
			}
			add(t.WithContext(ctx), m)
		case "setglobal":
			t.SetGlobal(n.ts)
			global = k
		default:
			if derived {
				o.NT()
			}
			var in inst = n.ts
			if k == global && i%2 == 0 {
				in = pkg{}
			}
			if err := op.apply(in, n.m, o.dir, i); err != nil {
				return fmt.Errorf("op %d %s on instance %d: %w", i, op.K, k, err)
			}
		}
		if err := all(i == len(c.Ops)-1 || i%4 == 3); err != nil {
			return fmt.Errorf("after op %d (%s on %d, %q %q): %w", i, op.K, k, op.Dom, op.Lang, err)
		}
	}
	return nil
}

func checkCtx(ctx context.Context, sets []ctxSet) error {
	var lang, dom string
	var hasL, hasD bool
	for _, s := range sets {
		if s.Lang {
			lang, hasL = s.Val, true
		} else {
			dom, hasD = s.Val, true
		}
	}
	if g, ok := t.GetCtxLocale(ctx); g != lang || ok != hasL {
		return fmt.Errorf("GetCtxLocale = %q %v, want %q %v", g, ok, lang, hasL)
	}
	if g, ok := t.GetCtxDomain(ctx); g != dom || ok != hasD {
		return fmt.Errorf("GetCtxDomain = %q %v, want %q %v", g, ok, dom, hasD)
	}
	return nil
}

// ---------------------------------------------------------------- C16

type agreeCase struct {
	Setup  []Op
	Cat    Catalog
	Ctxt   S
	ID     S
	ID2    S
	N      int64
	Args   int
	Locale string
	Probes []Probe
}

func checkC16(c agreeCase, o *Obs) error {
	g := t.NewTranslations()
	t.SetGlobal(g)
	if c.Cat.Lang == "" {
		c.Cat.Lang = "zh_CN"
	}
	t.BindFS("cat", fstest.MapFS{"x.po": {Data: []byte(plainPo(c.Cat.withHeader()))}})
	m := newState()
	for i := range c.Setup {
		if err := c.Setup[i].apply(pkg{}, m, o.dir, i); err != nil {
			return fmt.Errorf("setup: %w", err)
		}
	}
	if c.Locale != "" {
		t.SetDomain("cat")
		t.SetLocale(c.Locale)
		o.Label("generated-catalog")
	}
	args := argSets[c.Args%len(argSets)]
	same := func(what string, a, b any) error {
		if !reflect.DeepEqual(a, b) {
			return fmt.Errorf("%s: %#v and %#v differ", what, a, b)
		}
		return nil
	}
	type pair struct {
		what string
		a, b any
	}
	ps := append([]Probe{{Ctxt: c.Ctxt, ID: c.ID, ID2: c.ID2, N: c.N}}, c.Probes...)
	for _, in := range []struct {
		name string
		ts   *t.Translations
	}{{"instance", g}, {"Global()", t.Global()}} {
		ts := in.ts
		var tor t.Translator = t.NoopTranslator()
		if tr, ok := ts.Get(ts.Domain()); ok {
			tor = tr.GetOrNoop(ts.Locale())
			if x, ok := tr.Get(ts.Locale()); ok {
				tor = x
			}
		}
		if err := same("GetOrNoop", ts.GetOrNoop(ts.Domain()).GetOrNoop(ts.Locale()), tor); err != nil {
			return err
		}
		for _, p := range ps {
			x, id, id2, n := string(p.Ctxt), string(p.ID), string(p.ID2), p.N
			i := int(n)
			list := []pair{
				{"T", t.T(id, args...), ts.T(id, args...)},
				{"X", t.X(x, id, args...), ts.X(x, id, args...)},
				{"N", t.N(id, id2, i, args...), ts.N(id, id2, i, args...)},
				{"N64", t.N64(id, id2, n, args...), ts.N64(id, id2, n, args...)},
				{"N1", t.N1(id, i, args...), ts.N1(id, i, args...)},
				{"N1_64", t.N1_64(id, n, args...), ts.N1_64(id, n, args...)},
				{"XN", t.XN(x, id, id2, i, args...), ts.XN(x, id, id2, i, args...)},
				{"XN64", t.XN64(x, id, id2, n, args...), ts.XN64(x, id, id2, n, args...)},
				{"XN1", t.XN1(x, id, i, args...), ts.XN1(x, id, i, args...)},
				{"XN1_64", t.XN1_64(x, id, n, args...), ts.XN1_64(x, id, n, args...)},
				{"T/X", ts.T(id, args...), ts.X("", id, args...)},
				{"N/XN64", ts.N(id, id2, i, args...), ts.XN64("", id, id2, n, args...)},
				{"N64/XN64", ts.N64(id, id2, n, args...), ts.XN64("", id, id2, n, args...)},
				{"N1/XN64", ts.N1(id, i, args...), ts.XN64("", id, "", n, args...)},
				{"N1_64/XN64", ts.N1_64(id, n, args...), ts.XN64("", id, "", n, args...)},
				{"XN/XN64", ts.XN(x, id, id2, i, args...), ts.XN64(x, id, id2, n, args...)},
				{"XN1/XN64", ts.XN1(x, id, i, args...), ts.XN64(x, id, "", n, args...)},
				{"XN1_64/XN64", ts.XN1_64(x, id, n, args...), ts.XN64(x, id, "", n, args...)},
				{"X/translator", ts.X(x, id, args...), tor.X(x, id, args...)},
				{"XN64/translator", ts.XN64(x, id, id2, n, args...), tor.XN64(x, id, id2, n, args...)},
			}
			for _, e := range list {
				if err := same(in.name+" "+e.what, e.a, e.b); err != nil {
					return fmt.Errorf("%v: %w", p, err)
				}
			}
			if ts.X(x, id) != id || ts.XN64(x, id, id2, n) != p.nSource() {
				o.NT()
			}
		}
		sorted := func(s []string) []string { s = append([]string{}, s...); sort.Strings(s); return s }
		for _, e := range []pair{
			{"Locale", t.Locale(), ts.Locale()}, {"Locales", t.Locales(), ts.Locales()}, {"UsedLocale", t.UsedLocale(), ts.UsedLocale()},
			{"MostMatchLocale", t.MostMatchLocale(), ts.MostMatchLocale()}, {"SourceCodeLocale", t.SourceCodeLocale(), ts.SourceCodeLocale()},
			{"Domain", t.Domain(), ts.Domain()}, {"Domains", sorted(t.Domains()), sorted(ts.Domains())},
			{"HasDomain", t.HasDomain(string(c.Ctxt)), ts.HasDomain(string(c.Ctxt))}, {"HasDomain", t.HasDomain("cat"), ts.HasDomain("cat")},
			{"D", t.D("cat").T(string(c.ID)), ts.D("cat").T(string(c.ID))}, {"L", t.L("zh").T(string(c.ID)), ts.L("zh").T(string(c.ID))},
		} {
			if err := same(in.name+" "+e.what, e.a, e.b); err != nil {
				return err
			}
		}
	}
	// marking functions
	x, id, id2 := string(c.Ctxt), string(c.ID), string(c.ID2)
	if got := t.Mark.T(id); got != id {
		return fmt.Errorf("Mark.T(%q) = %q", id, got)
	}
	if a, b := t.Mark.N(id, id2); a != id || b != id2 {
		return fmt.Errorf("Mark.N(%q, %q) = %q, %q", id, id2, a, b)
	}
	if a, b := t.Mark.X(x, id); a != x || b != id {
		return fmt.Errorf("Mark.X(%q, %q) = %q, %q", x, id, a, b)
	}
	if a, b, d := t.Mark.XN(x, id, id2); a != x || b != id || d != id2 {
		return fmt.Errorf("Mark.XN(%q, %q, %q) = %q, %q, %q", x, id, id2, a, b, d)
	}
	return nil
}

// ---------------------------------------------------------------- C20

type pureCase struct {
	Cat    Catalog
	Form   string
	Setup  []Op
	Calls  []int
	Probes []Probe
	Args   int
	Texts  []S
	Prefs  []string
	Odd    []Msg `json:",omitempty"` // entries added as they are: any combination of fields
}

// odd adds the odd entries with spare capacity behind their lists; the returned
// function reports changes of anything the caller still holds.
func (c *pureCase) odd(f *translator.File) func() error {
	show := func(e *translator.Entry) string {
		return fmt.Sprintf("%q %q %q %v %q %q %q", e.MsgCmts[:cap(e.MsgCmts)], e.MsgCtxt, e.MsgID, e.IsPlural, e.MsgID2, e.MsgStr, e.MsgStrN[:cap(e.MsgStrN)])
	}
	var es []*translator.Entry
	var was []string
	for i := range c.Odd {
		e := c.Odd[i].entry()
		for _, l := range []*[]string{&e.MsgCmts, &e.MsgStrN} {
			full := append(append(make([]string, 0, len(*l)+2), *l...), "spare1", "spare2")
			*l = full[:len(*l)]
		}
		f.AddEntry(e)
		es, was = append(es, e), append(was, show(e))
	}
	return func() error {
		for i, e := range es {
			if now := show(e); now != was[i] {
				return fmt.Errorf("changed an entry of the caller from %s to %s", was[i], now)
			}
		}
		return nil
	}
}

// snapshot collects every observable answer.
func (c *pureCase) snapshot(ts *t.Translations, f *translator.File, extra bool) ([]string, error) {
	var out []string
	add := func(v ...any) { out = append(out, fmt.Sprintf("%q", fmt.Sprint(v...))) }
	doms := ts.Domains()
	sort.Strings(doms)
	add(doms, ts.Domain(), ts.Locale(), ts.Locales(), ts.UsedLocale(), ts.SourceCodeLocale(), ts.MostMatchLocale())
	add(t.Domain(), t.Locale(), t.Locales(), t.UsedLocale(), t.SourceCodeLocale(), t.MostMatchLocale())
	ps := append(allProbes(&c.Cat, 0, 1, 2, 5), c.Probes...)
	for _, m := range c.Odd {
		ps = append(ps, Probe{Ctxt: m.Ctxt, ID: m.ID}, Probe{Plural: true, Ctxt: m.Ctxt, ID: m.ID, ID2: m.ID2, N: 1}, Probe{Plural: true, Ctxt: m.Ctxt, ID: m.ID, ID2: "x", N: 2})
	}
	for _, p := range ps {
		add(p.ask(f), p.ask(ts), p.ask(pkg{}))
		for _, d := range doms {
			for _, l := range []string{"zh_CN", "en_US", "de_DE"} {
				add(p.ask(ts.D(d).L(l)))
			}
		}
	}
	add(f.Lang())
	for _, k := range []string{"Language", "Plural-Forms", "X-Generator", "nope"} {
		v, ok := f.GetHeader(k)
		add(v, ok)
	}
	for _, e := range f.SortedEntry() {
		add(fmt.Sprintf("%q %q %q %v %q %q %q", e.MsgCmts, e.MsgCtxt, e.MsgID, e.IsPlural, e.MsgID2, e.MsgStr, e.MsgStrN))
	}
	for _, save := range []func(*translator.File) ([]byte, error){poBytes, potBytes, moBytes} {
		b, err := save(f)
		if err != nil {
			return nil, err
		}
		add(string(b))
	}
	add(t.Tags([]string{"zh_CN", "en", "x-y", ""}))
	return out, nil
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			x := "nothing"
			if i < len(b) {
				x = clip(b[i], 400)
			}
			return fmt.Sprintf("answer %d was %s, now %s", i, clip(a[i], 400), x)
		}
	}
	return "more answers"
}

func checkC20(c pureCase, o *Obs) error {
	ts := t.NewTranslations()
	t.SetGlobal(ts)
	m := newState()
	for i := range c.Setup {
		if err := c.Setup[i].apply(ts, m, o.dir, i); err != nil {
			return fmt.Errorf("setup: %w", err)
		}
	}
	b := Bound{Cat: c.Cat, Form: c.Form}
	var f *translator.File
	var err error
	switch c.Form {
	case "po":
		f, err = readPoOwn([]byte(plainPo(c.Cat.withHeader())))
	case "mo":
		f, err = readMoOwn(plainMO(c.Cat.withHeader()))
	default:
		f = b.Cat.file()
	}
	if err != nil {
		return err
	}
	kept := c.odd(f)
	o.LabelIf(len(c.Odd) > 0, "odd-entries")
	before, err := c.snapshot(ts, f, true)
	if err != nil {
		return err
	}
	if err := kept(); err != nil {
		return fmt.Errorf("lookups, listing and saves %w", err)
	}
	if len(c.Cat.Msgs) > 0 {
		o.NT()
	}
	for k, call := range c.Calls {
		what, err := c.call(call, ts, f, o)
		if err == nil {
			var after []string
			if after, err = c.snapshot(ts, f, true); err == nil && !reflect.DeepEqual(before, after) {
				err = fmt.Errorf("changed later answers: %s", firstDiff(before, after))
			}
		}
		if err == nil {
			err = kept()
		}
		if err != nil {
			return fmt.Errorf("call %d (%s): %w", k, what, err)
		}
		o.Label(what)
	}
	return nil
}

type sentinel struct{ n int }

// spare returns args in a longer array whose rest must stay untouched.
func spare(args []any) (in []any, check func() error) {
	full := make([]any, 0, len(args)+4)
	full = append(full, args...)
	all := full[:cap(full)]
	for i := len(args); i < len(all); i++ {
		all[i] = sentinel{i}
	}
	return full, func() error {
		for i := range all {
			want := any(sentinel{i})
			if i < len(args) {
				want = args[i]
			}
			if !reflect.DeepEqual(all[i], want) {
				return fmt.Errorf("argument slot %d of %d now holds %v", i, len(args), all[i])
			}
		}
		return nil
	}
}

func (c *pureCase) call(k int, ts *t.Translations, f *translator.File, o *Obs) (string, error) {
	args := argSets[c.Args%len(argSets)]
	in, check := spare(args)
	var bad error
	broken := func(format string, v ...any) string {
		bad = fmt.Errorf(format, v...)
		return ""
	}
	twice := func(what string, fn func() string) (string, error) {
		a := fn()
		if err := check(); err != nil {
			return what, err
		}
		if bad != nil {
			return what, bad
		}
		b := fn()
		if a != b {
			return what, fmt.Errorf("two calls give %s and %s", q(a), q(b))
		}
		return what, check()
	}
	p := c.Probes[k%len(c.Probes)]
	switch k % 14 {
	case 0:
		return twice("File lookup", func() string { return p.ask(f, in...) })
	case 1:
		return twice("Translations lookup", func() string {
			return ts.X(string(p.Ctxt), string(p.ID), in...) + ts.N(string(p.ID), string(p.ID2), int(p.N), in...) + ts.N1(string(p.ID), int(p.N), in...) + ts.XN1(string(p.Ctxt), string(p.ID), int(p.N), in...)
		})
	case 2:
		return twice("package lookup", func() string {
			return t.T(string(p.ID), in...) + t.N64(string(p.ID), string(p.ID2), p.N, in...) + t.XN(string(p.Ctxt), string(p.ID), string(p.ID2), int(p.N), in...)
		})
	case 3:
		return twice("Format", func() string {
			s := ""
			for _, x := range c.Texts {
				s += fmtFormat(string(x), in...) + "|" + fmtDefault(string(x), "%d %s %v"+string(x), p.N, in...)
			}
			return s
		})
	case 4:
		return twice("save", func() string {
			s := ""
			for _, save := range []func(*translator.File) ([]byte, error){poBytes, potBytes, moBytes} {
				b, _ := save(f)
				s += string(b)
			}
			return s
		})
	case 5:
		return twice("SortedEntry", func() string {
			es := f.SortedEntry()
			s := ""
			for _, e := range es {
				s += e.Key() + ";"
			}
			for i := range es { // the list is the caller's
				es[i] = nil
			}
			return s
		})
	case 6:
		return twice("Domains", func() string {
			ds := ts.Domains()
			sort.Strings(ds)
			s := strings.Join(ds, ";")
			for i := range ds {
				ds[i] = "overwritten"
			}
			ds = append(ds, "more")
			return s
		})
	case 7:
		return twice("Locales", func() string {
			ls := ts.Locales()
			s := strings.Join(ls, ";")
			for i := range ls {
				ls[i] = "xx_XX"
			}
			ls = append(ls[:0], "zz")
			gl := t.Locales()
			for i := range gl {
				gl[i] = ""
			}
			return s
		})
	case 8:
		return twice("Tags", func() string {
			names := append([]string{}, c.Prefs...)
			tags := t.Tags(names)
			s := fmt.Sprint(tags)
			for i := range tags {
				tags[i] = language.Und
			}
			for i := range names {
				if names[i] != c.Prefs[i] {
					return broken("the list of names changed")
				}
			}
			return s
		})
	case 9:
		return twice("Match", func() string {
			// the lists are the caller's, with spare capacity behind them
			sup, pref := append(make([]string, 0, 12), ts.Locales()...), append(make([]string, 0, 12), c.Prefs...)
			st, pt := append(make([]language.Tag, 0, 12), t.Tags(sup)...), make([]language.Tag, 0, 12)
			for i, p := range c.Prefs {
				if i%2 == c.Args%2 {
					pt = append(pt, language.Make(p)) // may be undetermined
				} else {
					pt = append(pt, t.Tag(p))
				}
			}
			all := func() string {
				return fmt.Sprintf("%q %q %v %v", sup[:cap(sup)], pref[:cap(pref)], st[:cap(st)], pt[:cap(pt)])
			}
			s0 := all()
			tag, i, conf := t.Match(sup, pref)
			tag2, i2, conf2 := t.MatchTag(st, pt)
			if s1 := all(); s1 != s0 {
				return broken("the lists changed from %s to %s", s0, s1)
			}
			return fmt.Sprint(tag, i, conf, tag2, i2, conf2)
		})
	case 10:
		return twice("GetUserLang", func() string {
			r, _ := http.NewRequest("GET", "http://x/", nil)
			r.Header.Set("Accept-Language", strings.Join(c.Prefs, ","))
			if c.Args%2 == 1 {
				r.AddCookie(&http.Cookie{Name: "lang", Value: "zh_CN"})
			}
			h := fmt.Sprint(r.Header)
			s := t.GetUserLang(r) + t.GetUserLang(r, t.WithCookieName("other"))
			if h != fmt.Sprint(r.Header) {
				return broken("the request changed")
			}
			return s
		})
	case 11:
		return twice("views", func() string {
			v := ts.D("zzz").L("ja")
			v.T("x")
			w := t.WithContext(t.SetCtxLocale(context.Background(), "fr"))
			g := t.Global()
			return v.Locale() + w.Locale() + g.Locale()
		})
	case 12:
		return twice("Get", func() string {
			s := ""
			for _, d := range []string{"default", "a", "nope", ""} {
				tr, ok := ts.Get(d)
				s += fmt.Sprint(ok, tr == nil)
				_, ok = ts.GetOrNoop(d).Get("zh_CN")
				s += fmt.Sprint(ok, ts.GetOrNoop(d).GetOrNoop("nope").Lang())
			}
			return s
		})
	default:
		return twice("new instances", func() string {
			n := t.NewTranslations()
			n.SetLocale("ja")
			n.SetDomain("other")
			n.BindFS("default", fstest.MapFS{"x.po": {Data: []byte(plainPo(treeCatalog("zh_CN", "foreign").withHeader()))}})
			return n.D("default").L("zh").T("who")
		})
	}
}

func init() {
	ops := func(rt *rapid.T, derive bool, lo, hi, nodes int) []Op {
		var out []Op
		n := size(rt, "ops", lo, hi, 120)
		for i := 0; i < n; i++ {
			out = append(out, drawOp(rt, i, nodes, derive))
		}
		return out
	}
	register(Prop{
		ID: "C14", Quick: 48000, Thorough: 3840000, Silent: true,
		Technique: "stateful model-based testing of bind/remove/clear/set histories",
		Level:     "exploration",
		Note:      "Random histories of bind (good and failing), load, remove, clear and set operations run on an instance or through the package functions; after every operation all reported names and the lookups of every domain and language are compared with a plain map.",
		Rule:      "1-25 operations over 6 domain names and 4 languages in varied spellings; non-trivial = at least one bind and more than 2 operations",
		Assume:    []string{"the environment's default locale is en_US", "no catalog is bound under the empty domain name", "a Translation obtained through Get is not modified"},
	}, func(rt *rapid.T) historyCase {
		return historyCase{Pkg: chance(rt, "pkg", 50), Ops: ops(rt, false, 1, 25, 1)}
	}, checkC14, nil)

	register(Prop{
		ID: "C15", Quick: 20000, Thorough: 1600000, Silent: true,
		Technique: "stateful model-based testing of a growing tree of views with value-copied models",
		Level:     "exploration",
		Note:      "Views are derived by D, L, Global, WithContext and the package functions from any earlier instance, any instance may become the global one, and every operation runs on any of them; after each step every instance is compared with its own value-copied model.",
		Rule:      "1-22 operations; non-trivial = an instance is changed after a view was derived",
		Assume:    []string{"SetGlobal shares the given instance", "the environment's default locale is en_US"},
	}, func(rt *rapid.T) historyCase {
		return historyCase{Ops: ops(rt, true, 1, 22, 12)}
	}, checkC15, nil)

	c16 := CatOpt{Text: TextOpt{CR: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, MustLang: true, MaxMsgs: 5}
	register(Prop{
		ID: "C16", Quick: 72000, Thorough: 5760000, Silent: true,
		Technique: "metamorphic property-based testing: every entry point against the general form",
		Level:     "exploration",
		Note:      "In a random state every package function is compared with the method on the global instance and every short form with the general one, over texts with verbs and arguments.",
		Rule:      "random states and catalogs, probes aimed at the catalog; non-trivial = at least one probe hits a translation",
		Assume:    []string{"64-bit int"},
	}, func(rt *rapid.T) agreeCase {
		c := agreeCase{Cat: catalog(rt, c16), Args: intn(rt, "args", 0, 6), Ctxt: text(rt, "ctxt", c16.Text), ID: text(rt, "id", c16.Text), ID2: text(rt, "id2", c16.Text), N: count(rt)}
		c.Setup = ops(rt, false, 0, 5, 1)
		if chance(rt, "usecat", 97) {
			c.Locale = c.Cat.Lang
		}
		c.Probes = probes(rt, append(c.Cat.Msgs, treeMsgs("m")...), c16.Text, 1, 6)
		return c
	}, checkC16, nil)

	c20 := CatOpt{Text: TextOpt{CR: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, Cmts: true, MaxMsgs: 6, NoHdr: true}
	register(Prop{
		ID: "C20", Quick: 30000, Thorough: 2400000, Silent: true,
		Technique: "snapshot comparison around random read-only calls",
		Level:     "exploration",
		Note:      "A snapshot of all answers, entry lists and saved bytes is taken before and after each of a random sequence of read-only calls; arguments sit in slices with spare capacity holding sentinels, and every returned slice is overwritten.",
		Rule:      "random state, catalog and 1-6 calls; non-trivial = the catalog has a message besides the header",
		Assume:    []string{"entries themselves are shared with the catalog and are not modified by the caller"},
	}, func(rt *rapid.T) pureCase {
		c := pureCase{Cat: catalog(rt, c20), Form: pick(rt, "form", "api", "po", "mo"), Args: intn(rt, "args", 0, 6)}
		if len(c.Cat.withHeader()) == 0 {
			c.Form = "api" // an empty PO file is not a catalog
		}
		for i := intn(rt, "odd", 0, 3); i > 0; i-- {
			m := Msg{Ctxt: pick(rt, "odd.ctxt", S(""), "c"), ID: S(fmt.Sprintf("odd%d", intn(rt, "odd.id", 0, 3))), Plural: chance(rt, "odd.pl", 50), ID2: pick(rt, "odd.id2", S(""), "odds"), Str: pick(rt, "odd.str", S(""), "O %d")}
			for j := intn(rt, "odd.n", 0, 3); j > 0; j-- {
				m.StrN = append(m.StrN, pick(rt, "odd.f", S(""), "F0", "F1 %s"))
			}
			for j := intn(rt, "odd.c", 0, 2); j > 0; j-- {
				m.Cmts = append(m.Cmts, S(comment(rt, "odd.cmt")))
			}
			c.Odd = append(c.Odd, m)
		}
		c.Setup = ops(rt, false, 0, 4, 1)
		c.Probes = probes(rt, append(c.Cat.Msgs, treeMsgs("m")...), c20.Text, 1, 3)
		for i := intn(rt, "calls", 1, 6); i > 0; i-- {
			c.Calls = append(c.Calls, intn(rt, "call", 0, 13))
		}
		for i := intn(rt, "texts", 0, 3); i > 0; i-- {
			c.Texts = append(c.Texts, text(rt, "text", TextOpt{}))
		}
		for i := intn(rt, "prefs", 0, 6); i > 0; i-- {
			c.Prefs = append(c.Prefs, pick(rt, "pref", "zh", "zh-TW", "en_GB", "de_DE", "fr", "C", "", "zz-ZZ", "*", "und", "zh_CN", "en"))
		}
		return c
	}, checkC20, nil)
}
