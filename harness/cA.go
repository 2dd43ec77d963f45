package main

// C01, C02: singular and plural lookups.

import (
	"fmt"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
)

// Bound is one catalog of a domain in the form it is loaded from.
type Bound struct {
	Cat  Catalog
	Form string // "api", "po", "mo"
	Data S      `json:",omitempty"`
}

type lookupCase struct {
	Domains []struct {
		Name S
		Cats []Bound
	}
	Probes []Probe
}

var lookupText = TextOpt{CR: true, Bad: true}

func drawBound(rt *rapid.T, o CatOpt) Bound {
	b := Bound{Cat: catalog(rt, o), Form: pick(rt, "form", "api", "po", "mo")}
	b.render(rt)
	return b
}

func (b *Bound) render(rt *rapid.T) {
	switch b.Form {
	case "po":
		b.Data = S(poText(rt, b.Cat.withHeader()))
	case "mo":
		b.Data = S(drawMO(rt, b.Cat.withHeader()))
	}
}

func (b *Bound) load() (*translator.File, error) {
	switch b.Form {
	case "po":
		return readPoOwn([]byte(b.Data))
	case "mo":
		return readMoOwn([]byte(b.Data))
	}
	return b.Cat.file(), nil
}

// fileFor is the bytes and extension of the catalog in its form ("api" is saved by the library).
func (b *Bound) bytes() (string, []byte, error) {
	switch b.Form {
	case "po":
		return ".po", []byte(b.Data), nil
	case "mo":
		return ".mo", []byte(b.Data), nil
	}
	d, err := poBytes(b.Cat.file())
	return ".po", d, err
}

func genLookup(rt *rapid.T, o CatOpt) lookupCase {
	var c lookupCase
	nd := intn(rt, "domains", 1, 3)
	var all []Msg
	for i := 0; i < nd; i++ {
		name := S([]string{"default", "app", "lib"}[i])
		if chance(rt, "oddname", 10) {
			name = text(rt, "domain", TextOpt{NonEmpty: true, Short: true}) + S(fmt.Sprint(i))
		}
		var cats []Bound
		used := map[string]bool{}
		for j := intn(rt, "cats", 1, 2); j > 0; j-- {
			b := Bound{Cat: catalog(rt, o), Form: pick(rt, "form", "api", "po", "mo")}
			if used[b.Cat.Lang] {
				continue
			}
			used[b.Cat.Lang] = true
			// the same ids in other catalogs, with other texts
			if len(all) > 0 && chance(rt, "overlap", 60) {
				have := map[string]bool{}
				for _, m := range b.Cat.Msgs {
					have[m.key()] = true
				}
				for k := intn(rt, "ov.n", 1, 3); k > 0; k-- {
					m := rapid.SampledFrom(all).Draw(rt, "ov")
					if have[m.key()] {
						continue
					}
					have[m.key()] = true
					m.Str = text(rt, "ov.str", TextOpt{NonEmpty: true})
					if m.Plural {
						m.Str = ""
						m.StrN = append([]S{}, m.StrN...)
						for x := range m.StrN {
							m.StrN[x] += "·"
						}
					}
					b.Cat.Msgs = append(b.Cat.Msgs, m)
				}
			}
			if chance(rt, "manymsgs", 1) {
				b.Cat.Msgs = manyMsgs(rt)
			}
			if chance(rt, "family", 3) {
				have := map[string]bool{}
				for _, m := range b.Cat.Msgs {
					have[m.key()] = true
				}
				for _, m := range family(rt) {
					if !have[m.key()] {
						b.Cat.Msgs = append(b.Cat.Msgs, m)
					}
					have[m.key()] = true
				}
			}
			b.render(rt)
			all = append(all, b.Cat.Msgs...)
			cats = append(cats, b)
		}
		c.Domains = append(c.Domains, struct {
			Name S
			Cats []Bound
		}{name, cats})
	}
	if len(all) > 30 {
		all = all[:30]
	}
	c.Probes = probes(rt, all, lookupText, 2, 8)
	return c
}

func checkLookupCase(c lookupCase, o *Obs, plural bool) error {
	ts := t.NewTranslations()
	type loaded struct {
		dom  string
		lang string
		f    *translator.File
		m    *model
	}
	var ls []loaded
	ps := append([]Probe{}, c.Probes...)
	for di := range c.Domains {
		d := &c.Domains[di]
		fsys := fstest.MapFS{}
		for i := range d.Cats {
			b := &d.Cats[i]
			f, err := b.load()
			if err != nil {
				return fmt.Errorf("loading a valid %s catalog failed: %v", b.Form, err)
			}
			ls = append(ls, loaded{string(d.Name), b.Cat.Lang, f, newModel(&b.Cat)})
			ext, data, err := b.bytes()
			if err != nil {
				return fmt.Errorf("saving failed: %v", err)
			}
			fsys[fmt.Sprintf("f%d%s", i, ext)] = &fstest.MapFile{Data: data}
			if len(b.Cat.Msgs) < 50 {
				ps = append(ps, allProbes(&b.Cat, 0, 1, 2, 5)...)
			}
			o.Label("form-" + b.Form)
		}
		ts.BindFS(string(d.Name), fsys)
	}
	empty := newModel(&Catalog{NoHdr: true})
	for _, p := range ps {
		if p.Plural != plural {
			continue
		}
		for _, l := range ls {
			one := []Probe{p}
			if err := checkLookups("catalog", l.f, l.m, one, o); err != nil {
				return err
			}
			if err := checkLookups("translation", t.NewTranslation("x", l.f).GetOrNoop(l.lang), orEmpty(l.lang != "", l.m, empty), one, nil); err != nil {
				return err
			}
		}
		// every domain x every language, including absent ones
		for _, dom := range append(domNames(c), "nope", "") {
			for _, lang := range queried(c) {
				m := empty
				for _, l := range ls {
					if l.dom == dom && l.lang == lang {
						m = l.m
					}
				}
				if err := checkLookups(fmt.Sprintf("domain %q, locale %s", dom, lang), ts.D(dom).L(lang), m, []Probe{p}, o); err != nil {
					return err
				}
				o.LabelIf(m == empty, "absent-catalog")
			}
		}
	}
	return checkLookups("no-op translator", t.NoopTranslator(), empty, ps, nil)
}

func orEmpty(c bool, a, b *model) *model {
	if c {
		return a
	}
	return b
}

// queried are the languages of the catalogs, their neighbours of the same language, and others.
func queried(c lookupCase) (out []string) {
	seen := map[string]bool{}
	add := func(ls ...string) {
		for _, l := range ls {
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	add("zh_CN", "de_DE")
	for _, d := range c.Domains {
		for _, b := range d.Cats {
			if b.Cat.Lang == "" {
				continue
			}
			add(b.Cat.Lang)
			base, _, _ := strings.Cut(b.Cat.Lang, "_")
			add(neighbours[base]...)
		}
	}
	return out
}

var neighbours = map[string][]string{"zh": {"zh_TW", "zh_HK"}, "en": {"en_US", "en_GB"}, "de": {"de_DE", "de_AT"}, "fr": {"fr_FR", "fr_CA"}, "pt": {"pt_BR", "pt_PT"}, "es": {"es_ES", "es_MX"}, "ja": {"ja_JP"}, "ru": {"ru_RU", "ru_UA"}, "ar": {"ar_EG", "ar_SA"}, "sr": {"sr_RS", "sr_ME"}, "ko": {"ko_KR", "ko_KP"}, "pl": {"pl_PL"}}

func domNames(c lookupCase) (out []string) {
	for _, d := range c.Domains {
		out = append(out, string(d.Name))
	}
	return
}

func init() {
	langs = append(langs[:0:0], langs...)
	opt := CatOpt{Text: lookupText, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true, MaxMsgs: 6, Cmts: true}
	register(Prop{
		ID: "C01", Quick: 30000, Thorough: 2400000, Silent: true,
		Technique: "property-based testing against a (context,id) map model",
		Level:     "exploration",
		Note:      "Generated catalogs (bound through the API, PO in any layout, MO in any layout) in several domains and languages; every stored pair, near-miss pairs and absent domains/languages are looked up and compared with a map. Trusts the map model and the harness's PO/MO writers.",
		Rule:      "1-3 domains with 1-2 languages each, overlapping ids across catalogs, near-miss keys (moved context/id boundary, blanks, case, prefixes); non-trivial = at least one lookup that returns a translation different from its source",
		Assume:    []string{"texts contain neither NUL nor EOT (0x04), which the formats use as separators", "singular lookups of plural messages are not specified"},
	}, func(rt *rapid.T) lookupCase {
		c := genLookup(rt, opt)
		for i := range c.Probes {
			if i%3 != 0 {
				c.Probes[i].Plural = false
			}
		}
		return c
	}, func(c lookupCase, o *Obs) error { return checkLookupCase(c, o, false) }, nil)

	o2 := opt
	register(Prop{
		ID: "C02", Quick: 24000, Thorough: 1920000, Silent: true,
		Technique: "property-based testing against a plural-rule reference model",
		Level:     "exploration",
		Note:      "The expected form comes from the independent rule evaluator of C03; catalogs come from the API, PO and MO. Rules are restricted to ones not touched by the listed findings of C03.",
		Rule:      "catalogs with published and generated rules, 0-9 declared forms, too few / too many / empty forms, counts from the whole int64 range; non-trivial = at least one plural lookup that returns a translation different from its source",
		Assume:    []string{"texts contain neither NUL nor EOT (0x04)", "rules avoid ^, bare chains of relational operators and operands undefined in C (findings KF1, KF2)"},
	}, func(rt *rapid.T) lookupCase {
		c := genLookup(rt, o2)
		for i := range c.Probes {
			if i%4 != 0 {
				c.Probes[i].Plural = true
			}
		}
		return c
	}, func(c lookupCase, o *Obs) error { return checkLookupCase(c, o, true) }, func() []lookupCase {
		var out []lookupCase
		mk := func(r *Rule, m Msg, ps ...Probe) {
			for _, form := range []string{"api", "po", "mo"} {
				b := Bound{Cat: Catalog{Lang: "zh_CN", Rule: r, Msgs: []Msg{m}}, Form: form}
				switch form {
				case "po":
					b.Data = S(plainPo(b.Cat.withHeader()))
				case "mo":
					b.Data = S(plainMO(b.Cat.withHeader()))
				}
				c := lookupCase{Probes: ps}
				c.Domains = append(c.Domains, struct {
					Name S
					Cats []Bound
				}{"default", []Bound{b}})
				out = append(out, c)
			}
		}
		var all []Probe
		for _, n := range []int64{0, 1, 2, 3, 5, 10, 11, 21, 100, -1, -5, 1 << 32, 1<<63 - 1, -1 << 63} {
			all = append(all, Probe{Plural: true, ID: "i", ID2: "p", N: n}, Probe{Plural: true, ID: "i", N: n})
		}
		for i := range commonRules {
			mk(&commonRules[i], Msg{ID: "i", Plural: true, ID2: "p", StrN: []S{"f0", "f1", "f2", "f3", "f4", "f5"}}, all...)
			mk(&commonRules[i], Msg{ID: "i", Plural: true, ID2: "p", StrN: []S{"f0", "f1"}}, all...)
			mk(&commonRules[i], Msg{ID: "i", Plural: true, ID2: "p", StrN: []S{"f0"}}, all...)
			mk(&commonRules[i], Msg{ID: "i", Plural: true, ID2: "p", StrN: []S{"", "f1", ""}}, all...)
		}
		mk(nil, Msg{ID: "i", Plural: true, ID2: "p", StrN: []S{"f0", "f1"}}, all...)
		mk(&commonRules[1], Msg{ID: "i", Str: "one"}, all...)
		mk(&commonRules[1], Msg{ID: "i"}, all...)
		return out
	})
}
