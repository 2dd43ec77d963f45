package main

// C17, C18, C19, C22, C23, C25.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"
	"syscall"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
	"pgregory.net/rapid"
)

func fmtFormat(s string, a ...any) string              { return f.Format(s, a...) }
func fmtDefault(s, p string, n int64, a ...any) string { return f.DefaultPlural(s, p, n, a...) }

// ---------------------------------------------------------------- C17

// likely regions (CLDR likelySubtags).
var likely = map[string]string{
	"en": "US", "zh": "CN", "de": "DE", "fr": "FR", "ja": "JP", "ko": "KR", "es": "ES", "pt": "BR", "ru": "RU", "it": "IT", "nl": "NL", "pl": "PL", "tr": "TR", "ar": "EG", "he": "IL", "hi": "IN", "th": "TH", "vi": "VN", "id": "ID", "uk": "UA", "cs": "CZ", "sk": "SK", "hu": "HU", "ro": "RO", "bg": "BG", "el": "GR", "sv": "SE", "da": "DK", "fi": "FI", "et": "EE", "lv": "LV", "lt": "LT", "sl": "SI", "hr": "HR", "sr": "RS", "ca": "ES", "eu": "ES", "gl": "ES", "fa": "IR", "ur": "PK", "bn": "BD", "ta": "IN", "ms": "MY", "sw": "TZ", "af": "ZA", "is": "IS", "ga": "IE", "cy": "GB", "ka": "GE", "hy": "AM", "az": "AZ", "kk": "KZ", "uz": "UZ", "mn": "MN", "nb": "NO", "nn": "NO", "lb": "LU", "mk": "MK", "sq": "AL", "km": "KH", "my": "MM", "ne": "NP", "am": "ET", "fil": "PH", "yue": "HK", "haw": "US",
}

var scriptRegion = map[string]string{"zh-Hans": "CN", "zh-Hant": "TW", "sr-Latn": "RS", "sr-Cyrl": "RS", "uz-Latn": "UZ", "az-Latn": "AZ", "pa-Guru": "IN", "pa-Arab": "PK"}

var regions = []string{"US", "GB", "CN", "TW", "HK", "MO", "SG", "DE", "AT", "CH", "FR", "BE", "CA", "JP", "KR", "ES", "MX", "AR", "BR", "PT", "AO", "RU", "BY", "UA", "IT", "NL", "PL", "TR", "CY", "EG", "SA", "AE", "IL", "IN", "PK", "BD", "TH", "VN", "ID", "MY", "PH", "AU", "NZ", "ZA", "NG", "KE", "TZ", "SE", "NO", "DK", "FI", "IS", "IE", "LU", "RS", "ME", "BA", "GR", "IR", "AF", "419", "001", "150"}

var scripts = map[string]string{"zh": "Hans", "sr": "Latn", "uz": "Cyrl", "az": "Cyrl", "en": "Latn", "ru": "Cyrl", "de": "Latn", "pt": "Latn", "kk": "Cyrl", "ms": "Latn"}

func randCase(rt *rapid.T, s string) string {
	b := []byte(s)
	for i := range b {
		switch intn(rt, "case", 0, 2) {
		case 1:
			b[i] = byte(strings.ToUpper(string(b[i]))[0])
		case 2:
			b[i] = byte(strings.ToLower(string(b[i]))[0])
		}
	}
	return string(b)
}

type langCase struct {
	Norm    string // expected
	A, B    string // two spellings
	Garbage string
}

var suffixes = []string{"", "", "", ".UTF-8", ".utf8", ".GBK", ".ISO-8859-1", "@euro", "@latin", ".UTF-8@latin", ".utf8@valencia", "."}

// spell draws a spelling of lang[-script]-region.
func spell(rt *rapid.T, lang, script, region string, explicit bool) string {
	sep := pick(rt, "sep", "_", "-")
	parts := []string{lang}
	if script != "" {
		parts = append(parts, script)
	}
	if explicit {
		parts = append(parts, region)
	}
	s := strings.Join(parts, sep)
	if len(parts) > 2 && chance(rt, "mixsep", 20) {
		s = parts[0] + "-" + parts[1] + "_" + parts[2]
	}
	switch intn(rt, "casing", 0, 4) {
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.ToLower(s)
	case 3:
		s = randCase(rt, s)
	}
	if explicit && len(parts) <= 3 && chance(rt, "ext", 8) {
		s += sep + pick(rt, "ext.v", "u-co-phonebk", "x-priv", "1996", "u-nu-latn", "u-co-phonebk-nu-latn", "t-de-m0-und-u-nu-latn", "a-foo-u-co-phonebk-x-priv", "1996-1901-u-nu-latn")
	}
	return s + pick(rt, "suffix", suffixes...)
}

func genLang(rt *rapid.T) langCase {
	var ls []string
	for l := range likely {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	l := rapid.SampledFrom(ls).Draw(rt, "l")
	region := rapid.SampledFrom(append([]string{""}, regions...)).Draw(rt, "r")
	c := langCase{}
	opts := [][2]any{}
	script := ""
	switch {
	case region == "" && chance(rt, "byscript", 30):
		k := pick(rt, "scripted", "zh-Hans", "zh-Hant", "sr-Latn", "sr-Cyrl", "uz-Latn", "az-Latn", "pa-Guru", "pa-Arab")
		l, script, _ = strings.Cut(k, "-")
		region = scriptRegion[k]
		opts = append(opts, [2]any{script, false}, [2]any{script, true}, [2]any{"", true})
	case region == "":
		region = likely[l]
		opts = append(opts, [2]any{"", false}, [2]any{"", true})
	default:
		opts = append(opts, [2]any{"", true})
		if sc := scripts[l]; sc != "" {
			opts = append(opts, [2]any{sc, true})
		}
	}
	a, b := rapid.SampledFrom(opts).Draw(rt, "a"), rapid.SampledFrom(opts).Draw(rt, "b")
	c.A = spell(rt, l, a[0].(string), region, a[1].(bool))
	c.B = spell(rt, l, b[0].(string), region, b[1].(bool))
	c.Norm = l + "_" + region
	switch intn(rt, "garbage", 0, 3) {
	case 0:
		c.Garbage = pick(rt, "g", "", "C", "POSIX", "C.UTF-8", "_", "-", "123", "中文", "!!", " ", ".", "@", ".UTF-8", "_CN", "a", "toolonglanguagename", "\x00", "\xff", "en us")
	case 1:
		c.Garbage = string(text(rt, "gt", TextOpt{CR: true, Bad: true, NUL: true, Short: true}))
	case 2:
		c.Garbage = c.A + pick(rt, "gs", "-", "_", "--", "-x", "_zzzzzzzzzzz", "-\xff", " ", "/..", "\n")
	default:
		c.Garbage = pick(rt, "g2", "qq", "qq_QQ", "zz-ZZ", "aaa", "und", "und-CN", "und_Hant", "root", "i-klingon", "x-y", "art-lojban", "en-", "-en", "mul", "zh__CN", "zh_CN_x")
	}
	return c
}

var reNorm = regexp.MustCompile(`^[a-z]{2,3}_([A-Z]{2}|[0-9]{3})$`)

// noLanguage: text without any language subtag at its start.
func noLanguage(s string) bool {
	if i := strings.IndexAny(s, ".@"); i >= 0 {
		s = s[:i]
	}
	switch s {
	case "", "C", "POSIX", "_", "-", "123", "中文", "!!", " ", "a", "x-y", "\x00", "\xff":
		return true
	}
	return false
}

// checkEnvLocale: the system's language enters through the environment.
func checkEnvLocale(ts *t.Translations, c langCase, o *Obs) error {
	if strings.ContainsAny(c.A, "\x00:") || strings.HasSuffix(c.A, ".") || c.A == "" {
		return nil
	}
	if strings.Contains(c.A, "@") { // detection itself is another module's
		return nil
	}
	name := []string{"LC_ALL", "LC_MESSAGES", "LANG"}[len(c.A)%3]
	old, had := os.LookupEnv(name)
	os.Setenv(name, c.A)
	defer func() {
		if had {
			os.Setenv(name, old)
		} else {
			os.Unsetenv(name)
		}
	}()
	if got := locale.GetDefault(); got != c.Norm {
		return fmt.Errorf("GetDefault with %s=%q = %q, want %q", name, c.A, got, c.Norm)
	}
	ts.SetLocale("")
	if got := ts.Locale(); got != c.Norm {
		return fmt.Errorf("SetLocale(\"\") with %s=%q: Locale() = %q, want %q", name, c.A, got, c.Norm)
	}
	if got := t.NewTranslations().Locale(); got != c.Norm {
		return fmt.Errorf("NewTranslations().Locale() with %s=%q = %q, want %q", name, c.A, got, c.Norm)
	}
	o.Label("environment")
	return nil
}

func checkC17(c langCase, o *Obs) error {
	want := c.Norm
	for _, s := range []string{c.A, c.B} {
		if got := locale.Normalize(s); got != want {
			return fmt.Errorf("Normalize(%q) = %q, want %q", s, got, want)
		}
		o.LabelIf(s != want, "respelled")
		if s != want {
			o.NT()
		}
	}
	if got := locale.Normalize(want); got != want {
		return fmt.Errorf("Normalize(%q) = %q: not idempotent", want, got)
	}
	g := locale.Normalize(c.Garbage)
	if !reNorm.MatchString(g) {
		return fmt.Errorf("Normalize(%q) = %q is not of the form ll_CC", c.Garbage, g)
	}
	if noLanguage(c.Garbage) {
		o.Label("unrecognised")
		if g != "en_US" {
			return fmt.Errorf("Normalize(%q) = %q, want the default en_US", c.Garbage, g)
		}
	}
	if h := locale.Normalize(g); h != g {
		return fmt.Errorf("Normalize(%q) = %q: not idempotent (from %q)", g, h, c.Garbage)
	}
	if h := locale.Normalize(c.Garbage); h != g {
		return fmt.Errorf("Normalize(%q) gives %q and %q", c.Garbage, g, h)
	}
	// wherever a language enters
	ts := t.NewTranslations()
	t.SetGlobal(ts)
	ts.SetLocale(c.A)
	if got := ts.Locale(); got != want {
		return fmt.Errorf("SetLocale(%q): Locale() = %q, want %q", c.A, got, want)
	}
	if err := checkEnvLocale(ts, c, o); err != nil {
		return err
	}
	ts.SetLocale(c.A)
	if c.Garbage != "" {
		if got := ts.L(c.Garbage).Locale(); got != g {
			return fmt.Errorf("L(%q): Locale() = %q, want %q", c.Garbage, got, g)
		}
	}
	t.SetSourceCodeLocale(c.B)
	if got := ts.SourceCodeLocale(); got != want {
		return fmt.Errorf("SetSourceCodeLocale(%q) gives %q, want %q", c.B, got, want)
	}
	if ls := ts.Locales(); len(ls) != 1 || ls[0] != want {
		return fmt.Errorf("Locales() = %v, want [%s]", ls, want)
	}
	if strings.ContainsAny(c.B, "\n\r") {
		return nil
	}
	msgs := treeCatalog(c.B, "m").withHeader()
	for i, fsys := range []fstest.MapFS{{"x.po": {Data: []byte(plainPo(msgs))}}, {"x.mo": {Data: plainMO(msgs)}}} {
		dom := fmt.Sprint("d", i)
		ts.BindFS(dom, fsys)
		v := ts.D(dom)
		if got := v.T("who"); got != "m" {
			return fmt.Errorf("catalog with language %q does not answer for locale %q (used locale %q)", c.B, c.A, v.UsedLocale())
		}
		if got := v.UsedLocale(); got != want {
			return fmt.Errorf("UsedLocale() = %q, want %q", got, want)
		}
		if ls := v.Locales(); len(ls) != 1 || ls[0] != want {
			return fmt.Errorf("Locales() with source %q and catalog %q = %v, want [%s]", c.B, c.B, ls, want)
		}
		if got := ts.D(dom).L(c.B).X("c", "who"); got != "m-c" {
			return fmt.Errorf("catalog with language %q does not answer for locale %q", c.B, c.B)
		}
		v.SetSourceCodeLocale("ga_IE")
		if want != "ga_IE" {
			two := []string{"ga_IE", want}
			sort.Strings(two)
			if ls := v.Locales(); strings.Join(ls, " ") != strings.Join(two, " ") {
				return fmt.Errorf("Locales() = %v, want %v", ls, two)
			}
		}
	}
	tr := t.NewTranslation("x")
	if err := loadOwn(tr.LoadPo, []byte(plainPo(msgs))); err != nil {
		return err
	}
	if _, ok := tr.Get(want); !ok {
		return fmt.Errorf("catalog with language %q is not available as %q", c.B, want)
	}
	if prev := tr.AddOrReplace(treeCatalog(c.A, "n").file()); prev == nil {
		return fmt.Errorf("a catalog for %q does not replace the one for %q", c.A, c.B)
	}
	if got := tr.GetOrNoop(want).X("", "who"); got != "n" {
		return fmt.Errorf("after replacing, %q answers %q", want, got)
	}
	return nil
}

// ---------------------------------------------------------------- C18

// Major languages that are no fallback of one another.
var unrelated = []string{"zh_CN", "en_US", "de_DE", "fr_FR", "ja_JP", "ko_KR", "ar_EG", "th_TH", "es_ES", "tr_TR", "el_GR", "hu_HU", "fi_FI"}

// farther are further languages unrelated to one another, to those and to the related ones (checked with the
// matcher of x/text on two million random lists).
var farther = []string{"am_ET", "he_IL", "hi_IN", "it_IT", "nl_NL", "pl_PL", "vi_VN", "id_ID", "cs_CZ", "ro_RO", "sv_SE", "et_EE", "lv_LV", "lt_LT", "sl_SI", "sw_TZ", "sq_AL", "bg_BG", "mn_MN", "is_IS", "mk_MK", "ta_IN", "bn_BD", "km_KH", "my_MM", "fa_IR", "ka_GE"}
var related = []string{"zh_CN", "zh_TW", "zh_HK", "en_US", "en_GB", "en_AU", "pt_BR", "pt_PT", "es_ES", "es_MX", "fr_FR", "fr_CA", "de_DE", "de_AT", "sr_RS", "nb_NO", "da_DK"}

type negCase struct {
	Sup    []string
	Source string
	Prefs  []string
	Q      []int    // thousandths, one per preference; 0 excludes it
	Lines  int      `json:",omitempty"` // where the header continues on another line
	Junk   []string `json:",omitempty"` // elements of the header that name no language
	Seps   []int
	Cookie S
	Name   string
	Locale string
	Odd    []string // further odd preferences for the "always supported" part
}

func tagStyle(s string, k int) string {
	s = strings.ReplaceAll(s, "_", "-")
	switch k % 3 {
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	}
	return s
}

func checkC18(c negCase, o *Obs) error {
	ts := t.NewTranslations()
	t.SetGlobal(ts)
	fsys := fstest.MapFS{}
	for _, l := range c.Sup {
		fsys[l+".po"] = &fstest.MapFile{Data: []byte(plainPo(treeCatalog(l, S(l)).withHeader()))}
	}
	ts.SetSourceCodeLocale(c.Source)
	ts.BindFS("default", fsys)
	sup := ts.Locales()
	in := map[string]bool{}
	for _, l := range sup {
		in[l] = true
	}
	// the first preference that is supported; honoured exactly when nothing
	// before it is related to a supported language
	exact := ""
	order := make([]int, len(c.Prefs))
	for i := range order {
		order[i] = i
	}
	byQ := append([]int{}, order...)
	sort.SliceStable(byQ, func(i, j int) bool { return c.Q[byQ[i]] > c.Q[byQ[j]] })
	isUnrelated := func(l string) bool {
		for _, s := range sup {
			if s[:2] == l[:2] {
				return false
			}
		}
		return slices.Contains(unrelated, l) || slices.Contains(farther, l)
	}
	first := func(order []int) string {
		for _, i := range order {
			if in[c.Prefs[i]] {
				return c.Prefs[i]
			}
			if !isUnrelated(c.Prefs[i]) {
				return ""
			}
		}
		return ""
	}
	exact = first(order)
	for len(byQ) > 0 && c.Q[byQ[len(byQ)-1]] == 0 { // q=0: not acceptable
		byQ = byQ[:len(byQ)-1]
		o.Label("q0")
	}
	all := append(append([]string{}, c.Prefs...), c.Odd...)
	tag, i, conf := t.Match(sup, c.Prefs)
	if i < 0 || i >= len(sup) {
		return fmt.Errorf("Match(%v, %v): index %d", sup, c.Prefs, i)
	}
	if exact != "" {
		o.NT()
		o.Label("exact")
		o.LabelIf(exact != c.Prefs[0], "exact-not-first")
		if sup[i] != exact {
			return fmt.Errorf("Match(%v, %v) picks %s, want %s", sup, c.Prefs, sup[i], exact)
		}
		if locale.NormalizeTag(tag) != exact {
			return fmt.Errorf("Match(%v, %v) gives tag %v for %s", sup, c.Prefs, tag, exact)
		}
		if conf == language.No {
			return fmt.Errorf("Match(%v, %v): no confidence in the exact match %s", sup, c.Prefs, exact)
		}
	}
	tag2, i2, conf2 := t.MatchTag(t.Tags(sup), t.Tags(c.Prefs))
	if tag != tag2 || i != i2 || conf != conf2 {
		return fmt.Errorf("Match and MatchTag differ on %v, %v: %v %d %v / %v %d %v", sup, c.Prefs, tag, i, conf, tag2, i2, conf2)
	}
	if _, j, _ := t.Match(sup, all); j < 0 || j >= len(sup) {
		return fmt.Errorf("Match(%v, %q): index %d", sup, all, j)
	}
	// Accept-Language
	var parts []string
	for k, p := range c.Prefs {
		s := tagStyle(p, k+len(c.Seps))
		if q := c.Q[k]; q < 1000 {
			s += fmt.Sprintf(";q=%d.%03d", q/1000, q%1000)
		}
		parts = append(parts, s)
	}
	sep := []string{", ", ",", " , "}[len(c.Seps)%3]
	header := strings.Join(parts, sep)
	req := func(h string) *http.Request {
		r, _ := http.NewRequest("GET", "http://example.com/", nil)
		if h != "" {
			r.Header.Set("Accept-Language", h)
		}
		return r
	}
	got := t.GetUserLang(req(header))
	if !in[got] {
		return fmt.Errorf("GetUserLang(%q) = %q, not one of %v", header, got, sup)
	}
	if exact := first(byQ); exact != "" && got != exact {
		return fmt.Errorf("GetUserLang(%q) with %v = %q, want %q", header, sup, got, exact)
	}
	// the same preferences over several header lines
	if c.Lines != 0 {
		r := req("")
		var line []string
		n := 0
		for k, p := range parts {
			if k > 0 && c.Lines>>(k%30)&1 == 1 {
				r.Header.Add("Accept-Language", strings.Join(line, sep))
				line = nil
				n++
			}
			line = append(line, p)
		}
		r.Header.Add("Accept-Language", strings.Join(line, sep))
		if g := t.GetUserLang(r); g != got {
			return fmt.Errorf("GetUserLang with Accept-Language lines %q = %q, but %q with the same in one line", r.Header["Accept-Language"], g, got)
		}
		o.LabelIf(n > 0, "several-lines")
	}
	// elements that name no language do not take the others away
	if len(c.Junk) > 0 {
		mix := append([]string{}, parts...)
		for k, j := range c.Junk {
			at := (c.Lines + 7*k) % (len(mix) + 1)
			mix = append(mix[:at], append([]string{j}, mix[at:]...)...)
		}
		h := strings.Join(mix, sep)
		g := t.GetUserLang(req(h))
		if exact := first(byQ); exact != "" {
			o.Label("junk")
			if g != exact {
				return fmt.Errorf("GetUserLang(%q) with %v = %q, want %q", h, sup, g, exact)
			}
		}
		if !in[g] {
			return fmt.Errorf("GetUserLang(%q) = %q, not one of %v", h, g, sup)
		}
	}
	odd := strings.Join(c.Odd, ",")
	if g := t.GetUserLang(req(odd)); !in[g] {
		return fmt.Errorf("GetUserLang(%q) = %q, not one of %v", odd, g, sup)
	}
	// cookie
	if c.Cookie != "" {
		name := "lang"
		var r *http.Request
		with := func() string {
			if c.Name == "" {
				return t.GetUserLang(r)
			}
			return t.GetUserLang(r, t.WithCookieName(c.Name))
		}
		if c.Name != "" {
			name = c.Name
			o.Label("cookie-name")
		}
		r = req(header)
		r.AddCookie(&http.Cookie{Name: "x" + name, Value: "zz"})
		if g := with(); g != got {
			return fmt.Errorf("GetUserLang with an unrelated cookie gives %q, without %q", g, got)
		}
		if name != "lang" {
			r.AddCookie(&http.Cookie{Name: "lang", Value: "zz"})
			if g := with(); g != got {
				return fmt.Errorf("GetUserLang under cookie name %q takes the cookie \"lang\": %q", name, g)
			}
		}
		r.AddCookie(&http.Cookie{Name: name, Value: string(c.Cookie)})
		if g := with(); g != string(c.Cookie) {
			return fmt.Errorf("GetUserLang with cookie %s=%s gives %q", name, c.Cookie, g)
		}
		o.Label("cookie")
	}
	// the instance's own most match
	for _, v := range []*t.Translations{ts.L(c.Locale), func() *t.Translations { x := t.NewTranslations(); x.SetLocale(c.Locale); return x }()} {
		ls := v.Locales()
		_, i, _ := t.Match(ls, []string{v.Locale()})
		if g := v.MostMatchLocale(); g != ls[i] {
			return fmt.Errorf("MostMatchLocale() = %q, but matching %q with %v gives %q", g, v.Locale(), ls, ls[i])
		}
	}
	// only the arguments count: another state, the same answers
	t.SetGlobal(t.NewTranslations())
	t.SetLocale("ja_JP")
	if tag3, i3, conf3 := t.Match(sup, c.Prefs); tag3 != tag || i3 != i || conf3 != conf {
		return fmt.Errorf("Match(%v, %v) gives %v %d %v and in another state %v %d %v", sup, c.Prefs, tag, i, conf, tag3, i3, conf3)
	}
	if ts.L(c.Locale).MostMatchLocale() != func() string { t.SetGlobal(ts); return ts.L(c.Locale).MostMatchLocale() }() {
		return errors.New("MostMatchLocale depends on the global instance")
	}
	return nil
}

// ---------------------------------------------------------------- C19

type custom struct{ a, b int }

func (c custom) String() string { return fmt.Sprintf("custom<%d,%d>", c.a, c.b) }

type formatter struct{}

func (formatter) Format(s fmt.State, v rune) {
	w, _ := s.Width()
	fmt.Fprintf(s, "[%c %d]", v, w)
}

var argPool = []any{1, -5, int64(1) << 40, uint8(7), 3.25, "x", "", "100%", "%d", "中", nil, true, 'r', []int{1, 2}, map[string]int{"k": 1}, errors.New("e%s"), custom{1, 2}, formatter{}, struct{ X, Y int }{3, 4}, []byte("by"), [2]string{"p", "q"}, complex(1, -2), "%!(EXTRA int=1)", []any{1, "s"}}

type fmtCase struct {
	Text  S
	Text2 S
	Args  []int
	N     int64
	Lang  bool
}

// expectFormat is what Sprintf gives for the arguments the text uses.
func expectFormat(text string, args []any) (want []string, used int) {
	if len(args) == 0 {
		return []string{text}, 0
	}
	full := fmt.Sprintf(text, args...)
	for k := 0; k <= len(args); k++ {
		s := fmt.Sprintf(text, args[:k]...)
		if k < len(args) {
			s2 := s + "%!(EXTRA "
			for i, a := range args[k:] {
				if i > 0 {
					s2 += ", "
				}
				if a == nil {
					s2 += "<nil>"
				} else {
					s2 += fmt.Sprintf("%T=%v", a, a)
				}
			}
			if s2+")" != full {
				continue
			}
		}
		// an argument beyond the list may count as missing or as empty text
		// (the existing tests pin the latter)
		want = append(want, s)
		if k == len(args) {
			if e := fmt.Sprintf(text, append(append([]any{}, args...), "")...); !strings.HasSuffix(e, "%!(EXTRA string=)") {
				want = append(want, e)
			}
		}
		return want, k
	}
	return nil, 0
}

func checkC19(c fmtCase, o *Obs) error {
	var args []any
	for _, i := range c.Args {
		args = append(args, argPool[i%len(argPool)])
	}
	text, text2 := string(c.Text), string(c.Text2)
	want, used := expectFormat(text, args)
	want2, _ := expectFormat(text2, args)
	o.LabelIf(len(args) > 0 && used < len(args), "surplus")
	o.LabelIf(len(args) == 0 && strings.Contains(text, "%"), "no-args-with-verb")
	if strings.Contains(text, "%") || used < len(args) {
		o.NT()
	}
	ok := func(what, got string, want []string) error {
		for _, w := range want {
			if got == w {
				return nil
			}
		}
		return fmt.Errorf("%s of %s with %d args %#v: got %s, want %q", what, q(text), len(args), args, q(got), want)
	}
	if err := ok("Format", f.Format(text, args...), want); err != nil {
		return err
	}
	one := want
	if text2 != "" && c.N != 1 {
		one = want2
	}
	if err := ok("DefaultPlural", f.DefaultPlural(text, text2, c.N, args...), one); err != nil {
		return err
	}
	if text == "" {
		return nil
	}
	// fallback texts and translated texts
	cat := &Catalog{Lang: "zh_CN", Rule: &Rule{2, "n != 1"}, Msgs: []Msg{{ID: "s", Str: c.Text}, {Ctxt: "c", ID: "s", Str: c.Text}, {ID: "p", Plural: true, ID2: "ps", StrN: []S{c.Text, c.Text2}}}}
	ts := t.NewTranslations()
	ts.BindFS("default", fstest.MapFS{"x.mo": {Data: plainMO(cat.withHeader())}})
	t.SetGlobal(ts)
	for _, loc := range []string{"zh_CN", "fr_FR"} {
		ts.SetLocale(loc)
		if loc == "zh_CN" {
			pf := one
			if c.N != 1 && text2 == "" { // an empty form falls back to the id
				pf, _ = expectFormat("ps", args)
			}
			for _, e := range []struct {
				what, got string
				want      []string
			}{
				{"translated T", ts.T("s", args...), want}, {"translated t.T", t.T("s", args...), want}, {"translated X", ts.X("c", "s", args...), want}, {"translated N64", ts.N64("p", "ps", c.N, args...), pf},
			} {
				if err := ok(e.what, e.got, e.want); err != nil {
					return err
				}
			}
		}
		if text == "s" || text == "p" {
			continue
		}
		for _, e := range []struct {
			what, got string
			want      []string
		}{
			{"fallback T", ts.T(text, args...), want}, {"fallback X", ts.X("k", text, args...), want}, {"fallback N64", ts.N64(text, text2, c.N, args...), one}, {"fallback XN64", t.XN64("k", text, text2, c.N, args...), one},
			{"fallback N1_64", ts.N1_64(text, c.N, args...), want},
			{"no-op X", t.NoopTranslator().X("", text, args...), want}, {"no-op XN64", t.NoopTranslator().XN64("", text, text2, c.N, args...), one},
		} {
			if err := ok(e.what+" in "+loc, e.got, e.want); err != nil {
				return err
			}
		}
	}
	return nil
}

var verbs = []string{"%d", "%s", "%v", "%+v", "%#v", "%T", "%q", "%x", "%X", "%5d", "%-5s|", "%05d", "%.2f", "%8.3f", "%*d", "%.*f", "%c", "%t", "%e", "%%", "%%", "%p", "%w", "%z", "%!", "%é", "% d", "%+d", "%U", "%b", "%o", "%O",
	"%[1]d", "%[2]s", "%[3]v", "%[2]*[1]d", "%[1]s %s", "%[9]d", "%[0]d", "%[]d", "%[x]d", "%[1", "%[1]", "%[", "%.", "%5", "%-", "%", "% ", "%.[2]*f", "%.-3d"}

func genFmtText(rt *rapid.T, label string) S {
	var b strings.Builder
	for i := size(rt, label+".n", 0, 6, 100); i > 0; i-- {
		if chance(rt, label+".verb", 60) {
			b.WriteString(pick(rt, label, verbs...))
		} else {
			b.WriteString(string(text(rt, label+".t", TextOpt{Short: true, CR: true, Bad: true})))
		}
	}
	if b.Len() > 0 && chance(rt, label+".long", 5) { // long texts, many directives
		return S(strings.Repeat(b.String(), pick(rt, label+".rep", 2, 5, 13, 40, 300)))
	}
	if chance(rt, label+".pad", 5) {
		if v, ok := dictInt(rt, label, 1, 20000); ok && chance(rt, label+".padd", 40) {
			return S(exactly("x", int(v)) + b.String())
		}
		return S(strings.Repeat(pick(rt, label+".padc", "x", "text ", "中", "100% ", "%%"), pick(rt, label+".padn", 20, 64, 129, 256, 1000, 5000)) + b.String())
	}
	return S(b.String())
}

// ---------------------------------------------------------------- C22

type headOp struct {
	Kind string // header, other, ask
	Text S      `json:",omitempty"`
	Rule *Rule  `json:",omitempty"` // first Plural-Forms of the text
	Msg  Msg
	Key  string
	N    int64
}

type headCase struct {
	Ops  []headOp
	Read string // start from a file read as po or mo
}

func drawHeader(rt *rapid.T) (S, *Rule) {
	var lines []string
	var first *Rule
	n := size(rt, "h.n", 0, 6, 300)
	if chance(rt, "h.many", 10) {
		n = intn(rt, "h.n2", 10, 60)
	}
	for i := n; i > 0; i-- {
		k := pick(rt, "h.k", "Language", "Language", "Plural-Forms", "Plural-Forms", "X-A", "X-B", "language", " X-A", "MIME-Version", "", "#X-A", "# X", "\"X-A", "Content-Type", "X.C", "X-Ünï")
		v := ""
		if k == "Plural-Forms" {
			r := rule(rt)
			if first == nil {
				first = r
			}
			v = r.header(pfStyle(rt))
		} else {
			v = pick(rt, "h.v", "zh_CN", "de_DE", "", "a: b", "http://x: y:z", "  padded  ", "x:y", "中文", "1.0", ":", ": ")
			if chance(rt, "h.dict", 8) {
				v = strings.NewReplacer("\n", "", "\r", "", "\x00", "", "\x04", "").Replace(dictStr(rt, "h.v", nil))
			}
			if chance(rt, "h.long", 3) {
				v = strings.Repeat(v+"long: ", pick(rt, "h.longn", 20, 50, 200, 1000, 12000))
			}
		}
		sep := pick(rt, "h.sep", ": ", ": ", ": ", ":  ", ":", ":\t", " : ", " ")
		if k == "Plural-Forms" {
			sep = ": "
		}
		lines = append(lines, k+sep+v)
		if chance(rt, "h.blank", 10) {
			lines = append(lines, "")
		}
	}
	s := strings.Join(lines, "\n")
	if chance(rt, "h.nl", 70) {
		s += "\n"
	}
	if (s == "" || s == "\n") && chance(rt, "h.only", 50) {
		s = "X-A: only\n"
	}
	return S(s), first
}

func checkC22(c headCase, o *Obs) error {
	file := new(translator.File)
	cur := map[string]string{}
	var curRule *Rule
	entries := map[string]Msg{}
	probe := Msg{ID: "p!", Plural: true, ID2: "ps!", StrN: []S{"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"}}
	add := func(m Msg) { file.AddEntry(m.entry()); entries[m.key()] = m }
	look := func(m Msg) error { // what the catalog answers for the key of m right now
		cat := &Catalog{Rule: curRule, NoHdr: true}
		if e, ok := entries[m.key()]; ok {
			cat.Msgs = append(cat.Msgs, e)
			if e.Plural {
				m = e
			}
		}
		return checkLookups("now", file, newModel(cat), []Probe{{Plural: m.Plural, Ctxt: m.Ctxt, ID: m.ID, ID2: m.ID2, N: 2}}, nil)
	}
	headers := 0
	verify := func(keys []string, ns []int64) error {
		for _, k := range keys {
			w, okw := cur[k]
			g, ok := file.GetHeader(k)
			if g != w || ok != okw {
				return fmt.Errorf("GetHeader(%q) = %q %v, want %q %v", k, g, ok, w, okw)
			}
		}
		if g := file.Lang(); g != cur["Language"] {
			return fmt.Errorf("Lang() = %q, want %q", g, cur["Language"])
		}
		m := newModel(&Catalog{Rule: curRule, NoHdr: true, Msgs: []Msg{probe}})
		if _, ok := entries[probe.key()]; !ok {
			return nil
		}
		for _, n := range ns {
			if err := checkLookups("plural", file, m, []Probe{{Plural: true, ID: "p!", ID2: "ps!", N: n}}, nil); err != nil {
				return err
			}
		}
		return nil
	}
	keys := []string{"Language", "Plural-Forms", "X-A", "X-B", "language", " X-A", "MIME-Version", "", "#X-A", "# X", "\"X-A", "Content-Type", "X.C", "X-Ünï", ": ", "a", "http"}
	if c.Read != "" {
		m := Msg{Str: "Language: fr_FR\nPlural-Forms: nplurals=2; plural=n>1;\nX-A: read\n"}
		var err error
		if c.Read == "po" {
			file, err = readPoOwn([]byte(plainPo([]Msg{m, probe})))
		} else {
			file, err = readMoOwn(plainMO([]Msg{m, probe}))
		}
		if err != nil {
			return err
		}
		entries[m.key()], entries[probe.key()] = m, probe
		cur, curRule = headerFields(string(m.Str)), &Rule{2, "n>1"}
		o.Label("read-" + c.Read)
		if err := verify(keys, stdNs); err != nil {
			return err
		}
	}
	for i, op := range c.Ops {
		switch op.Kind {
		case "header":
			m := Msg{Str: op.Text, Cmts: op.Msg.Cmts}
			add(m)
			cur, curRule = headerFields(string(op.Text)), op.Rule
			headers++
		case "probe":
			add(probe)
		case "fill":
			for k := int64(0); k < op.N; k++ {
				add(Msg{ID: S(fmt.Sprintf("fill %d", k)), Str: S(fmt.Sprintf("op %d", i))})
			}
		case "other":
			if err := look(op.Msg); err != nil {
				return fmt.Errorf("before op %d: %w", i, err)
			}
			add(op.Msg)
			if err := look(op.Msg); err != nil {
				return fmt.Errorf("after op %d: %w", i, err)
			}
		case "askall":
			if err := verify(keys, stdNs); err != nil {
				return fmt.Errorf("after op %d: %w", i, err)
			}
		case "ask":
			if err := verify([]string{op.Key}, []int64{op.N}); err != nil {
				return fmt.Errorf("after op %d: %w", i, err)
			}
		}
		o.Label(op.Kind)
	}
	if headers > 1 || headers == 1 && c.Read != "" {
		o.NT()
	}
	if err := verify(keys, stdNs); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	var must []Msg
	for _, m := range entries {
		must = append(must, m)
	}
	sort.Slice(must, func(i, j int) bool { return must[i].key() < must[j].key() })
	if err := sameEntries(file.SortedEntry(), must, nil, true); err != nil {
		return fmt.Errorf("entries: %w", err)
	}
	var rest []Msg
	for _, m := range must {
		if m.Ctxt != "" || m.ID != "" {
			rest = append(rest, m)
		}
	}
	cat := &Catalog{NoHdr: true, Rule: curRule, Msgs: rest}
	return checkLookups("catalog", file, newModel(cat), allProbes(cat, stdNs...), nil)
}

// ---------------------------------------------------------------- C23

type ref struct {
	File      string
	Line, Col int // Col -1: none
}

type orderCase struct {
	Cat   Catalog
	Perm  []int
	Perm2 []int
	Dup   []int
	Refs  [][]ref // nil: comments are free and the order is not predicted
	HPos  int
}

func checkC23(c orderCase, o *Obs) error {
	labelTexts(&c.Cat, o)
	msgs := c.Cat.withHeader()
	build := func(perm []int, dups bool) *translator.File {
		f := new(translator.File)
		if dups { // earlier versions, all replaced
			for _, d := range c.Dup {
				m := msgs[d%len(msgs)]
				m.Str, m.StrN, m.Plural, m.ID2, m.Cmts = "old", nil, false, "", []S{"#: old.go:1"}
				f.AddEntry(m.entry())
			}
		}
		for _, i := range perm {
			f.AddEntry(msgs[i].entry())
		}
		return f
	}
	if len(msgs) == 0 {
		return nil
	}
	id := make([]int, len(msgs))
	for i := range id {
		id[i] = i
	}
	if len(c.Perm) != len(msgs) || len(c.Perm2) != len(msgs) {
		return errors.New("harness: permutation")
	}
	base := build(id, false)
	others := []*translator.File{build(c.Perm, true), build(c.Perm2, false), build(id, true)}
	list := func(f *translator.File) (out []Msg) {
		for _, e := range f.SortedEntry() {
			out = append(out, fromEntry(e))
		}
		return
	}
	keys := func(ms []Msg) (out []string) {
		for _, m := range ms {
			out = append(out, m.key())
		}
		return
	}
	l0 := list(base)
	if err := sameEntries(base.SortedEntry(), msgs, nil, true); err != nil {
		return err
	}
	if !c.Cat.NoHdr && l0[0].key() != "\x04" {
		return fmt.Errorf("the header is not listed first: %q", keys(l0))
	}
	if len(msgs) > 2 {
		o.NT()
	}
	var want [3][]byte
	saves := []func(*translator.File) ([]byte, error){poBytes, potBytes, moBytes}
	for i, s := range saves {
		b, err := s(base)
		if err != nil {
			return err
		}
		want[i] = b
	}
	for k, f := range append(others, base) {
		if g := keys(list(f)); strings.Join(g, "\x00") != strings.Join(keys(l0), "\x00") {
			return fmt.Errorf("order depends on the insertion order: %q and %q (%d)", keys(l0), g, k)
		}
		for i, s := range saves {
			b, err := s(f)
			if err != nil {
				return err
			}
			if !bytes.Equal(b, want[i]) {
				return fmt.Errorf("%s bytes depend on the insertion order: %s", []string{"PO", "POT", "MO"}[i], diffAt(want[i], b))
			}
		}
	}
	// the listed order is the saved order
	for i := 0; i < 2; i++ {
		es, err := strictPO(want[i])
		if err != nil {
			continue
		}
		var got []string
		for _, e := range es {
			got = append(got, e.key())
		}
		if strings.Join(got, "\x00") != strings.Join(keys(l0), "\x00") {
			return fmt.Errorf("saved order %q differs from the list %q", got, keys(l0))
		}
	}
	if c.Refs == nil {
		return nil
	}
	o.Label("predicted-order")
	refs := map[string][]ref{}
	for i, m := range c.Cat.Msgs {
		refs[m.key()] = c.Refs[i]
	}
	exp := append([]Msg{}, c.Cat.Msgs...)
	sort.SliceStable(exp, func(i, j int) bool {
		a, b := refs[exp[i].key()], refs[exp[j].key()]
		for k := range a {
			if k >= len(b) {
				break
			}
			if a[k] != b[k] {
				if a[k].File != b[k].File {
					return a[k].File < b[k].File
				}
				if a[k].Line != b[k].Line {
					return a[k].Line < b[k].Line
				}
				return a[k].Col < b[k].Col
			}
		}
		if exp[i].Ctxt != exp[j].Ctxt {
			return exp[i].Ctxt < exp[j].Ctxt
		}
		return exp[i].ID < exp[j].ID
	})
	got := l0
	if !c.Cat.NoHdr {
		got = l0[1:]
	}
	for i := range exp {
		if got[i].key() != exp[i].key() {
			return fmt.Errorf("entry %d is %q (%v), want %q (%v)", i, got[i].key(), refs[got[i].key()], exp[i].key(), refs[exp[i].key()])
		}
	}
	return nil
}

// ---------------------------------------------------------------- C25

type faultyWriter struct {
	buf   bytes.Buffer
	limit int // bytes accepted before the fault
	mode  string
	err   error
	fired bool
}

func (w *faultyWriter) Write(b []byte) (int, error) {
	left := w.limit - w.buf.Len()
	if w.fired && w.mode != "once" {
		return 0, w.err
	}
	if w.fired || len(b) < left || len(b) == left && w.mode != "full+err" {
		w.buf.Write(b)
		return len(b), nil
	}
	w.fired = true
	switch w.mode {
	case "none": // refuses the whole write
		return 0, w.err
	case "short": // accepts part without an error
		w.buf.Write(b[:max(left, 0)])
		w.err = nil
		return max(left, 0), nil
	case "full+err": // accepts everything and fails
		w.buf.Write(b)
		return len(b), w.err
	}
	w.buf.Write(b[:max(left, 0)]) // "part", "once"
	return max(left, 0), w.err
}

type writeCase struct {
	Cat  Catalog
	Mode string
	Step int
	Err  string `json:",omitempty"` // which error the destination gives, "" for one of its own
}

// destination errors that real writers give
var writeErrors = map[string]error{
	"eof":         io.EOF,
	"closed pipe": io.ErrClosedPipe,
	"short write": io.ErrShortWrite,
	"epipe":       &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE},
	"enospc":      &os.PathError{Op: "write", Path: "a.po", Err: syscall.ENOSPC},
	"eagain":      syscall.EAGAIN,
	"eintr":       syscall.EINTR,
	"eio":         &os.PathError{Op: "write", Path: "a.po", Err: syscall.EIO},
	"closed":      &os.PathError{Op: "write", Path: "a.po", Err: os.ErrClosed},
	"deadline":    os.ErrDeadlineExceeded,
	"canceled":    context.Canceled,
	"unexpected":  io.ErrUnexpectedEOF,
}

type destErr struct{ at int }

func (e *destErr) Error() string { return fmt.Sprintf("destination full at %d", e.at) }

func checkC25(c writeCase, o *Obs) error {
	f := c.Cat.file()
	for _, form := range []struct {
		name string
		save func(*translator.File, *faultyWriter) error
	}{
		{"SaveAsPo", func(f *translator.File, w *faultyWriter) error { return f.SaveAsPo(w) }},
		{"SaveAsPot", func(f *translator.File, w *faultyWriter) error { return f.SaveAsPot(w) }},
		{"SaveAsMo", func(f *translator.File, w *faultyWriter) error { return f.SaveAsMo(w) }},
	} {
		clean := &faultyWriter{limit: 1 << 30}
		if err := form.save(f, clean); err != nil {
			return fmt.Errorf("%s to a good destination: %v", form.name, err)
		}
		all := clean.buf.Bytes()
		if len(all) == 0 {
			continue
		}
		// chunk-wise identical to the in-memory save
		step := 1
		if len(all) > 1500 {
			step = c.Step
		}
		for k := 0; k <= len(all); k += step {
			w := &faultyWriter{limit: k, mode: c.Mode, err: &destErr{k}}
			if e := writeErrors[c.Err]; e != nil {
				w.err = e
			}
			injected := w.err
			err := form.save(f, w)
			if !w.fired {
				if err != nil {
					return fmt.Errorf("%s: error without a fault: %v", form.name, err)
				}
				if !bytes.Equal(w.buf.Bytes(), all) {
					return fmt.Errorf("%s: another save wrote other bytes", form.name)
				}
				continue
			}
			o.NT()
			o.Label(form.name + "-" + c.Mode)
			if err == nil {
				return fmt.Errorf("%s: destination failed (%s) at byte %d of %d, no error returned", form.name, c.Mode, k, len(all))
			}
			if c.Mode != "short" {
				var de *destErr
				if !errors.Is(err, injected) || c.Err == "" && !errors.As(err, &de) {
					return fmt.Errorf("%s: the error %q does not carry the destination's failure", form.name, err)
				}
			}
			if !bytes.HasPrefix(all, w.buf.Bytes()) && c.Mode != "once" {
				return fmt.Errorf("%s: the bytes before the fault are not a prefix of the file", form.name)
			}
		}
	}
	return nil
}

func init() {
	register(Prop{
		ID: "C17", Quick: 240000, Thorough: 19200000, Silent: true,
		Technique: "property-based testing of language spellings against a CLDR table",
		Level:     "exploration",
		Note:      "Spellings (case, separators, script, extensions, codeset, modifier) of 66 languages and 63 regions are generated in pairs; both must normalize to the tabulated canonical name and select the same catalog through every entrance; garbage must give valid, idempotent, deterministic results.",
		Rule:      "language x region x two spellings + one odd input; non-trivial = a spelling differs from the canonical name",
		Assume:    []string{"no deprecated or private-use subtags", "script subtags are ones usual for the language"},
	}, genLang, checkC17, nil)

	register(Prop{
		ID: "C18", Quick: 80000, Thorough: 6400000, Silent: true,
		Technique: "property-based testing of negotiation against an exact-preference model",
		Level:     "exploration",
		Note:      "Supported sets and preference lists over unrelated and related languages, with quality values, odd headers and cookies; the result must be supported, honour the first exact preference when nothing related precedes it, and not depend on any other state.",
		Rule:      "0-9, at times up to 40 preferences with random q; non-trivial = some preference is exactly supported with only unrelated ones before it",
		Assume:    []string{"which supported language is picked when none matches is not specified", "cookie values are non-empty valid cookie text"},
	}, func(rt *rapid.T) negCase {
		c := negCase{Source: pick(rt, "source", "en_US", "en_US", "zh_CN", "de_DE", "en_GB")}
		pool := unrelated
		if chance(rt, "related", 50) {
			pool = related
		} else if chance(rt, "far", 30) {
			pool = append(slices.Clone(unrelated), farther...)
		}
		lo, hi := 0, 5
		if chance(rt, "manylangs", 30) {
			lo, hi = 4, 14
		}
		c.Sup = rapid.SliceOfNDistinct(rapid.SampledFrom(pool), lo, min(hi, len(pool)), rapid.ID[string]).Draw(rt, "sup")
		ppool := pool
		if chance(rt, "mixed", 30) {
			ppool = append(append([]string{}, unrelated...), related...)
		}
		if chance(rt, "farther", 30) {
			ppool = append(slices.Clone(ppool), farther...)
		}
		least, most := 0, 9
		if chance(rt, "manyprefs", 20) {
			most = 60
			if chance(rt, "verymany", 60) {
				least = min(len(ppool), 25)
			}
		}
		c.Prefs = rapid.SliceOfNDistinct(rapid.SampledFrom(ppool), least, min(most, len(ppool)), rapid.ID[string]).Draw(rt, "prefs")
		qs := rapid.SliceOfNDistinct(rapid.OneOf(rapid.SampledFrom([]int{1000, 1, 10, 100, 150, 200, 250, 300, 301, 400, 500, 600, 700, 800, 850, 900, 950, 999}), rapid.IntRange(1, 1000)), len(c.Prefs), len(c.Prefs), rapid.ID[int]).Draw(rt, "q")
		if chance(rt, "sameq", 25) {
			for i := range qs {
				qs[i] = pick(rt, "q2", 1000, 1000, 500, 800)
			}
		}
		for i := range qs {
			if chance(rt, "q0", 8) {
				qs[i] = 0
			}
		}
		c.Q = qs
		if chance(rt, "lines", 50) {
			c.Lines = intn(rt, "lines.at", 1, 1023)
		}
		for i := intn(rt, "junk.n", 0, 2); i > 0; i-- {
			c.Junk = append(c.Junk, pick(rt, "junk", "zz", "zz-ZZ", "zz;q=0.9", "xx;q=abc", "a", "q", "", ";q=1", "123456789", "abcdefghij", "zz_ZZ", "-", "*-x", "=", "\x00", "\xff", "zz;level=1"))
		}
		c.Seps = make([]int, intn(rt, "seps", 0, 5))
		c.Locale = rapid.SampledFrom(append(append([]string{}, related...), "ja", "zh", "C", "fr-BE")).Draw(rt, "loc")
		if chance(rt, "cookie", 50) {
			c.Cookie = S(pick(rt, "cookie.v", "zh_CN", "de", "anything", "zz_ZZ", "en-GB"))
			c.Name = pick(rt, "cookie.name", "", "", "l", "site_lang", "LANG")
		}
		for i := intn(rt, "odd", 0, 3); i > 0; i-- {
			c.Odd = append(c.Odd, pick(rt, "odd.v", "*", "", "zz", "en;q=0", "de;q=abc", ";q=1", "x-y", "und", "zh-Hant-x-foo", "en-GB-oed", "a", "\x00", "fr;q=2", "ko;q=-1", "i-klingon", "root", "sl-rozaj-biske-1994"))
		}
		return c
	}, checkC18, nil)

	register(Prop{
		ID: "C19", Quick: 400000, Thorough: 32000000, Silent: true,
		Technique: "differential property-based testing against fmt.Sprintf with surplus arguments removed",
		Level:     "exploration",
		Note:      "The number k of arguments the text uses is found from Sprintf itself (its EXTRA report must equal the report for the arguments after k); the expected text is Sprintf of the first k. The same expectation is applied to translated and fallback lookups.",
		Rule:      "texts of verbs, flags, explicit indexes, dangling and invalid directives and odd bytes, 0-5 arguments of 24 kinds; non-trivial = the text contains % or an argument is surplus",
		Assume:    []string{"for a text that needs more arguments than given, both Sprintf's MISSING report and an empty string in their place are accepted (an existing test pins the latter)"},
	}, func(rt *rapid.T) fmtCase {
		c := fmtCase{Text: genFmtText(rt, "text"), Text2: genFmtText(rt, "text2"), N: count(rt)}
		c.Text = S(strings.ReplaceAll(string(c.Text), "\x04", "e"))
		c.Text2 = S(strings.ReplaceAll(string(c.Text2), "\x04", "e"))
		for i := size(rt, "args", 0, 5, 60); i > 0; i-- {
			c.Args = append(c.Args, intn(rt, "arg", 0, len(argPool)-1))
		}
		if chance(rt, "manyargs", 4) {
			for i := intn(rt, "args2", 5, 40); i > 0; i-- {
				c.Args = append(c.Args, intn(rt, "arg", 0, len(argPool)-1))
			}
		}
		return c
	}, checkC19, nil)

	register(Prop{
		ID: "C22", Quick: 220000, Thorough: 17600000, Silent: true,
		Technique: "stateful model-based testing of AddEntry/metadata histories",
		Level:     "exploration",
		Note:      "Random interleavings of adding headers (odd lines, duplicate keys, colons), other entries (among them empty ids under a context and replacements) and metadata or plural queries, compared with a parse of the last header and a map of entries.",
		Rule:      "1-14 operations; non-trivial = the header is replaced at least once",
		Assume:    []string{"an added entry is not modified afterwards by the caller"},
	}, func(rt *rapid.T) headCase {
		c := headCase{Read: pick(rt, "read", "", "", "po", "mo")}
		mo := CatOpt{Text: TextOpt{Short: true}, Untrans: true, EmptyCtxID: true, EmptyID2: true, Cmts: true}
		var ids []Msg
		for i := size(rt, "ops", 1, 14, 150); i > 0; i-- {
			op := headOp{Kind: pick(rt, "kind", "header", "header", "other", "ask", "askall", "probe", "other", "fill")}
			switch op.Kind {
			case "header":
				op.Text, op.Rule = drawHeader(rt)
				if chance(rt, "hc", 20) {
					op.Msg.Cmts = comments(rt, "hcmt")
				}
			case "other":
				op.Msg = genMsg(rt, mo, 2)
				if len(ids) > 0 && chance(rt, "replace", 50) {
					m := rapid.SampledFrom(ids).Draw(rt, "which")
					op.Msg.Ctxt, op.Msg.ID = m.Ctxt, m.ID
				}
				if op.Msg.ID == "" && op.Msg.Ctxt == "" || op.Msg.ID == "p!" {
					op.Msg.ID = "z"
				}
				if chance(rt, "fakehdr", 15) {
					op.Msg.Ctxt, op.Msg.ID, op.Msg.Plural, op.Msg.StrN, op.Msg.ID2 = "ctx", "", false, nil, ""
					op.Msg.Str, _ = drawHeader(rt)
				}
				ids = append(ids, op.Msg)
			case "fill":
				op.N = pick(rt, "fill", int64(1), 7, 9, 16, 33, 65)
			case "ask":
				op.Key = pick(rt, "key", "Language", "Plural-Forms", "X-A", "X-B", "nope")
				op.N = count(rt)
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, checkC22, nil)

	c23 := CatOpt{Text: TextOpt{CR: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true, Cmts: true, MaxMsgs: 9}
	register(Prop{
		ID: "C23", Quick: 50000, Thorough: 4000000, Silent: true,
		Technique: "metamorphic (permutation) property-based testing plus an order model",
		Level:     "exploration",
		Note:      "The same entries are inserted in random orders, with and without replaced earlier versions; lists and bytes of all formats must be identical. With generated references the order itself is predicted with numeric line and column comparison.",
		Rule:      "0-9 messages, three insertion orders, half of the cases with references whose numbers have different lengths; non-trivial = at least two messages besides the header",
		Assume:    []string{"the position of entries without references among entries with them, and of reference lists that are prefixes of one another, is not predicted", "texts in the predicted cases contain no control characters"},
	}, func(rt *rapid.T) orderCase {
		o := c23
		pred := chance(rt, "predict", 70)
		if pred {
			o.Cmts = false
		}
		c := orderCase{Cat: catalog(rt, o)}
		if pred {
			nref := intn(rt, "nref", 0, 2)
			if chance(rt, "manyrefs", 30) {
				nref = intn(rt, "nref2", 2, 20)
			}
			same := intn(rt, "same", 0, nref) // leading references of every message
			each := nref > 1 && chance(rt, "ownlines", 40)
			two := nref > 1 && chance(rt, "twolines", 30)
			var base []ref
			col := chance(rt, "col", 40)
			c.Refs = [][]ref{}
			for i := range c.Cat.Msgs {
				m := &c.Cat.Msgs[i]
				clean := func(s S) S {
					return S(strings.Map(func(r rune) rune {
						if r < 5 {
							return '_'
						}
						return r
					}, string(s)))
				}
				m.Ctxt, m.ID = clean(m.Ctxt), clean(m.ID)
				var rs []ref
				var ss []string
				for k := 0; k < nref; k++ {
					r := ref{pick(rt, "rf", "a.go", "a.go", "b.go", "dir/c.html", "a.go2", "Z.go", "中.go"), pick(rt, "rl", 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 999, 1000, 99999, 100000, 999999, 1000000, 12345678, 987654321), -1}
					if col {
						r.Col = pick(rt, "rc", 1, 2, 9, 10, 11, 80, 100, 4096, 1234567)
					}
					if k < same {
						if len(base) <= k {
							base = append(base, r)
						}
						r = base[k]
					}
					s := fmt.Sprintf("%s:%d", r.File, r.Line)
					if col {
						s += fmt.Sprintf(":%d", r.Col)
					}
					rs = append(rs, r)
					ss = append(ss, s)
				}
				if nref > 0 {
					if chance(rt, "cmtbefore", 30) {
						m.Cmts = append(m.Cmts, "# note")
					}
					if each {
						for _, s := range ss {
							m.Cmts = append(m.Cmts, S("#: "+s))
						}
					} else if two {
						m.Cmts = append(m.Cmts, S("#: "+ss[0]), S("#: "+strings.Join(ss[1:], " ")))
					} else {
						m.Cmts = append(m.Cmts, S("#: "+strings.Join(ss, " ")))
					}
					if chance(rt, "cmtafter", 30) {
						m.Cmts = append(m.Cmts, "#, go-format")
					}
				}
				c.Refs = append(c.Refs, rs)
			}
			seen := map[string]bool{}
			var ms []Msg
			var rs [][]ref
			for i, m := range c.Cat.Msgs {
				if !seen[m.key()] {
					seen[m.key()] = true
					ms, rs = append(ms, m), append(rs, c.Refs[i])
				}
			}
			c.Cat.Msgs, c.Refs = ms, rs
		} else {
			sometimesMany(rt, &c.Cat, 1)
			if chance(rt, "twins", 40) {
				// messages that look alike when references, context and id are written one after another
				id := S(text(rt, "twin.id", TextOpt{Short: true}))
				tail := pick(rt, "twin.tail", "xy", "10", "go:1", "a:12:3", " b.go")
				have := map[string]bool{}
				for _, m := range c.Cat.Msgs {
					have[m.key()] = true
				}
				for cut := 0; cut <= len(tail) && id != ""; cut++ {
					m := Msg{Ctxt: S(tail[cut:]), ID: id, Str: "t", Cmts: []S{S("#: a.go" + tail[:cut])}}
					if !have[m.key()] {
						have[m.key()] = true
						c.Cat.Msgs = append(c.Cat.Msgs, m)
					}
				}
			}
		}
		n := len(c.Cat.withHeader())
		id := make([]int, n)
		for i := range id {
			id[i] = i
		}
		c.Perm, c.Perm2 = id, id
		if n > 0 && n < 50 {
			c.Perm = rapid.Permutation(id).Draw(rt, "perm")
			c.Perm2 = rapid.Permutation(id).Draw(rt, "perm2")
		} else if n > 0 {
			c.Perm2 = append([]int{}, id...)
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				c.Perm2[i], c.Perm2[j] = c.Perm2[j], c.Perm2[i]
			}
		}
		if n > 0 {
			for i := intn(rt, "dup", 0, 3); i > 0; i-- {
				c.Dup = append(c.Dup, intn(rt, "dup.i", 0, n-1))
			}
		}
		return c
	}, checkC23, nil)

	c25 := CatOpt{Text: TextOpt{CR: true, Short: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true, Cmts: true, MaxMsgs: 4}
	register(Prop{
		ID: "C25", Quick: 8000, Thorough: 640000, Silent: true,
		Technique: "exhaustive write-fault enumeration over generated catalogs",
		Level:     "fault_enumeration",
		Note:      "For each generated catalog and format the destination fails at every byte: refusing a write, accepting part with an error, accepting part without an error, accepting all but failing, or failing once and then working again.",
		Rule:      "random small catalogs x every byte position (sampled above 1500 bytes) x 5 fault kinds; non-trivial = at least one fault fired",
		Assume:    nil,
	}, func(rt *rapid.T) writeCase {
		c := writeCase{Cat: catalog(rt, c25), Mode: pick(rt, "mode", "part", "none", "short", "full+err", "once"), Step: intn(rt, "step", 3, 11)}
		c.Err = pick(rt, "err", "", "", "", "", "", "", "eof", "closed pipe", "short write", "epipe", "enospc", "eagain", "eintr", "eio", "closed", "deadline", "canceled", "unexpected")
		return c
	}, checkC25, nil)
}
