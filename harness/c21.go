package main

// C21: concurrent readers.

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
)

type raceCall struct {
	K int
	P int // index of a probe
}

type raceCase struct {
	Cat    Catalog
	Form   string // how the catalog came to be
	Setup  []Op
	Probes []Probe
	Lists  [][]raceCall // one list of calls per goroutine
	Args   int
	Rounds int
	Exprs  []string
	Prefs  []string
	Shared bool // the goroutines share one argument slice
}

var raceSerial atomic.Int64

// raceWorld is what the goroutines work on.
type raceWorld struct {
	c     *raceCase
	ts    *t.Translations
	f     *translator.File
	tor   t.Translator
	prefs []string
	args  []any
	po    []byte
	mo    []byte
}

func (c *raceCase) world(dir string, serial int64) (*raceWorld, error) {
	w := &raceWorld{c: c, ts: t.NewTranslations()}
	t.SetGlobal(w.ts)
	m := newState()
	for i := range c.Setup {
		if err := c.Setup[i].apply(w.ts, m, dir, i); err != nil {
			return nil, fmt.Errorf("setup: %w", err)
		}
	}
	msgs := c.Cat.withHeader()
	w.po, w.mo = []byte(plainPo(msgs)), plainMO(msgs)
	var err error
	switch c.Form {
	case "po":
		w.f, err = translator.ReadPo(w.po)
	case "mo":
		w.f, err = translator.ReadMo(w.mo)
	case "pot":
		w.f, err = translator.ReadPot(w.po)
	default:
		w.f = c.Cat.file()
	}
	if err != nil {
		return nil, err
	}
	if c.Cat.Lang != "" && len(msgs) > 0 {
		tr := fstest.MapFS{"x.po": {Data: w.po}}
		if c.Form == "mo" {
			tr = fstest.MapFS{"x.mo": {Data: w.mo}}
		}
		w.ts.BindFS("cat", tr)
	}
	w.tor = w.ts.GetOrNoop("cat").GetOrNoop(locale.Normalize(c.Cat.Lang))
	// names not seen before, so that caches are cold
	for i, p := range c.Prefs {
		w.prefs = append(w.prefs, p, fmt.Sprintf("%s-x-v%dn%d", p, serial, i))
	}
	full := make([]any, 0, 8)
	w.args = append(full, argSets[c.Args%len(argSets)]...)
	return w, nil
}

const raceKinds = 22

var raceNames = []string{"File lookup", "Translator lookup", "instance lookup", "package lookup", "view lookup", "context lookup", "SaveAsPo", "SaveAsMo", "SaveAsPot", "SortedEntry", "headers", "Match", "GetUserLang", "names", "Eval", "Read", "Format", "changing a view", "Tags", "most match", "new instance", "Global"}

func (w *raceWorld) do(rc raceCall) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprint("panic: ", e)
		}
	}()
	c := w.c
	p := c.Probes[rc.P%len(c.Probes)]
	x, id, id2, n := string(p.Ctxt), string(p.ID), string(p.ID2), p.N
	args := w.args
	if !c.Shared {
		args = append(make([]any, 0, 8), w.args...)
	}
	save := func(b []byte, err error) string { return fmt.Sprint(string(b), err) }
	switch rc.K % raceKinds {
	case 0:
		return w.f.X(x, id, args...) + "|" + w.f.XN64(x, id, id2, n, args...)
	case 1:
		return w.tor.X(x, id, args...) + "|" + w.tor.XN64(x, id, id2, n, args...) + "|" + w.tor.Lang()
	case 2:
		return w.ts.X(x, id, args...) + "|" + w.ts.N64(id, id2, n, args...) + "|" + w.ts.XN1_64(x, id, n, args...)
	case 3:
		return t.X(x, id, args...) + "|" + t.N64(id, id2, n, args...) + "|" + t.T(id, args...) + "|" + t.N1(id, int(n), args...)
	case 4:
		v := w.ts.D("cat").L(c.Cat.Lang + "_")
		return p.ask(v, args...) + "|" + p.ask(w.ts.L("zh_CN"), args...) + "|" + p.ask(t.D("a").L("de"), args...) + "|" + v.UsedLocale() + t.L("fr").Locale()
	case 5:
		ctx := t.SetCtxDomain(t.SetCtxLocale(context.Background(), "zh-CN"), "cat")
		v := t.WithContext(ctx)
		return p.ask(v, args...) + v.Locale() + v.Domain()
	case 6:
		return save(poBytes(w.f))
	case 7:
		return save(moBytes(w.f))
	case 8:
		return save(potBytes(w.f))
	case 9:
		s := ""
		for _, e := range w.f.SortedEntry() {
			s += e.Key() + "\x00" + e.MsgStr + "\x00"
		}
		return s
	case 10:
		a, ok := w.f.GetHeader("Plural-Forms")
		b, ok2 := w.f.GetHeader("nope")
		return fmt.Sprint(w.f.Lang(), a, ok, b, ok2)
	case 11:
		sup := w.ts.Locales()
		tag, i, conf := t.Match(sup, w.prefs)
		tag2, i2, conf2 := t.MatchTag(t.Tags(sup), t.Tags(w.prefs))
		return fmt.Sprint(tag, i, conf, tag2, i2, conf2)
	case 12:
		r, _ := http.NewRequest("GET", "http://x/", nil)
		r.Header.Set("Accept-Language", strings.Join(w.prefs, ","))
		s := t.GetUserLang(r)
		r.AddCookie(&http.Cookie{Name: "k", Value: "ja"})
		return s + t.GetUserLang(r, t.WithCookieName("k")) + t.GetUserLang(r)
	case 13:
		ds := w.ts.Domains()
		sort.Strings(ds)
		return fmt.Sprint(ds, w.ts.Domain(), w.ts.Locale(), w.ts.Locales(), w.ts.UsedLocale(), w.ts.SourceCodeLocale(), w.ts.HasDomain("cat"), t.Locales(), t.UsedLocale(), t.HasDomain("nope"))
	case 14:
		s := ""
		for _, e := range c.Exprs {
			v, err := plurals.Eval(context.Background(), e, n)
			s += fmt.Sprint(v, err, ";")
		}
		return s
	case 15:
		f, err := translator.ReadPo(w.po)
		s := fmt.Sprint(err == nil)
		if err == nil {
			s += p.ask(f, args...)
		}
		f, err = translator.ReadMo(w.mo)
		s += fmt.Sprint(err == nil)
		if err == nil {
			s += p.ask(f, args...)
		}
		f, err = translator.ReadPot(w.po)
		if err == nil {
			s += save(potBytes(f))
		}
		return s
	case 16:
		return fmtFormat(id, args...) + fmtDefault(id, id2, n, args...) + fmtFormat("%d %s %v", args...)
	case 17: // the view belongs to this goroutine
		v := w.ts.L("ja").D("cat")
		v.SetLocale("zh_TW")
		v.BindFS("mine", fstest.MapFS{"x.po": {Data: []byte(plainPo(treeCatalog("zh_TW", "mine").withHeader()))}})
		v.SetDomain("mine")
		s := v.T("who") + v.Locale()
		v.SetSourceCodeLocale("fr")
		v.RemoveDomain("cat")
		v.ClearDomains()
		return s + v.Domain() + p.ask(v, args...) + fmt.Sprint(v.Locales())
	case 18:
		return fmt.Sprint(t.Tags(w.prefs), t.Tag(w.prefs[len(w.prefs)-1]), locale.Normalize(w.prefs[0]))
	case 19:
		return w.ts.MostMatchLocale() + t.MostMatchLocale() + w.ts.L(w.prefs[len(w.prefs)-1]).MostMatchLocale()
	case 20:
		v := t.NewTranslations()
		v.SetLocale("zh")
		v.BindFS("default", fstest.MapFS{"x.mo": {Data: plainMO(treeCatalog("zh_CN", "mine").withHeader())}})
		return v.T("who") + v.N("one", "many", 2) + v.X("c", "who")
	}
	g := t.Global()
	g.SetLocale("de_DE")
	a, b, d := t.Mark.XN(x, id, id2)
	return p.ask(g, args...) + g.Locale() + a + b + d
}

func checkC21(c raceCase, o *Obs) error {
	w, err := c.world(o.dir, raceSerial.Add(1))
	if err != nil {
		return err
	}
	got := make([][]string, len(c.Lists))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, list := range c.Lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for r := 0; r < c.Rounds; r++ {
				for i := range list {
					// each round begins elsewhere, so that calls meet other calls
					got[g] = append(got[g], w.do(list[(i+r)%len(list)]))
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	// the same calls alone, on an identical world
	alone, err := c.world(o.dir, raceSerial.Load())
	if err != nil {
		return err
	}
	for g, list := range c.Lists {
		for r := 0; r < c.Rounds; r++ {
			for i := range list {
				rc := list[(i+r)%len(list)]
				o.Label(raceNames[rc.K%raceKinds])
				want := alone.do(rc)
				have := got[g][r*len(list)+i]
				if strings.HasPrefix(want, "panic: ") {
					return fmt.Errorf("%s alone: %s", raceNames[rc.K%raceKinds], want)
				}
				if have != want {
					return fmt.Errorf("%s (goroutine %d of %d) gave %s among others and gives %s alone", raceNames[rc.K%raceKinds], g, len(c.Lists), q(have), q(want))
				}
			}
		}
	}
	// and again on the world the goroutines used
	for _, list := range c.Lists {
		for _, rc := range list {
			t.SetGlobal(w.ts)
			a := w.do(rc)
			t.SetGlobal(alone.ts)
			if b := alone.do(rc); a != b {
				return fmt.Errorf("%s gives %s after concurrent use and %s without", raceNames[rc.K%raceKinds], q(a), q(b))
			}
		}
	}
	if len(c.Lists) > 1 {
		o.NT()
	}
	return nil
}

func init() {
	c21 := CatOpt{Text: TextOpt{CR: true, Short: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, Cmts: true, MaxMsgs: 6, NoHdr: true}
	register(Prop{
		ID: "C21", Quick: 6000, Thorough: 480000, Race: true, Silent: true,
		Technique: "concurrent property-based testing under the race detector against sequential answers",
		Level:     "exploration",
		Note:      "2-8 goroutines start together on freshly loaded catalogs and cold caches, each running a random list of lookups, formatting, view derivation, negotiation, saving and listing calls, in a build with Go's race detector. Every answer is compared with the same call made alone on an identical world. Schedules are those the Go scheduler produces: they are sampled, not enumerated.",
		Rule:      "random world and 2-8 random call lists of 1-6 calls, 1-3 rounds; non-trivial = at least two goroutines",
		Assume:    []string{"no goroutine changes the shared instances", "race detector: a race is reported when both accesses happen in the run without an ordering between them"},
	}, func(rt *rapid.T) raceCase {
		c := raceCase{Cat: catalog(rt, c21), Form: pick(rt, "form", "api", "po", "mo", "pot"), Args: intn(rt, "args", 0, 6), Rounds: intn(rt, "rounds", 1, 3), Shared: chance(rt, "shared", 60)}
		if len(c.Cat.withHeader()) == 0 {
			c.Form = "api"
		}
		for i := intn(rt, "ops", 0, 3); i > 0; i-- {
			c.Setup = append(c.Setup, drawOp(rt, i, 1, false))
		}
		c.Probes = probes(rt, append(c.Cat.Msgs, treeMsgs("m")...), c21.Text, 1, 3)
		for i := intn(rt, "exprs", 0, 2); i > 0; i-- {
			c.Exprs = append(c.Exprs, rule(rt).Expr)
		}
		for i := intn(rt, "prefs", 1, 3); i > 0; i-- {
			c.Prefs = append(c.Prefs, pick(rt, "pref", "zh", "zh-TW", "en-GB", "de-DE", "fr", "ja-JP", "sr-Latn"))
		}
		same := chance(rt, "same", 60) // everybody does the same: the likeliest collision
		var list []raceCall
		for g := intn(rt, "goroutines", 2, 8); g > 0; g-- {
			if !same || list == nil {
				list = nil
				for i := intn(rt, "calls", 1, 6); i > 0; i-- {
					list = append(list, raceCall{K: rapid.SampledFrom(kindList).Draw(rt, "call"), P: intn(rt, "probe", 0, 2)})
				}
			}
			c.Lists = append(c.Lists, list)
		}
		return c
	}, checkC21, nil)
}

var kindList = func() (ks []int) {
	for i := 0; i < raceKinds; i++ {
		ks = append(ks, i)
	}
	return append(ks, 0, 1, 0, 10)
}()
