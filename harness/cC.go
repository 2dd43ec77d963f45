package main

// C12, C13: loading trees of catalogs.

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/youthlin/t"
	"pgregory.net/rapid"
)

// TreeFile is one file of a generated tree.
type TreeFile struct {
	Path string
	Kind string // po, mo: a catalog; junk: anything else
	Lang string // language header as spelled
	Norm string // its normal form
	Mark S      // the texts of this catalog
	Data S
	Pad  int  `json:",omitempty"` // this many bytes are added before the messages
	Link bool `json:",omitempty"` // on disk: a symbolic link to the file
}

type treeCase struct {
	Files  []TreeFile
	Dirs   []string // further (empty) directories
	Access int      // how the tree is presented
	Cycle  bool     // bind another tree first
	Root   bool     `json:",omitempty"` // on disk: the directory is a symbolic link
}

// spellings of a language that normalize to norm (checked by C17).
func spelling(rt *rapid.T, norm string) string {
	l, r, _ := strings.Cut(norm, "_")
	switch intn(rt, "spell", 0, 8) {
	case 1:
		return l + "-" + r
	case 2:
		return strings.ToUpper(norm)
	case 3:
		return strings.ToLower(norm)
	case 4:
		return norm + ".UTF-8"
	case 5:
		return l + "-" + strings.ToLower(r)
	case 6:
		switch norm {
		case "zh_CN", "en_US", "de_DE", "fr_FR", "ja_JP", "pt_BR", "ru_RU", "ar_EG", "sr_RS", "ko_KR", "es_ES", "pl_PL":
			return l
		}
	case 7:
		switch norm {
		case "zh_CN":
			return "zh-Hans"
		case "zh_TW":
			return "zh-Hant"
		}
	case 8:
		return norm + "@latin"
	}
	return norm
}

var stems = []string{"zh_CN", "en_US", "de_DE", "a", "b", "aa", "messages", "x.y", "é", "中", "A", "Z", "0", "a-b", "a b", ".hidden", "fr_FR.po"}
var dirNames = []string{"", "", "", "", "a", "b", "a.po", "zh_CN", "LC_MESSAGES", "a/b", "a/b/c", "a/b/c/d/e/f/g/h/i/j", "l1/l2/l3/l4/l5", "zh_CN/LC_MESSAGES", "z.mo", "a.d", "aa", ".git", "é/a", "a-b"}

func treeMsgs(mark S) []Msg {
	return []Msg{{ID: "who", Str: mark}, {Ctxt: "c", ID: "who", Str: mark + "-c"}, {ID: "n", Plural: true, ID2: "ns", StrN: []S{mark + "-0", mark + "-1"}}, {ID: "only-" + mark, Str: mark + "-only"}}
}

func treeCatalog(lang string, mark S) *Catalog {
	return &Catalog{Lang: lang, Rule: &commonRules[1], Msgs: treeMsgs(mark)}
}

func drawTree(rt *rapid.T, max int) []TreeFile {
	var out []TreeFile
	taken := map[string]bool{}
	pool := rapid.SampledFrom([][]string{{"zh_CN", "en_US"}, {"zh_CN", "zh_TW", "de_DE"}, langs}).Draw(rt, "pool")
	n := size(rt, "files", 1, max, 60)
	if chance(rt, "manylangs", 4) {
		pool = append(slices.Clone(langs), otherLocales...)
		n = max + intn(rt, "manylangs.n", 4, 50)
	}
	for i := 0; i < n; i++ {
		f := TreeFile{Mark: S(fmt.Sprintf("m%d", i))}
		dir := pick(rt, "dir", dirNames...)
		kind := intn(rt, "kind", 0, 9)
		stem := pick(rt, "stem", stems...)
		if chance(rt, "stem.dict", 8) {
			w := dictStr(rt, "stem", func(s string) bool {
				return !strings.ContainsAny(s, "/\x00") && !strings.HasPrefix(s, ".") && len(s) < 20
			})
			switch intn(rt, "stem.how", 0, 3) {
			case 0:
				stem = w + stem
			case 1:
				stem += w
			case 2:
				if w != "" {
					stem = w
				}
			case 3:
				if w != "" && fs.ValidPath(path.Join(dir, w)) && w != "." {
					dir = path.Join(dir, w)
				}
			}
		}
		if chance(rt, "longname", 1) {
			stem = strings.Repeat("n", pick(rt, "longname.n", 60, 120, 200, 240))
		}
		if v, ok := dictInt(rt, "deep", 1, 40); ok && chance(rt, "deep.d", 2) {
			dir = strings.TrimSuffix(strings.Repeat("d/", int(v)), "/")
		}
		switch {
		case kind < 5:
			f.Kind = "po"
			stem += ".po"
			if chance(rt, "barename", 2) {
				stem = ".po"
			}
		case kind < 8:
			f.Kind = "mo"
			stem += ".mo"
		default:
			f.Kind = "junk"
			stem += pick(rt, "ext", ".PO", ".Mo", ".po.bak", ".pot", ".txt", "", ".mo~", "po", ".po ", ".gmo")
			if strings.HasSuffix(stem, ".po") || strings.HasSuffix(stem, ".mo") {
				stem += "x"
			}
		}
		f.Path = path.Join(dir, stem)
		// no clash with files or directories
		clash := taken[f.Path]
		for p := range taken {
			if strings.HasPrefix(p, f.Path+"/") || strings.HasPrefix(f.Path, p+"/") {
				clash = true
			}
		}
		if clash {
			continue
		}
		taken[f.Path] = true
		f.Norm = rapid.SampledFrom(pool).Draw(rt, "lang")
		f.Lang = spelling(rt, f.Norm)
		msgs := treeCatalog(f.Lang, f.Mark).withHeader()
		if f.Kind == "mo" || f.Kind == "junk" && chance(rt, "junkmo", 50) {
			f.Data = S(drawMO(rt, msgs))
		} else {
			f.Data = S(poText(rt, msgs))
		}
		out = append(out, f)
	}
	return out
}

// winners gives, per language, the marks that may win: component-wise and
// byte-wise path order name the same file unless a name contains bytes below '/'.
func winners(files []TreeFile) map[string][]S {
	out := map[string][]S{}
	byLang := map[string][]TreeFile{}
	for _, f := range files {
		if f.Kind == "po" || f.Kind == "mo" {
			byLang[f.Norm] = append(byLang[f.Norm], f)
		}
	}
	for lang, fs := range byLang {
		var pos []TreeFile
		for _, f := range fs {
			if f.Kind == "po" {
				pos = append(pos, f)
			}
		}
		if len(pos) > 0 {
			fs = pos
		}
		a := append([]TreeFile{}, fs...)
		sort.Slice(a, func(i, j int) bool { return a[i].Path < a[j].Path })
		b := append([]TreeFile{}, fs...)
		sort.Slice(b, func(i, j int) bool { return lessParts(b[i].Path, b[j].Path) })
		out[lang] = []S{a[len(a)-1].Mark}
		if m := b[len(b)-1].Mark; m != a[len(a)-1].Mark {
			out[lang] = append(out[lang], m)
		}
	}
	return out
}

func lessParts(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := range x {
		if i >= len(y) {
			return false
		}
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// checkTree compares the domain of ts with the expected winners.
func checkTree(ts *t.Translations, dom string, want map[string][]S, files []TreeFile) error {
	ts = ts.D(dom)
	if got := ts.HasDomain(dom); got != (len(want) > 0) {
		return fmt.Errorf("domain %q is bound: %v, but the tree has %d languages", dom, got, len(want))
	}
	exp := map[string]bool{ts.SourceCodeLocale(): true}
	for l := range want {
		exp[l] = true
	}
	var names []string
	for l := range exp {
		names = append(names, l)
	}
	sort.Strings(names)
	if got := ts.Locales(); strings.Join(got, " ") != strings.Join(names, " ") {
		return fmt.Errorf("locales are %v, want %v", got, names)
	}
	all := map[string]bool{}
	for _, l := range langs {
		all[l] = true
	}
	for l := range want {
		all[l] = true
	}
	for l := range all {
		v := ts.L(l)
		ok := false
		var ws []string
		for _, mark := range want[l] {
			ws = append(ws, string(mark))
			if v.T("who") == string(mark) {
				ok = true
				m := newModel(treeCatalog(l, mark))
				ps := allProbes(m.cat, 0, 1, 2)[1:]
				for _, f := range files {
					ps = append(ps, Probe{ID: "only-" + f.Mark})
				}
				if err := checkLookups("locale "+l, v, m, ps, nil); err != nil {
					return fmt.Errorf("catalogs of different files are mixed: %w", err)
				}
			}
		}
		if len(want[l]) == 0 {
			ws, ok = []string{"who"}, v.T("who") == "who" && v.N("n", "ns", 2) == "ns"
		}
		if !ok {
			return fmt.Errorf("locale %s uses catalog %q, want %q", l, v.T("who"), ws)
		}
	}
	return nil
}

// plainFS hides every optional interface of the file system.
type plainFS struct{ fs fs.FS }

func (p plainFS) Open(name string) (fs.File, error) { return p.fs.Open(name) }

func (c *treeCase) mapFS() fstest.MapFS {
	m := fstest.MapFS{}
	for _, f := range c.Files {
		m[f.Path] = &fstest.MapFile{Data: []byte(f.Data)}
	}
	for _, d := range c.Dirs {
		m[d] = &fstest.MapFile{Mode: fs.ModeDir | 0755}
	}
	return m
}

func (c *treeCase) write(dir string) error {
	os.RemoveAll(dir)
	os.RemoveAll(dir + "-links")
	os.RemoveAll(dir + "-root")
	if c.Root {
		if err := os.Symlink(dir+"-root", dir); err != nil {
			return err
		}
		if err := os.MkdirAll(dir+"-root", 0755); err != nil {
			return err
		}
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	for _, d := range c.Dirs {
		if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
			return err
		}
	}
	for i, f := range c.Files {
		p := filepath.Join(dir, filepath.FromSlash(f.Path))
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		q := p
		if f.Link {
			q = filepath.Join(dir+"-links", fmt.Sprintf("%d.dat", i))
			if err := os.MkdirAll(filepath.Dir(q), 0755); err != nil {
				return err
			}
			if err := os.Symlink(q, p); err != nil {
				return err
			}
		}
		if err := os.WriteFile(q, []byte(f.Data), 0644); err != nil {
			return err
		}
	}
	return nil
}

// padded is the content of the file with its padding.
func (f *TreeFile) padded() S {
	if f.Pad == 0 {
		return f.Data
	}
	msgs := treeCatalog(f.Lang, f.Mark).withHeader()
	if f.Kind == "mo" {
		big := Msg{ID: "0 pad", Str: S(strings.Repeat("0123456789abcde\n", f.Pad/16))}
		return S(plainMO(append([]Msg{msgs[0], big}, msgs[1:]...)))
	}
	return S(plainPo(msgs[:1])) + S(strings.Repeat("# 23456789abcde\n", f.Pad/16)) + "\n" + S(plainPo(msgs[1:]))
}

func checkC12(c treeCase, o *Obs) error {
	c.Files = append([]TreeFile{}, c.Files...)
	for i := range c.Files {
		f := &c.Files[i]
		o.LabelIf(f.Pad > 1<<20 && f.Kind != "junk", "beyond-1MiB")
		f.Data = f.padded()
	}
	want := winners(c.Files)
	dir := filepath.Join(o.dir, "tree")
	if c.Access >= 3 {
		if err := c.write(dir); err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		defer os.RemoveAll(dir)
		defer os.RemoveAll(dir + "-links")
		defer os.RemoveAll(dir + "-root")
		o.LabelIf(c.Root, "root-link")
	}
	files := c.Files
	ts := t.NewTranslations()
	t.SetGlobal(ts)
	if c.Cycle { // an earlier binding must vanish completely
		old := fstest.MapFS{"old.po": {Data: []byte(plainPo(treeCatalog("ko_KR", "old").withHeader()))}, "old2.po": {Data: []byte(plainPo(treeCatalog("zh_CN", "old2").withHeader()))}}
		ts.BindFS("d", old)
		if len(want) == 0 {
			want = map[string][]S{"ko_KR": {"old"}, "zh_CN": {"old2"}}
		}
		o.Label("rebind")
	}
	switch c.Access {
	case 0:
		ts.BindFS("d", c.mapFS())
		o.Label("MapFS")
	case 1:
		ts.BindFS("d", plainFS{c.mapFS()})
		o.Label("plain-FS")
	case 2:
		t.SetDomain("d")
		t.LoadFS(c.mapFS())
		o.Label("LoadFS")
	case 3:
		t.Bind("d", dir)
		o.Label("Bind-dir")
	case 4:
		t.SetDomain("d")
		t.Load(dir + "/")
		o.Label("Load-dir")
	case 5:
		ts.BindFS("d", os.DirFS(dir))
		o.Label("DirFS")
	case 6: // each file alone
		o.Label("single-file")
		for i := range files {
			f := files[i]
			dom := fmt.Sprintf("f%d", i)
			t.Bind(dom, filepath.Join(dir, filepath.FromSlash(f.Path)))
			if err := checkTree(ts, dom, winners([]TreeFile{f}), files); err != nil {
				return fmt.Errorf("file %q bound alone: %w", f.Path, err)
			}
		}
		t.Bind("none", filepath.Join(dir, "no such file.po"))
		if ts.HasDomain("none") {
			return errors.New("a path that does not exist was bound")
		}
		if len(files) > 0 {
			o.NT()
		}
		return nil
	case 7: // a sub-tree
		o.Label("sub-FS")
		sub := path.Dir(files[0].Path)
		var in []TreeFile
		for _, f := range files {
			if sub == "." || strings.HasPrefix(f.Path, sub+"/") {
				in = append(in, f)
			}
		}
		want = winners(in)
		if c.Cycle && len(want) == 0 {
			want = map[string][]S{"ko_KR": {"old"}, "zh_CN": {"old2"}}
		}
		s, err := fs.Sub(c.mapFS(), sub)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		ts.BindFS("d", s)
	}
	for _, w := range want {
		o.LabelIf(len(w) == 2, "order-ambiguous")
	}
	cats, byLang := 0, map[string]int{}
	for _, f := range files {
		if f.Kind != "junk" {
			cats++
			byLang[f.Norm]++
		}
		o.LabelIf(f.Lang != f.Norm, "respelled")
	}
	o.LabelIf(len(byLang) < cats, "same-language")
	if cats > 0 {
		o.NT()
	}
	if err := checkTree(ts, "d", want, files); err != nil {
		return err
	}
	return checkTree(t.Global(), "d", want, files)
}

// ---------------------------------------------------------------- C13

// Fault is one injected failure.
type Fault struct {
	Path string
	Kind string // open, stat, readdir, read, cut, corrupt, closefail
	At   int
}

type faultCase struct {
	Files  []TreeFile
	Faults []Fault
	Old    bool
	Plain  bool
}

type faultFS struct {
	m      fstest.MapFS
	faults map[string]Fault
	open   map[string]int
	opened int
	hit    map[string]bool
}

var errInjected = errors.New("injected fault")

func (f *faultFS) Open(name string) (fs.File, error) {
	ft, bad := f.faults[name]
	if bad && ft.Kind == "open" {
		f.hit[name] = true
		return nil, &fs.PathError{Op: "open", Path: name, Err: errInjected}
	}
	file, err := f.m.Open(name)
	if err != nil {
		return nil, err
	}
	f.opened++
	f.open[name]++
	ff := &faultFile{File: file, fs: f, name: name}
	if bad {
		ff.fault = ft
	}
	if d, ok := file.(fs.ReadDirFile); ok {
		return &faultDir{ff, d}, nil
	}
	return ff, nil
}

type faultFile struct {
	fs.File
	fs     *faultFS
	name   string
	fault  Fault
	n      int
	closed int
}

func (f *faultFile) Stat() (fs.FileInfo, error) {
	if f.fault.Kind == "stat" {
		f.fs.hit[f.name] = true
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: errInjected}
	}
	return f.File.Stat()
}

func (f *faultFile) Read(b []byte) (int, error) {
	switch f.fault.Kind {
	case "read", "read+data":
		left := f.fault.At - f.n
		if left <= 0 {
			f.fs.hit[f.name] = true
			return 0, &fs.PathError{Op: "read", Path: f.name, Err: errInjected}
		}
		if len(b) >= left {
			n, err := f.File.Read(b[:left])
			f.n += n
			if f.fault.Kind == "read+data" && err == nil && n == left {
				f.fs.hit[f.name] = true
				return n, &fs.PathError{Op: "read", Path: f.name, Err: errInjected}
			}
			return n, err
		}
	case "slow": // no fault: one byte at a time
		if len(b) > 1 {
			b = b[:1]
		}
	}
	n, err := f.File.Read(b)
	f.n += n
	return n, err
}

func (f *faultFile) Close() error {
	f.closed++
	if f.closed == 1 {
		f.fs.open[f.name]--
	}
	f.File.Close()
	if f.fault.Kind == "closefail" {
		return errInjected
	}
	return nil
}

type faultDir struct {
	*faultFile
	d fs.ReadDirFile
}

func (f *faultDir) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.fault.Kind == "readdir" {
		f.fs.hit[f.name] = true
		return nil, &fs.PathError{Op: "readdir", Path: f.name, Err: errInjected}
	}
	return f.d.ReadDir(n)
}

func checkC13(c faultCase, o *Obs) error {
	fsys := &faultFS{m: fstest.MapFS{}, faults: map[string]Fault{}, open: map[string]int{}, hit: map[string]bool{}}
	for _, f := range c.Files {
		fsys.m[f.Path] = &fstest.MapFile{Data: []byte(f.Data), ModTime: time.Unix(0, 0)}
	}
	deadDirs := []string{}
	for _, ft := range c.Faults {
		fsys.faults[ft.Path] = ft
		if mf := fsys.m[ft.Path]; mf != nil && (ft.Kind == "corrupt" || ft.Kind == "cut") {
			mf.Data = corrupt(mf.Data, ft, strings.HasSuffix(ft.Path, ".mo"))
		}
	}
	isDir := func(p string) bool { return fsys.m[p] == nil }
	for p, ft := range fsys.faults {
		if isDir(p) && (ft.Kind == "open" || ft.Kind == "readdir" || ft.Kind == "stat" && p == ".") {
			deadDirs = append(deadDirs, p)
		}
	}
	ts := t.NewTranslations()
	if c.Old {
		old := fstest.MapFS{"old.po": {Data: []byte(plainPo(treeCatalog("ko_KR", "old").withHeader()))}}
		ts.BindFS("d", old)
	}
	before := ts.D("d")
	ts.BindFS("d", fsys)
	// the tree as if the failing parts were absent
	var alive []TreeFile
	lost := false
	for _, f := range c.Files {
		ok := true
		for _, d := range deadDirs {
			if d == "." || strings.HasPrefix(f.Path, d+"/") {
				ok = false
			}
		}
		switch fsys.faults[f.Path].Kind {
		case "", "slow", "closefail":
		case "stat":
			ok = ok && !fsys.hit[f.Path] // a reader that asks for no stat sees no failure
		default:
			ok = false
		}
		if ok {
			alive = append(alive, f)
		} else if f.Kind != "junk" {
			lost = true
		}
	}
	want := winners(alive)
	if c.Old && len(want) == 0 {
		want = map[string][]S{"ko_KR": {"old"}}
		o.Label("old-binding-stays")
	}
	for n, k := range fsys.open {
		if k != 0 {
			return fmt.Errorf("%q was opened and not closed (%d)", n, k)
		}
	}
	if lost || len(deadDirs) > 0 {
		o.NT()
	}
	for n := range fsys.hit {
		o.Label("fault-" + fsys.faults[n].Kind)
	}
	for _, f := range c.Faults {
		if f.Kind == "corrupt" || f.Kind == "cut" {
			o.Label("fault-" + f.Kind)
		}
	}
	if err := checkTree(ts, "d", want, c.Files); err != nil {
		return fmt.Errorf("with faults %+v: %w", c.Faults, err)
	}
	if c.Old { // the earlier view is untouched
		if err := checkTree(before, "d", map[string][]S{"ko_KR": {"old"}}, c.Files); err != nil {
			return fmt.Errorf("view taken before the failed bind: %w", err)
		}
	}
	return nil
}

// corrupt damages content so that no reader may accept it.
func corrupt(d []byte, ft Fault, mo bool) []byte {
	d = append([]byte{}, d...)
	if mo {
		if ft.Kind == "cut" {
			return d[:ft.At%28]
		}
		if ft.At%2 == 0 {
			d[0] ^= 0x55
		} else {
			d[8], d[9], d[10], d[11] = 0x7f, 0x7f, 0x7f, 0x7f
		}
		return d
	}
	if ft.Kind == "cut" { // ends inside an entry
		return append(d, []string{"\n\nmsgid \"tai", "\n\nmsgid \"tail\"\nmsgid_plural \"x", "\n\nmsgid \"tail\"\nmsgstr \"x\n", "\n\nmsgctxt \"tail\"\nmsgid \"x\\"}[ft.At%4]...)
	}
	return append([]byte([]string{"garbage\n", "msgstr x\n", "\"open\n", "msgid \"a\\\"\n\n"}[ft.At%4]), d...)
}

var _ io.Reader = (*faultFile)(nil)

func init() {
	register(Prop{
		ID: "C12", Quick: 54000, Thorough: 4320000, Silent: true,
		Technique: "property-based testing of generated file trees against a precedence model",
		Level:     "exploration",
		Note:      "Trees with nested and oddly named directories, respelled Language headers, same-language duplicates in both kinds and files to ignore are bound through MapFS, a bare fs.FS, os.DirFS, real directories (some files and roots being symbolic links), sub-trees and single files; winner per language, locales and texts are compared with a model.",
		Rule:      "1-8 files per tree; non-trivial = the tree contains at least one catalog",
		Assume:    []string{"every catalog names its language", "where byte order and component order of two paths differ either may win"},
	}, func(rt *rapid.T) treeCase {
		c := treeCase{Files: drawTree(rt, 8), Access: pick(rt, "access", 0, 1, 2, 0, 1, 7, 3, 4, 5, 6), Cycle: chance(rt, "cycle", 25)}
		if chance(rt, "dirs", 20) {
			d := pick(rt, "emptydir", "empty.po", "empty.mo", "q/w.po")
			c.Dirs = append(c.Dirs, d)
		}
		if chance(rt, "pad", 2) {
			f := &c.Files[intn(rt, "pad.file", 0, len(c.Files)-1)]
			f.Pad = pick(rt, "pad.n", 500, 5000, 70000, 1<<20+100, 1<<21+100, 5<<20)
		}
		if c.Access >= 3 && c.Access < 7 {
			c.Root = chance(rt, "rootlink", 15)
			for i := range c.Files {
				c.Files[i].Link = chance(rt, "link", 20)
			}
		}
		return c
	}, checkC12, nil)

	register(Prop{
		ID: "C13", Quick: 120000, Thorough: 9600000, Silent: true,
		Technique: "fault-injecting file system over generated trees, compared with the tree without the failing parts",
		Level:     "fault_enumeration",
		Note:      "A wrapper file system fails opens, stats, listings and reads (at a drawn offset, with or without data) and corrupts contents for a drawn subset of files and directories, and counts opens against closes; the binding must equal that of the tree without the failing parts.",
		Rule:      "1-7 files, 1-4 faults; non-trivial = at least one catalog or directory is really lost",
		Assume:    []string{"faults are permanent for the duration of one load", "a directory listing either fails or is complete"},
	}, func(rt *rapid.T) faultCase {
		c := faultCase{Files: drawTree(rt, 7), Old: chance(rt, "old", 40)}
		seen := map[string]bool{}
		for i := intn(rt, "faults", 1, 4); i > 0; i-- {
			f := rapid.SampledFrom(c.Files).Draw(rt, "victim")
			ft := Fault{Path: f.Path, Kind: pick(rt, "fault", "open", "stat", "read", "read+data", "corrupt", "cut", "slow", "closefail")}
			if chance(rt, "dirfault", 30) {
				d := path.Dir(f.Path)
				for chance(rt, "up", 30) && d != "." {
					d = path.Dir(d)
				}
				ft = Fault{Path: d, Kind: pick(rt, "dfault", "open", "readdir", "closefail")}
				if d == "." && chance(rt, "rootok", 60) {
					continue
				}
			}
			if seen[ft.Path] {
				continue
			}
			if f.Kind == "junk" && (ft.Kind == "corrupt" || ft.Kind == "cut") {
				continue
			}
			switch ft.Kind {
			case "read", "read+data":
				ft.At = intn(rt, "at", 0, len(f.Data))
			case "corrupt", "cut":
				ft.At = intn(rt, "at", 0, 27)
			}
			if ft.Kind == "read+data" && ft.At == 0 {
				ft.Kind = "read"
			}
			seen[ft.Path] = true
			c.Faults = append(c.Faults, ft)
		}
		return c
	}, checkC13, nil)
}
