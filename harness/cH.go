package main

import (
	stderrors "errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"text/template/parse"

	"github.com/youthlin/t"
	"github.com/youthlin/t/cmd/xtemplate/verifbridge"
	xerrors "github.com/youthlin/t/errors"
	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
	"testing/fstest"
)

// ---------------------------------------------------------------- C33

type locCase struct {
	Kind string // po, tpl, spec, out
	// po: the damaged file
	Data S
	Line int // the wrong line, from 1
	Must []S // what the message must show of it
	// tpl
	T    tplCase
	Bad  []int // per file: 0 good, 1 wrong first line, 2 wrong last line, 3 unreadable
	What []int
	Odd  bool // odd file names
	// spec, out
	Spec S
}

// linesNotPO are lines no PO file may hold, wherever they stand.
var linesNotPO = []string{
	`foo "bar"`, `msgidx "a"`, `msgid`, `msgid: "x"`, `MSGID "x"`, `msgstr[47] "x"`, `msgstr[] "x"`, `msgstr[x] "y"`, `msgstr[0 "y"`, `"open`, `"`, `"bad \q"`, `"bad \8"`, `"a" "b`, `"a" b`, `"a"b"`, `'single'`, `msgid 'xy'`, `msgid x`, `msgid "a`, `msgid a"`, `msgstr "a`, `msgstr a`, `msgstr "\q"`, `msgctxt x`, `msgctxt "x`, `msgid_plural x`, `msgid_plural "\z"`, `= 1`, `<<<<<<< HEAD`, `=======`, `>>>>>>> branch`, `-`, `\`, `文`, `//comment`, `; ini`, `[section]`, `{`, `"\x"`, `"\"`,
}

func drawLoc(rt *rapid.T) (c locCase) {
	c.Kind = pick(rt, "kind", "po", "po", "po", "po", "tpl", "tpl", "spec", "out")
	switch c.Kind {
	case "po":
		cat := catalog(rt, CatOpt{Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, Cmts: true, MaxMsgs: 5})
		lines := strings.Split(string(poText(rt, cat.withHeader())), "\n")
		var quoted []int
		for i, l := range lines {
			if s := strings.TrimLeft(l, " \t"); s != "" && s[0] != '#' && strings.Contains(s, `"`) {
				quoted = append(quoted, i)
			}
		}
		if len(quoted) > 0 && chance(rt, "damage", 50) {
			i := rapid.SampledFrom(quoted).Draw(rt, "which")
			l := strings.TrimRight(lines[i], " \t\r")
			switch intn(rt, "how", 0, 3) {
			case 0:
				l = l[:len(l)-1]
			case 1:
				l += pick(rt, "after", "x", " x", " \"", "\"", `\n`)
			case 2:
				l = l[:len(l)-1] + pick(rt, "esc", `\q"`, `\8"`, `\ "`, `\x"`, `\N"`)
			case 3:
				l = l[:len(l)-1] + `" "` + `"`
			}
			lines[i] = l
			c.Line, c.Must = i+1, []S{S(l[strings.IndexByte(l, '"'):])}
		} else {
			at := intn(rt, "at", 0, len(lines))
			l := rapid.SampledFrom(linesNotPO).Draw(rt, "line")
			for _, f := range strings.Fields(l) {
				c.Must = append(c.Must, S(f))
			}
			l = strings.Repeat(pick(rt, "indent", " ", "\t"), intn(rt, "indent.n", 0, 2)) + l
			lines = append(lines[:at:at], append([]string{l}, lines[at:]...)...)
			c.Line = at + 1
		}
		c.Data = S(strings.Join(lines, "\n"))
	case "tpl":
		c.T = drawTpl(rt)
		c.Odd = chance(rt, "odd", 30)
		for range c.T.Files {
			c.Bad = append(c.Bad, intn(rt, "bad", 0, 3))
			c.What = append(c.What, intn(rt, "what", 0, 99))
		}
		if len(c.T.Files) > 1 && chance(rt, "same", 40) { // files of one name, with the same mistake
			c.T.Pattern = "*/*.tmpl"
			name, bad := filepath.Base(c.T.Files[0].Path), intn(rt, "same.bad", 1, 3)
			for i := range c.T.Files {
				c.T.Files[i] = TplFile{Path: fmt.Sprintf("d%d/%s", i, name), Src: c.T.Files[0].Src}
				c.Bad[i], c.What[i] = bad, c.What[0]
			}
		}
	case "spec":
		s, _ := drawBadSpec(rt)
		n := pick(rt, "spec.name", "%d", "a%s", "100%", "%!", "%[9]v", "名", "%v%v")
		c.Spec = S(strings.NewReplacer("gettext", n, "翻译", n, "T", n).Replace(s))
	case "out":
		c.Spec = S(pick(rt, "out", "no/such", "no %d such/x.pot", "%s/%v/x", "100%/x", "%[9]v/名.pot"))
	}
	return
}

func mentionsLine(msg string, line int) bool {
	return regexp.MustCompile(fmt.Sprintf(`line %d(\D|$)`, line)).MatchString(msg)
}

func checkC33(c locCase, o *Obs) error {
	o.Label(c.Kind)
	dir := filepath.Join(o.dir, "loc")
	switch c.Kind {
	case "po":
		loader := t.NewTranslation("d")
		readers := map[string]func([]byte) (*translator.File, error){
			"ReadPo": readPoOwn, "ReadPot": readPotOwn,
			"LoadPo": func(b []byte) (*translator.File, error) { return nil, loader.LoadPo(b) },
			"LoadFile": func(b []byte) (*translator.File, error) {
				f, err := fstest.MapFS{"x.po": {Data: b}}.Open("x.po")
				if err != nil {
					return nil, err
				}
				return nil, loader.LoadFile(f)
			},
		}
		for _, name := range []string{"ReadPo", "ReadPot", "LoadPo", "LoadFile"} {
			f, err := readers[name]([]byte(c.Data))
			if err == nil {
				return fmt.Errorf("%s accepts a file whose line %d is wrong: %q", name, c.Line, c.Must)
			}
			if f != nil {
				return fmt.Errorf("%s returns a catalog together with %v", name, err)
			}
			if !mentionsLine(err.Error(), c.Line) {
				return fmt.Errorf("%s: line %d (%q) is wrong, but the message is: %v", name, c.Line, c.Must, err)
			}
			for _, m := range c.Must {
				if !strings.Contains(err.Error(), string(m)) {
					return fmt.Errorf("%s: line %d is wrong, but the message does not show its text %q: %v", name, c.Line, m, err)
				}
			}
		}
		if c.Line > 1 {
			o.NT()
		}
		o.LabelIf(c.Line > 9, "line > 9")
		return nil
	case "spec":
		o.NT()
		if _, err := verifbridge.ParseKeywords(string(c.Spec)); err == nil {
			return fmt.Errorf("ParseKeywords accepts %q", c.Spec)
		} else if !strings.Contains(err.Error(), string(c.Spec)) {
			return fmt.Errorf("specification %q is rejected with a message that does not show it: %v", c.Spec, err)
		}
		return nil
	case "out":
		o.NT()
		p := filepath.Join(dir, string(c.Spec))
		_, err := quietStderr(o.dir, func() error {
			return verifbridge.Run(filepath.Join(dir, "none*"), "{{", "}}", "T", "", p)
		})
		if err == nil {
			return fmt.Errorf("no error for output %q", p)
		}
		if !strings.Contains(err.Error(), p) {
			return fmt.Errorf("output %q cannot be opened, but the message does not name it: %v", p, err)
		}
		return nil
	}
	// templates
	tc := c.T
	if err := tc.parseable(); err != nil {
		o.Label("skipped: the generated template does not parse")
		return nil
	}
	actions := []string{")", `"open`, "end", "if", "1x", ".a |", "else", "define x", "template", "$undefined", "(1", "range", "break", "| .a", ".a )", "with", "block", "continue", "end end"}
	type failing struct {
		path string
		line int
	}
	var bad []failing
	for i := range tc.Files {
		f := &tc.Files[i]
		if i >= len(c.Bad) || c.Bad[i] == 0 || !strings.HasSuffix(f.Path, ".tmpl") {
			continue
		}
		if c.Odd {
			f.Path = strings.TrimSuffix(f.Path, ".tmpl") + "%d 100%.tmpl"
		}
		act := tc.Left + " " + actions[c.What[i]%len(actions)] + " " + tc.Right
		b := failing{path: filepath.Join(dir, f.Path)}
		switch c.Bad[i] {
		case 1:
			f.Src = S(act+"\n") + f.Src
			b.line = 1
		case 2:
			f.Src += S("\n" + act)
			b.line = 1 + strings.Count(string(f.Src), "\n")
		}
		if b.line > 0 { // the template language itself decides what is wrong, and where
			tr := parse.New("")
			tr.Mode = parse.SkipFuncCheck
			if _, err := tr.Parse(string(f.Src), tc.Left, tc.Right, map[string]*parse.Tree{}); err == nil || !strings.Contains(err.Error(), fmt.Sprintf(":%d:", b.line)) {
				o.Label("skipped: not wrong there")
				return nil
			}
		}
		bad = append(bad, b)
	}
	if err := tc.write(dir); err != nil {
		return err
	}
	for _, b := range bad {
		if b.line == 0 {
			os.Remove(b.path)
			if err := os.Symlink("/nonexistent/verif", b.path); err != nil {
				return err
			}
		}
	}
	if len(bad) == 0 {
		return nil
	}
	o.NT()
	o.LabelIf(len(bad) > 1, "several bad files")
	out := filepath.Join(dir, "out.pot")
	var stderr string
	if tc.CLI {
		r, err := runCLI(dir, []string{"LANG=C"}, nil, "-i", filepath.Join(dir, tc.Pattern), "-left", tc.Left, "-right", tc.Right, "-k", kwSpec(tc.Kws), "-f", tc.Funcs, "-o", out)
		if err != nil {
			return err
		}
		if r.code == 0 {
			return fmt.Errorf("xtemplate exits with 0, bad files: %v", bad)
		}
		stderr = r.stderr
	} else {
		var err error
		stderr, err = quietStderr(o.dir, func() error {
			return verifbridge.Run(filepath.Join(dir, tc.Pattern), tc.Left, tc.Right, kwSpec(tc.Kws), tc.Funcs, out)
		})
		if err == nil {
			return fmt.Errorf("Run reports success, bad files: %v", bad)
		}
	}
	for _, b := range bad {
		found := false
		for _, l := range strings.Split(stderr, "\n") {
			if strings.Contains(l, b.path) && (b.line == 0 || strings.Contains(l, fmt.Sprintf(":%d:", b.line))) {
				found = true
			}
		}
		if !found {
			return fmt.Errorf("%s is wrong (line %d), but no line of the messages says so:\n%s", b.path, b.line, clip(stderr, 1500))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C34

type errStep struct {
	Kind string // new, typed, wrapf, second, errorf
	A, B int    // earlier errors
	Fmt  int
	Args []int
	Text S
}

type errCase struct{ Steps []errStep }

type typedErr struct{ n int }

func (e *typedErr) Error() string { return fmt.Sprintf("typed %d", e.n) }

var errFormats = []struct {
	s string
	n int
}{{"plain", 0}, {"", 0}, {"x %d", 1}, {"%v and %v", 2}, {"%[2]v before %[1]v", 2}, {"100%% of %v", 1}, {"%-8v|%8v|%v", 3}, {"multi\nline %q", 1}, {"%[1]v %[1]v", 1}, {"at %[3]v, %[1]v of %[2]v", 3}, {"%T", 1}, {"文 %v", 1}, {"%+v %#v", 2}, {"%[2]*[1]d", 2}, {"%v %v %v %v %v %v %v %v %v %v %v %v", 12}, {"%[17]v: %[3]v %v", 17}, {strings.Repeat("%v,", 70), 70}}

func (s *errStep) args() (out []any) {
	for i, a := range s.Args {
		switch {
		case errFormats[s.Fmt].s == "%[2]*[1]d":
			out = append(out, a%7)
		case (a+i)%3 == 0:
			out = append(out, a)
		case (a+i)%3 == 1:
			out = append(out, fmt.Sprint("s", a, "%d"))
		default:
			out = append(out, nil)
		}
	}
	return
}

func drawErr(rt *rapid.T) (c errCase) {
	n := size(rt, "steps", 1, 12, 100)
	for i := 0; i < n; i++ {
		s := errStep{Kind: pick(rt, "kind", "new", "typed", "wrapf", "wrapf", "wrapf", "second", "second", "errorf")}
		if i == 0 && s.Kind != "typed" {
			s.Kind = "new"
		}
		if i > 0 {
			s.A, s.B = intn(rt, "a", 0, i-1), intn(rt, "b", 0, i-1)
			if chance(rt, "last", 60) {
				s.A = i - 1
			}
		}
		s.Text = text(rt, "text", TextOpt{Short: true, NoPct: true})
		s.Fmt = intn(rt, "fmt", 0, len(errFormats)-1)
		for k := errFormats[s.Fmt].n; k > 0; k-- {
			s.Args = append(s.Args, intn(rt, "arg", 0, 50))
		}
		c.Steps = append(c.Steps, s)
	}
	return
}

func checkC34(c errCase, o *Obs) error {
	type node struct {
		err    error
		msg    string
		causes map[int]bool // indexes of the errors it must be
	}
	var ns []node
	for i := range c.Steps {
		s := &c.Steps[i]
		n := node{causes: map[int]bool{i: true}}
		with := func(k int) {
			for j := range ns[k].causes {
				n.causes[j] = true
			}
		}
		f := errFormats[s.Fmt].s
		o.Label(s.Kind)
		switch s.Kind {
		case "new":
			n.msg = string(s.Text)
			n.err = xerrors.Errorf(string(s.Text))
		case "typed":
			n.err = &typedErr{i}
			n.msg = n.err.Error()
		case "wrapf":
			args, check := spare(s.args())
			n.msg = fmt.Sprintf(f, args...) + ": " + ns[s.A].msg
			n.err = xerrors.Wrapf(ns[s.A].err, f, args...)
			if err := check(); err != nil {
				return fmt.Errorf("Wrapf: %v", err)
			}
			with(s.A)
		case "second":
			n.msg = ns[s.A].msg + ": " + ns[s.B].msg
			n.err = xerrors.WithSecondaryError(ns[s.A].err, ns[s.B].err)
			with(s.A)
			with(s.B)
		case "errorf":
			args, check := spare([]any{s.A, ns[s.A].err})
			n.msg = fmt.Sprint(s.A) + " <" + ns[s.A].msg + ">"
			n.err = xerrors.Errorf("%d <%w>", args...)
			if err := check(); err != nil {
				return fmt.Errorf("Errorf: %v", err)
			}
			with(s.A)
		}
		ns = append(ns, n)
		if n.err == nil {
			return fmt.Errorf("step %d (%s) gives no error", i, s.Kind)
		}
	}
	for i, n := range ns {
		if n.err.Error() != n.msg {
			return fmt.Errorf("step %d (%s %q) reads %q, want %q", i, c.Steps[i].Kind, errFormats[c.Steps[i].Fmt].s, n.err.Error(), n.msg)
		}
		if len(n.causes) > 2 {
			o.NT()
		}
		typed := false
		for j, m := range ns {
			if got := xerrors.Is(n.err, m.err); got != n.causes[j] {
				return fmt.Errorf("Is(%q, %q) = %v, want %v", n.msg, m.msg, got, n.causes[j])
			}
			if stderrors.Is(n.err, m.err) != n.causes[j] {
				return fmt.Errorf("the standard Is(%q, %q) = %v", n.msg, m.msg, !n.causes[j])
			}
			typed = typed || n.causes[j] && c.Steps[j].Kind == "typed"
		}
		var te *typedErr
		if stderrors.As(n.err, &te) != typed {
			return fmt.Errorf("As(%q) = %v, want %v", n.msg, !typed, typed)
		}
		if xerrors.Is(n.err, stderrors.New(n.msg)) || xerrors.Is(nil, n.err) || xerrors.Is(n.err, nil) {
			return fmt.Errorf("Is finds an error that is not there: %q", n.msg)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C35

type envCat struct {
	Lang, Ext string
	Kind      string // own: translates the command's messages; hostile: with wrong verbs; garbage; truncated
}

type envCase struct {
	T     tplCase
	Fault string
	Var   string // variable that names the user's language
	Lang  string // canonical
	Spell string
	Path  string // LANG_PATH: unset, blank, missing, dir, file, notdir
	Cats  []envCat
	TZ    string
	Cwd   bool
	Rel   bool `json:",omitempty"` // the input is named relative to the working directory
	Env   []S  `json:",omitempty"` // variables that mean nothing to the command
	Stdin bool `json:",omitempty"` // there is something to read on standard input
	Argv0 S    `json:",omitempty"` // the command is called by another name
}

var reEnvName = regexp.MustCompile(`^[A-Z][A-Z0-9_]+$`)

// drawEnvVar is a variable other than those that name languages and catalogs.
func drawEnvVar(rt *rapid.T) S {
	name := pick(rt, "env.name", "HOME", "PWD", "OLDPWD", "TMPDIR", "USER", "TERM", "COLUMNS", "NO_COLOR", "CI", "DEBUG", "VERBOSE", "SOURCE_DATE_EPOCH", "PATH", "GOMAXPROCS", "GOPATH", "XTEMPLATE", "XTEMPLATE_DEBUG", "TEXTDOMAIN", "TEXTDOMAINDIR", "OUTPUT_CHARSET", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "POSIXLY_CORRECT")
	if s := dictStr(rt, "env.name", func(s string) bool {
		return reEnvName.MatchString(s) && !strings.HasPrefix(s, "LANG") && !strings.HasPrefix(s, "LC_") && s != "GODEBUG" && s != "TZ"
	}); s != "" && (newWords() || chance(rt, "env.dict", 20)) {
		name = s
	}
	return S(name + "=" + pick(rt, "env.value", "", "0", "1", "true", "de_DE.UTF-8", ".", "/", "/none", "%d %!", "12345678901234567890", "x y;z"))
}

const missingFlags = "flags -i and -k are required"

var ownMessages = []string{missingFlags, "run error: %v", "run error: %+v", "unexpected error: %+v\n", "failed to process file %v. error message: %v", "failed to parse file %v", "failed to read file %v", "invalid keywords: %s", "msg id index is not a number", "too much keyword index", "can not open output file: %s", "invalid input pattern", "Warning: %v", "input file pattern", "left delim", "output file, - is stdout", "Usage of %s:\nxtemplate -i input-pattern -k keywords [-f functions] [-o output]\n"}

func drawEnv(rt *rapid.T) (c envCase) {
	c.T = drawTpl(rt)
	c.T.CLI = true
	c.Fault = pick(rt, "fault", "", "", "", "no-k", "no-k", "unparsable", "spec", "out", "pattern")
	c.Var = pick(rt, "var", "LANG", "LC_ALL", "LC_MESSAGES")
	langs := []string{"zh_CN", "zh_CN", "de_DE", "ja_JP", "pt_BR", "ru_RU", "ar_EG"}
	c.Lang = rapid.SampledFrom(langs).Draw(rt, "lang")
	c.Spell = c.Lang + pick(rt, "codeset", "", ".UTF-8", ".utf8")
	c.Path = pick(rt, "path", "unset", "unset", "blank", "missing", "empty", "dir", "dir", "dir", "file", "notdir")
	if c.Path == "dir" || c.Path == "file" {
		for i := intn(rt, "cats", 1, 3); i > 0; i-- {
			c.Cats = append(c.Cats, envCat{pick(rt, "cat.lang", append(langs, c.Lang, c.Lang, c.Lang)...), pick(rt, "cat.ext", ".po", ".mo"), pick(rt, "cat.kind", "own", "own", "hostile", "garbage", "truncated")})
		}
	}
	c.TZ = pick(rt, "tz", "", "UTC", "Asia/Shanghai", "America/St_Johns", "nonsense")
	c.Cwd = chance(rt, "cwd", 30)
	c.Rel = !c.Cwd && chance(rt, "rel", 50)
	for i := intn(rt, "env", 0, 3); i > 0; i-- {
		c.Env = append(c.Env, drawEnvVar(rt))
	}
	c.Stdin = chance(rt, "stdin", 30)
	if chance(rt, "argv0", 20) {
		c.Argv0 = S(pick(rt, "argv0.name", "xgettext", "-x", "%s", "a b", "xtemplate.exe"))
	}
	return
}

func ownText(lang, id, kind string) string {
	switch {
	case kind == "hostile":
		return "%s %d %[9]v 100% %!" + lang + "%*d"
	case id == missingFlags:
		return "<<" + lang + " needs flags>>"
	case strings.Contains(id, "%"):
		return lang + ": " + id
	}
	return lang + ": " + id + " <" + lang + ">"
}

func (e *envCat) data() []byte {
	ms := []Msg{{Str: S("Language: " + e.Lang + "\nPlural-Forms: nplurals=1; plural=0;\n")}}
	for _, id := range ownMessages {
		ms = append(ms, Msg{ID: S(id), Str: S(ownText(e.Lang, id, e.Kind))})
	}
	b := plainPo(ms)
	if e.Ext == ".mo" {
		b = plainMO(ms)
	}
	switch e.Kind {
	case "garbage":
		return []byte("garbage \x00\xff\nmsgid \"x\n")
	case "truncated":
		b = b[:len(b)-len(b)/3]
		if e.Ext == ".po" {
			b = append(b, "\nmsgid \"open\n"...)
		}
	}
	return b
}

func checkC35(c envCase, o *Obs) error {
	tc := c.T
	if err := tc.parseable(); err != nil {
		o.Label("skipped: the generated template does not parse")
		return nil
	}
	dir := filepath.Join(o.dir, "env")
	if err := tc.write(dir); err != nil {
		return err
	}
	spec, pattern, out := kwSpec(tc.Kws), filepath.Join(dir, tc.Pattern), ""
	args := []string{"-left", tc.Left, "-right", tc.Right, "-f", tc.Funcs}
	switch c.Fault {
	case "unparsable":
		p := filepath.Join(dir, filepath.Dir(tc.Files[0].Path), "bad.tmpl")
		if err := os.WriteFile(p, []byte(tc.Left+" ) "+tc.Right), 0644); err != nil {
			return err
		}
	case "spec":
		spec = "T:x"
	case "out":
		out = filepath.Join(dir, "no", "such", "x.pot")
	case "pattern":
		pattern = filepath.Join(dir, "[")
	}
	if c.Rel {
		pattern = strings.TrimPrefix(pattern, dir+"/")
		out = strings.TrimPrefix(out, dir+"/")
		o.Label("relative names")
	}
	args = append(args, "-i", pattern)
	if c.Fault != "no-k" {
		args = append(args, "-k", spec)
	}
	if out != "" {
		args = append(args, "-o", out)
	}
	base, err := runCLI(dir, []string{"LANG=C"}, nil, args...)
	if err != nil {
		return err
	}
	if (base.code != 0) != (c.Fault != "") {
		return fmt.Errorf("xtemplate exits with %d in the plain environment, fault %q: %s", base.code, c.Fault, clip(base.stderr, 500))
	}
	env := []string{"LANG=", c.Var + "=" + c.Spell, "TZ=" + c.TZ}
	lp := filepath.Join(o.dir, "langs")
	if err := os.RemoveAll(lp); err != nil {
		return err
	}
	win := "" // kind of the catalog that answers for the user's language
	switch c.Path {
	case "unset":
	case "blank":
		env = append(env, "LANG_PATH= ")
	case "missing":
		env = append(env, "LANG_PATH="+lp+"/none")
	case "empty":
		if err := os.MkdirAll(filepath.Join(lp, "sub", "lang"), 0755); err != nil {
			return err
		}
		env = append(env, "LANG_PATH="+lp)
	case "notdir":
		if err := os.WriteFile(lp, []byte("x"), 0644); err != nil {
			return err
		}
		env = append(env, "LANG_PATH="+lp+"/x")
	case "dir", "file":
		os.MkdirAll(lp, 0755)
		name := ""
		for i := range c.Cats {
			name = filepath.Join(lp, fmt.Sprintf("%d%s", i, c.Cats[i].Ext))
			if err := os.WriteFile(name, c.Cats[i].data(), 0644); err != nil {
				return err
			}
		}
		cats := c.Cats
		if c.Path == "file" {
			cats = cats[len(cats)-1:]
			lp = name
		}
		env = append(env, "LANG_PATH="+lp)
		for _, ext := range []string{".mo", ".po"} { // PO files win over MO files, later names over earlier
			for _, e := range cats {
				if e.Ext == ext && e.Lang == c.Lang && (e.Kind == "own" || e.Kind == "hostile") {
					win = e.Kind
				}
			}
		}
	}
	o.Label("LANG_PATH " + c.Path)
	o.Label("fault " + c.Fault)
	cwd := dir
	if c.Cwd && !c.Rel {
		cwd = o.dir
	}
	for _, kv := range c.Env {
		env = append(env, string(kv))
	}
	cmd := exec.Command(xtemplatePath(), args...)
	if c.Stdin {
		cmd.Stdin = strings.NewReader("{{ T \"read\" }}\n")
		o.Label("standard input")
	}
	if c.Argv0 != "" {
		cmd.Args[0] = string(c.Argv0)
		o.Label("another name")
	}
	r, err := runCmd(cmd, cwd, env, nil)
	if err != nil {
		return err
	}
	if r.code != base.code {
		return fmt.Errorf("with %q xtemplate exits with %d, otherwise with %d; stderr: %s", env, r.code, base.code, clip(r.stderr, 500))
	}
	if c.Fault == "" || len(c.Cats) > 0 {
		o.NT()
	}
	if c.Fault == "" && stripDate(r.stdout) != stripDate(base.stdout) {
		return fmt.Errorf("with %q the POT differs: %s", env, diffLine(stripDate(base.stdout), stripDate(r.stdout)))
	}
	if c.Fault != "" && (r.stdout != base.stdout || r.stderr == "") {
		return fmt.Errorf("with %q the failing run prints %q on standard output and %q on standard error", env, clip(r.stdout, 300), clip(r.stderr, 300))
	}
	if c.Fault == "no-k" {
		want := ""
		switch {
		case win != "":
			want = ownText(c.Lang, missingFlags, win)
			o.Label("own language")
		case (c.Path == "unset" || c.Path == "blank") && c.Lang == "zh_CN":
			if want, err = embedded(missingFlags); err != nil {
				return err
			}
			o.Label("embedded language")
		}
		if !strings.Contains(r.stderr, want) {
			return fmt.Errorf("with %q the message is not in the user's language (%q): %s", env, want, clip(r.stderr, 1500))
		}
	}
	return nil
}

// embedded is the translation the command carries.
func embedded(id string) (string, error) {
	root := os.Getenv("REPO")
	if root == "" {
		root = "/repo"
	}
	b, err := os.ReadFile(filepath.Join(root, "cmd/xtemplate/lang/zh_CN.po"))
	if err != nil {
		return "", err
	}
	es, err := strictPO(b)
	if err != nil {
		return "", err
	}
	for _, e := range es {
		if string(e.ID) == id {
			return string(e.Str), nil
		}
	}
	return "", nil
}

func init() {
	register(Prop{
		ID: "C33", Quick: 60000, Thorough: 4800000,
		Technique: "fault injection at generated positions with a known culprit",
		Level:     "fault_enumeration",
		Note:      "One wrong line is put at a drawn place of a generated PO file, template files get a wrong first or last line or cannot be read, keyword specifications and output names are unusable: the message must name the culprit (line number from 1 and text, file and line, specification, path).",
		Rule:      "about 40 kinds of wrong lines or damage to an existing line in files of random layout; 1-3 template files; non-trivial = the wrong line is not the first, or a template, specification or output is at fault",
		Assume:    []string{"the wording of messages is free, but a line is named as `line N` (PO) or `:N:` (templates)"},
	}, drawLoc, checkC33, nil)

	register(Prop{
		ID: "C34", Quick: 200000, Thorough: 16000000, Silent: true,
		Technique: "model-based property testing of error trees",
		Level:     "exploration",
		Note:      "Random trees of wrapped, combined and typed errors: the message, the set of causes found by Is and As, and the caller's argument slices are compared with a model.",
		Rule:      "1-12 construction steps over earlier errors, 14 formats with explicit positions, widths and literals; non-trivial = an error with at least two causes below it",
		Assume:    []string{"formats use all their arguments", "no nil errors"},
	}, drawErr, checkC34, nil)

	register(Prop{
		ID: "C35", Quick: 5000, Thorough: 400000,
		Technique: "metamorphic property-based testing over environments",
		Level:     "exploration",
		Note:      "Each run of the built command, with and without a fault, is repeated in another environment: other language, time zone, working directory and unrelated variables, something on standard input, LANG_PATH absent, blank, missing, not a directory, or with catalogs for the command's own messages that are good, hostile, damaged or garbage. Exit status and POT must be the same; the report of missing flags must be in the user's language when a catalog for it is there.",
		Rule:      "random templates and environments; non-trivial = a complete POT compared, or catalogs under LANG_PATH",
		Assume:    []string{"the language is named by one variable in the form ll_CC with an optional codeset", "which language is taken when the user's is missing is not judged"},
	}, drawEnv, checkC35, nil)
}
