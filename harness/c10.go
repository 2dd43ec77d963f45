package main

// C10: hostile catalog bytes.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"pgregory.net/rapid"
)

type hostileCase struct {
	Kind string // po, pot, mo
	Data S
}

var poTokens = []string{
	"msgid ", "msgstr ", "msgctxt ", "msgid_plural ", "msgstr[0] ", "msgstr[1] ", "msgstr[-1] ", "msgstr[999999999] ", "msgstr[99999999999999999999] ", "msgstr[ ", "msgstr[] ", "msgstr[a] ", "msgstr[0", "msgstr", "msgid", "msgctxt", "msgid_plural",
	"\"", "\"\"", "\"\n", "\n", "\n\n", "\r\n", "\r", " ", "\t", "#", "#~ ", "#, fuzzy\n", "#~ msgid \"x\"\n", "#| msgid \"", "\\", "\"\\", "\\x", "\\u12", "\\U00110000", "\\400", "\\x4", "\x00", "\xff\xfe", "\xef\xbb\xbf", "\x1a",
	"domain \"x\"\n", "\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n", "\"Plural-Forms: nplurals=4000000000; plural=n;\\n\"\n", "\"Plural-Forms: nplurals=99999999999999999999; plural=;\\n\"\n", "\"Plural-Forms: nplurals=-1; plural=1/0;\\n\"\n", "\"Plural-Forms: nplurals=300000000; plural=n<0?n:n/0;\\n\"\n", "\"Plural-Forms: \\n\"\n", "\"Plural-Forms: nplurals=2; plural=n==1?0:1", "\"Language: \\n\"\n", "\"Language: \xff\\n\"\n", "\": \\n\"\n", "\"Language\\n\"\n",
}

var u32s = []uint32{0, 1, 2, 3, 7, 8, 27, 28, 29, 255, 256, 1 << 16, 1<<16 + 1, 1 << 20, 1 << 24, 1 << 28, 1 << 29, 1<<29 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 8, 1<<32 - 1, 0x950412de, 0xde120495}

func mutate(rt *rapid.T, d []byte, mo bool) []byte {
	d = append([]byte{}, d...)
	for k := intn(rt, "mut.n", 0, 6); k > 0; k-- {
		pos := 0
		if len(d) > 0 {
			pos = intn(rt, "mut.pos", 0, len(d)-1)
		}
		switch kind := intn(rt, "mut.kind", 0, 9); {
		case len(d) == 0 || kind == 0: // insert bytes
			ins := rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(rt, "mut.ins")
			d = append(d[:pos:pos], append(ins, d[pos:]...)...)
		case kind == 1:
			d[pos] ^= 1 << intn(rt, "mut.bit", 0, 7)
		case kind == 2: // delete a range
			e := min(len(d), pos+intn(rt, "mut.len", 1, 20))
			d = append(d[:pos:pos], d[e:]...)
		case kind == 3: // duplicate a range
			e := min(len(d), pos+intn(rt, "mut.len", 1, 60))
			d = append(d[:e:e], d[pos:]...)
		case kind == 4: // cut
			d = d[:pos:pos]
		case kind == 5:
			d[pos] = byte(pick(rt, "mut.byte", 0, 1, 4, '"', '\\', '\n', '[', '0', 'n', 0x7f, 0x80, 0xff))
		case mo && kind >= 6: // a field of the header or the tables
			if len(d) < 8 {
				continue
			}
			at := 4 * intn(rt, "mut.field", 0, min(len(d)/4-1, 40))
			v := pick(rt, "mut.u32", u32s...)
			if chance(rt, "mut.rel", 40) {
				v = uint32(len(d)) + uint32(intn(rt, "mut.delta", 0, 32)) - 16
			}
			if d[0] == 0xde || chance(rt, "mut.le", 10) {
				binary.LittleEndian.PutUint32(d[at:], v)
			} else {
				binary.BigEndian.PutUint32(d[at:], v)
			}
		case kind == 6: // swap two lines
			ls := bytes.SplitAfter(d, []byte("\n"))
			i, j := intn(rt, "mut.i", 0, len(ls)-1), intn(rt, "mut.j", 0, len(ls)-1)
			ls[i], ls[j] = ls[j], ls[i]
			d = bytes.Join(ls, nil)
		case kind == 7: // drop a line
			ls := bytes.SplitAfter(d, []byte("\n"))
			i := intn(rt, "mut.i", 0, len(ls)-1)
			d = bytes.Join(append(ls[:i:i], ls[i+1:]...), nil)
		default: // token at a line start or anywhere
			tok := pick(rt, "mut.tok", poTokens...)
			if chance(rt, "mut.bol", 70) {
				if i := bytes.LastIndexByte(d[:pos], '\n'); i >= 0 {
					pos = i + 1
				} else {
					pos = 0
				}
			}
			d = append(d[:pos:pos], append([]byte(tok), d[pos:]...)...)
		}
	}
	return d
}

func allocated(fn func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// moAllowance sums the string lengths the file declares that lie inside it,
// in both byte orders: a reader has to copy those.
func moAllowance(d []byte) uint64 {
	best := uint64(0)
	for _, bo := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
		if len(d) < 28 {
			return 0
		}
		sum := uint64(0)
		n := uint64(bo.Uint32(d[8:]))
		for _, h := range []int{12, 16} {
			tab := uint64(bo.Uint32(d[h:]))
			for i := uint64(0); i < n; i++ {
				at := tab + 8*i
				if at+8 > uint64(len(d)) {
					break
				}
				ln, off := uint64(bo.Uint32(d[at:])), uint64(bo.Uint32(d[at+4:]))
				if ln+off <= uint64(len(d)) {
					sum += ln + 400 // and an entry
				}
			}
		}
		best = max(best, sum)
	}
	return best
}

func checkC10(c hostileCase, o *Obs) error {
	data := []byte(c.Data)
	orig := string(data)
	size := uint64(len(data))
	var f *translator.File
	var err error
	read := map[string]func([]byte) (*translator.File, error){"po": translator.ReadPo, "pot": translator.ReadPot, "mo": translator.ReadMo}
	for _, kind := range []string{"po", "pot", "mo"} {
		var g *translator.File
		var e error
		used := allocated(func() { g, e = read[kind](data) })
		limit := 8<<20 + 200*size + 16*size*size/64
		if kind == "mo" {
			limit = 1<<20 + 100*size + 24*moAllowance(data)
		}
		if used > limit {
			return fmt.Errorf("reading a %s file of %d bytes allocates %d bytes (allowance %d)", kind, size, used, limit)
		}
		if string(data) != orig {
			return fmt.Errorf("reading a %s file changes the caller's bytes", kind)
		}
		if (g == nil) != (e != nil) {
			return fmt.Errorf("reading a %s file gives file=%v and error=%v", kind, g != nil, e)
		}
		if e != nil && e.Error() == "" {
			return fmt.Errorf("reading a %s file fails without a message", kind)
		}
		if kind == c.Kind {
			f, err = g, e
		}
		if g != nil {
			if err := exercise(g); err != nil {
				return err
			}
		}
	}
	o.Label(c.Kind)
	if err == nil {
		o.Label(c.Kind + "-loaded")
		o.NT()
	} else {
		o.LabelIf(size > 20, c.Kind+"-rejected")
		if size > 20 {
			o.NT()
		}
	}
	// the same bytes through the other entrances
	ts := t.NewTranslations()
	fs := fstest.MapFS{"a/x.po": {Data: data}, "b.mo": {Data: data}, "c.pot": {Data: data}}
	ts.BindFS("d", fs)
	ts.SetDomain("d")
	for _, l := range ts.Locales() {
		v := ts.L(l)
		v.T("x")
		v.N("x", "y", 3)
		_ = v.UsedLocale()
		_ = v.MostMatchLocale()
	}
	if f != nil {
		tr := t.NewTranslation("q", f)
		tr.GetOrNoop("en_US").XN64("", "x", "", 1)
	}
	return nil
}

// exercise uses a loaded catalog in every way.
func exercise(f *translator.File) error {
	es := f.SortedEntry()
	keys := map[string]bool{}
	for _, e := range es {
		if e == nil {
			return fmt.Errorf("the entry list contains nil")
		}
		k := e.MsgCtxt + "\x04" + e.MsgID
		keys[k] = true
		f.X(e.MsgCtxt, e.MsgID)
		f.X(e.MsgCtxt, e.MsgID, 1, "x")
		for _, n := range []int64{0, 1, 2, -1, 5, 1<<63 - 1, -1 << 63} {
			f.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, n)
		}
		f.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, 3, 3, "y")
	}
	f.X("", "absent")
	if got := f.X("no such context", "absent"); got != "absent" {
		return fmt.Errorf("absent message gives %q", got)
	}
	f.Lang()
	f.GetHeader("Plural-Forms")
	f.GetHeader("")
	for _, save := range []func(*translator.File) ([]byte, error){poBytes, potBytes, moBytes} {
		if _, err := save(f); err != nil {
			return fmt.Errorf("saving a loaded catalog into memory fails: %v", err)
		}
	}
	if again := f.SortedEntry(); len(again) != len(es) {
		return fmt.Errorf("the entry list changes from %d to %d entries", len(es), len(again))
	}
	return nil
}

func init() {
	opt := CatOpt{Text: TextOpt{CR: true, Bad: true, NUL: true, EOT: true, Short: true}, Untrans: true, AnyRule: true, EmptyID2: true, EmptyCtxID: true, NoHdr: true, Cmts: true, MaxMsgs: 5}
	register(Prop{
		ID: "C10", Quick: 120000, Thorough: 9600000, Silent: true,
		Technique: "structure-aware mutation fuzzing of PO, POT and MO readers with crash, hang and allocation oracles",
		Level:     "exploration",
		Note:      "Valid files in random layouts are mutated (bytes, ranges, lines, tokens, header and table fields set to extremes), or bytes are random; every reader gets every input. Crash, more than 60 s of CPU and allocation beyond the file's size are violations; whatever loads is looked up, listed and saved in all formats.",
		Rule:      "0-6 mutations of a generated valid file, random bytes and token soup; non-trivial = the input loads, or is rejected and longer than 20 bytes",
		Assume:    []string{"parenthesis nesting in plural rules stays below ~60 levels", "allocation is compared with 1 MiB + 100 bytes per file byte + 24 times the strings the MO file really contains (for PO: 8 MiB + quadratic concatenation)"},
	}, func(rt *rapid.T) hostileCase {
		c := hostileCase{Kind: pick(rt, "kind", "po", "pot", "mo")}
		switch intn(rt, "source", 0, 9) {
		case 0: // random bytes
			d := rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, "bytes")
			if c.Kind == "mo" && chance(rt, "magic", 80) {
				h := []byte{0xde, 0x12, 0x04, 0x95, 0, 0, 0, 0}
				for i := 0; i < 5; i++ {
					h = binary.LittleEndian.AppendUint32(h, pick(rt, "hdr", u32s...))
				}
				d = append(h, d...)
			}
			c.Data = S(d)
		case 1: // token soup
			var b strings.Builder
			for i := intn(rt, "soup", 1, 25); i > 0; i-- {
				b.WriteString(pick(rt, "tok", poTokens...))
				if chance(rt, "q", 40) {
					b.WriteString("\"" + string(text(rt, "t", TextOpt{Short: true})) + "\"\n")
				}
			}
			c.Data = S(b.String())
		default:
			cat := catalog(rt, opt)
			if c.Kind == "mo" {
				c.Data = S(mutate(rt, drawMO(rt, cat.withHeader()), true))
			} else {
				c.Data = S(mutate(rt, []byte(poText(rt, cat.withHeader())), false))
			}
		}
		return c
	}, checkC10, func() []hostileCase {
		var out []hostileCase
		le := func(vs ...uint32) string {
			var b []byte
			for _, v := range vs {
				b = binary.LittleEndian.AppendUint32(b, v)
			}
			return string(b)
		}
		for _, n := range []uint32{1, 2, 1000, 1 << 20, 1 << 27, 1 << 28, 1 << 29, 1<<31 - 1, 1<<32 - 1} {
			for _, off := range []uint32{0, 28, 36, 1 << 31, 1<<32 - 1} {
				out = append(out, hostileCase{"mo", S(le(0x950412de, 0, n, 28, 28, 0, 0, 0, 28, 4, 28))},
					hostileCase{"mo", S(le(0x950412de, 0, n, off, 28, n, off, n, off, n, off))},
					hostileCase{"mo", S(le(0x950412de, 0, n, 28, off, 0, 0, 0, 0, 0, 0))})
			}
			out = append(out, hostileCase{"mo", S(le(0x950412de, 0, 1, 28, 28, 0, 0, n, 28))}, hostileCase{"mo", S(le(0x950412de, 0, 1, 28, 28, 0, 0, 1, n))},
				hostileCase{"mo", S(le(0x950412de, 1, 1, 28, 28, 0, 0, n, 28, n, n, n, n, n))},
				hostileCase{"mo", S(le(0x950412de, 0, 1, 28, 36, n, n, 0, 44, 0, 44, 0))})
		}
		for _, tok := range append(sort.StringSlice(append([]string{}, poTokens...)), "") {
			for _, pre := range []string{"", "msgid \"\"\nmsgstr \"\"\n\"Language: zh_CN\\n\"\n", "msgid \"a\"\nmsgid_plural \"b\"\n", "msgid \"a\"\nmsgstr \"b\"\n"} {
				for _, post := range []string{"", "\"x\"\n", "\n"} {
					out = append(out, hostileCase{"po", S(pre + tok + post)})
				}
			}
		}
		return out
	})
}
