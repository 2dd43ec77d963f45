package main

// An independent MO writer (any valid layout) and a strict reader.

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type moPair struct{ id, str string }

// moPairs are the (original, translation) strings of the messages, sorted.
func moPairs(msgs []Msg) []moPair {
	var out []moPair
	for _, m := range msgs {
		id := string(m.ID)
		if m.Ctxt != "" {
			id = string(m.Ctxt) + "\x04" + id
		}
		str := string(m.Str)
		if m.Plural {
			id += "\x00" + string(m.ID2)
			var fs []string
			for _, f := range m.StrN {
				fs = append(fs, string(f))
			}
			str = strings.Join(fs, "\x00")
		}
		out = append(out, moPair{id, str})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func hashpjw(s string) uint32 {
	var h uint32
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			break
		}
		h = h<<4 + uint32(s[i])
		if g := h & 0xf0000000; g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

func nextPrime(n uint32) uint32 {
	for n |= 1; ; n += 2 {
		ok := n > 2
		for d := uint32(3); ok && d*d <= n; d += 2 {
			ok = n%d != 0
		}
		if ok {
			return n
		}
	}
}

// moLayout are the drawn layout choices.
type moLayout struct {
	Big, Hash    bool
	Major, Minor uint16
	Order        int // order of the sections
	Shuffle      bool
	Share        int // 0 none, 1 identical strings, 2 suffixes too
	Pad          int // 0 none, 1 some
	Align        int
	sysdep       bool
}

// buildMO encodes pairs; rt draws placements (nil: fixed plain layout).
func buildMO(rt *rapid.T, pairs []moPair, l moLayout) []byte {
	var bo binary.ByteOrder = binary.LittleEndian
	if l.Big {
		bo = binary.BigEndian
	}
	n := len(pairs)
	hdr := 28
	if l.Minor == 1 {
		hdr = 48
	}
	buf := make([]byte, hdr)
	put := func(at int, v uint32) { bo.PutUint32(buf[at:], v) }
	pad := func(label string) {
		if l.Pad > 0 && rt != nil {
			for i := intn(rt, label, 0, 9); i > 0; i-- {
				buf = append(buf, byte(pick(rt, label+".b", 0, 0xff, 'x', 4)))
			}
		}
		for l.Align > 0 && len(buf)%l.Align != 0 {
			buf = append(buf, 0)
		}
	}
	var oOff, tOff, hOff int
	hsize := uint32(0)
	if l.Hash {
		hsize = nextPrime(uint32(n*4/3) + 3)
	}
	places := map[int]int{} // slot (2*i id, 2*i+1 str) -> offset
	strs := func(slots []int) {
		from := len(buf)
		for _, s := range slots {
			v := pairs[s/2].id
			if s%2 == 1 {
				v = pairs[s/2].str
			}
			if l.Share > 0 {
				if at := strings.Index(string(buf[from:]), v+"\x00"); at >= 0 && len(buf) < 1<<16 {
					// only inside this string area: any byte run works
					places[s] = from + at
					continue
				}
			}
			pad("mo.pad")
			places[s] = len(buf)
			buf = append(buf, v...)
			buf = append(buf, 0)
		}
	}
	slots := make([]int, 0, 2*n)
	for i := 0; i < n; i++ {
		slots = append(slots, 2*i)
	}
	for i := 0; i < n; i++ {
		slots = append(slots, 2*i+1)
	}
	if l.Shuffle && rt != nil && n > 0 && n < 60 {
		slots = rapid.Permutation(slots).Draw(rt, "mo.slots")
	}
	tables := func() {
		pad("mo.padt")
		if l.Order%2 == 0 {
			oOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
			pad("mo.padt2")
			tOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
		} else {
			tOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
			pad("mo.padt2")
			oOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
		}
	}
	hash := func() {
		pad("mo.padh")
		hOff = len(buf)
		buf = append(buf, make([]byte, 4*hsize)...)
	}
	switch l.Order / 2 % 3 {
	case 0:
		tables()
		hash()
		strs(slots)
	case 1: // strings first: tables at the end of the file
		strs(slots)
		hash()
		tables()
	default:
		half := len(slots) / 2
		strs(slots[:half])
		tables()
		save := l.Share
		l.Share = 0
		strs(slots[half:])
		l.Share = save
		hash()
	}
	for i := 0; i < n; i++ {
		put(oOff+8*i, uint32(len(pairs[i].id)))
		put(oOff+8*i+4, uint32(places[2*i]))
		put(tOff+8*i, uint32(len(pairs[i].str)))
		put(tOff+8*i+4, uint32(places[2*i+1]))
	}
	if hsize > 0 {
		for i := 0; i < n; i++ {
			h := hashpjw(pairs[i].id)
			idx, inc := h%hsize, 1+h%(hsize-2)
			for bo.Uint32(buf[hOff+int(idx)*4:]) != 0 {
				idx = (idx + inc) % hsize
			}
			put(hOff+int(idx)*4, uint32(i+1))
		}
	}
	put(0, 0x950412de)
	put(4, uint32(l.Major)<<16|uint32(l.Minor))
	put(8, uint32(n))
	put(12, uint32(oOff))
	put(16, uint32(tOff))
	put(20, hsize)
	put(24, uint32(hOff))
	// revision x.1: system dependent segments; none (all zero)
	return buf
}

func drawMO(rt *rapid.T, msgs []Msg) []byte {
	l := moLayout{
		Big: rapid.Bool().Draw(rt, "mo.big"), Hash: rapid.Bool().Draw(rt, "mo.hash"),
		Major: pick[uint16](rt, "mo.major", 0, 1), Minor: pick[uint16](rt, "mo.minor", 0, 0, 1),
		Order: intn(rt, "mo.order", 0, 5), Shuffle: rapid.Bool().Draw(rt, "mo.shuffle"),
		Share: intn(rt, "mo.share", 0, 1), Pad: intn(rt, "mo.pads", 0, 1), Align: pick(rt, "mo.align", 0, 1, 4, 8),
	}
	return buildMO(rt, moPairs(msgs), l)
}

func plainMO(msgs []Msg) []byte { return buildMO(nil, moPairs(msgs), moLayout{}) }

// moFile is what the strict reader finds.
type moFile struct {
	bo                      binary.ByteOrder
	rev                     uint32
	pairs                   []moPair
	sorted                  bool
	oOff, tOff, hOff, hsize uint32
}

// readMO reads an MO file, checking everything the format demands except the
// order of the strings, which it reports.
func readMO(data []byte) (*moFile, error) {
	if len(data) < 28 {
		return nil, fmt.Errorf("shorter than its header")
	}
	f := &moFile{bo: binary.LittleEndian}
	switch binary.LittleEndian.Uint32(data) {
	case 0x950412de:
	case 0xde120495:
		f.bo = binary.BigEndian
	default:
		return nil, fmt.Errorf("bad magic number")
	}
	u := func(at uint64) uint32 { return f.bo.Uint32(data[at:]) }
	f.rev = u(4)
	if maj, min := f.rev>>16, f.rev&0xffff; maj > 1 || min > 1 {
		return nil, fmt.Errorf("bad revision %d.%d", maj, min)
	}
	n := u(8)
	f.oOff, f.tOff, f.hsize, f.hOff = u(12), u(16), u(20), u(24)
	size := uint64(len(data))
	if uint64(f.oOff)+8*uint64(n) > size || uint64(f.tOff)+8*uint64(n) > size {
		return nil, fmt.Errorf("string table outside the file")
	}
	if uint64(f.hOff)+4*uint64(f.hsize) > size {
		return nil, fmt.Errorf("hash table outside the file")
	}
	str := func(table uint32, i uint32) (string, error) {
		ln, off := uint64(u(uint64(table)+8*uint64(i))), uint64(u(uint64(table)+8*uint64(i)+4))
		if off+ln+1 > size {
			return "", fmt.Errorf("string %d outside the file", i)
		}
		if data[off+ln] != 0 {
			return "", fmt.Errorf("string %d is not NUL terminated", i)
		}
		return string(data[off : off+ln]), nil
	}
	f.sorted = true
	seen := map[string]bool{}
	for i := uint32(0); i < n; i++ {
		id, err := str(f.oOff, i)
		if err != nil {
			return nil, err
		}
		tr, err := str(f.tOff, i)
		if err != nil {
			return nil, err
		}
		if seen[id] {
			return nil, fmt.Errorf("original string %q occurs twice", id)
		}
		seen[id] = true
		if i > 0 && f.pairs[i-1].id > id {
			f.sorted = false
		}
		f.pairs = append(f.pairs, moPair{id, tr})
	}
	return f, nil
}

// search is gettext's lookup without a hash table: binary search.
func (f *moFile) search(id string) (string, bool) {
	// gettext compares C strings, i.e. up to the first NUL
	key, _, _ := strings.Cut(id, "\x00")
	lo, hi := 0, len(f.pairs)
	for lo < hi {
		mid := (lo + hi) / 2
		k, _, _ := strings.Cut(f.pairs[mid].id, "\x00")
		switch strings.Compare(key, k) {
		case 0:
			return f.pairs[mid].str, true
		case -1:
			hi = mid
		default:
			lo = mid + 1
		}
	}
	return "", false
}

// msgs decodes the pairs.
func (f *moFile) msgs() []Msg {
	var out []Msg
	for _, p := range f.pairs {
		var m Msg
		id := p.id
		if c, rest, ok := strings.Cut(id, "\x04"); ok {
			m.Ctxt, id = S(c), rest
		}
		if a, b, ok := strings.Cut(id, "\x00"); ok {
			m.Plural, m.ID, m.ID2 = true, S(a), S(b)
			for _, s := range strings.Split(p.str, "\x00") {
				m.StrN = append(m.StrN, S(s))
			}
		} else {
			m.ID, m.Str = S(id), S(p.str)
		}
		out = append(out, m)
	}
	return out
}
