package props

import (
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"

	"verif/harness/sym"
)

// C12_Members: listing, counting and printing of a set given by up to n
// arbitrary bytes.
func C12_Members() {
	n := sym.Shard("n", 64)
	vs := sym.Bytes("v", n)
	s := byteset.New(vs...)
	checkListing(s, func(w byte) bool {
		r := false
		for _, v := range vs {
			r = r || v == w
		}
		return r
	})
	sym.Reach("C12 members")
}

// C12_Window: every combination of a run of adjacent values, beside a
// background that is empty, full or striped.
func C12_Window() {
	width := sym.Shard("width", 65)
	lo := sym.Shard("at", 256)
	bg := sym.Shard("background", 3)
	var bits uint64
	if width > 8 {
		bits = sym.Uint64("bits")
	} else {
		bits = uint64(sym.Byte("bits"))
	}
	bits &= 1<<width - 1
	has := func(w byte) bool {
		if int(w) >= lo && int(w) < lo+width {
			return bits>>(int(w)-lo)&1 == 1
		}
		switch bg {
		case 1:
			return true
		case 2:
			return w%21 == 3
		}
		return false
	}
	s := byteset.New()
	sym.Merge(func() {
		for b := 0; b < 256; b++ {
			if has(byte(b)) {
				s.Add(byte(b))
			}
		}
	})
	checkListing(s, has)
	sym.Reach("C12 window")
}

const hexDigits = "0123456789ABCDEF"

func checkListing(s byteset.ByteSet, has func(w byte) bool) {
	n := s.Len()
	list := s.Bytes()
	text := s.String()
	w := sym.Byte("w")
	ordered, within, found, wantW := true, true, false, false
	form := true
	sym.Merge(func() {
		for i, b := range list {
			if i > 0 && list[i-1] >= b {
				ordered = false
			}
			if !has(b) {
				within = false
			}
			if b == w {
				found = true
			}
		}
	})
	sym.Merge(func() { wantW = has(w) })
	sym.Assert(ordered, "listed bytes are not strictly increasing")
	sym.Assert(within, "a listed byte is not a member")
	sym.Assert(found == wantW, "a member is not listed")
	sym.Assert(n == len(list), "length differs from the number of members")
	sym.Merge(func() {
		if len(list) == 0 {
			form = text == "[]"
			return
		}
		if len(text) != 3*len(list)+1 {
			form = false
			return
		}
		for i, b := range list {
			sep := byte(' ')
			if i == 0 {
				sep = '['
			}
			if text[3*i] != sep || text[3*i+1] != hexDigits[b>>4] || text[3*i+2] != hexDigits[b&15] {
				form = false
			}
		}
		if text[3*len(list)] != ']' {
			form = false
		}
	})
	sym.Assert(form, "printed form is wrong")
	sym.Assert(s.Contains(w) == wantW, "listing changed the set")
	// the listing belongs to the caller
	sym.Merge(func() {
		for i := range list {
			list[i] = w
		}
	})
	sym.Assert(s.Contains(w) == wantW, "changing the listing changed the set")
	sym.Observe("len", n)
	sym.Observe("text", text)
}

func init() {
	reg("C12_Members", C12_Members)
	reg("C12_Window", C12_Window)
}
