package props

import (
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"

	"verif/harness/sym"
)

// mask is the specification's view of a set: bit v of the 256-bit word.
type mask [4]uint64

func (m *mask) has(v byte) bool { return m[v>>6]>>(v&63)&1 == 1 }

func anyMask(name string) *mask {
	m := &mask{}
	for i := range m {
		m[i] = sym.Uint64(name)
	}
	return m
}

// setOf builds the set through the public operations only.
func setOf(m *mask) byteset.ByteSet {
	s := byteset.New()
	sym.Merge(func() {
		for b := 0; b < 256; b++ {
			if m.has(byte(b)) {
				s.Add(byte(b))
			}
		}
	})
	return s
}

// C11_Add: membership after adding to any set; copies are independent.
func C11_Add() {
	m := anyMask("m")
	s := setOf(m)
	t := s
	v, w := sym.Byte("v"), sym.Byte("w")
	sym.Assert(s.Contains(w) == m.has(w), "membership of a built set is wrong")
	sym.Assert(s.Contains(w) == m.has(w), "membership query changed the set")
	s.Add(v)
	sym.Assert(s.Contains(w) == (m.has(w) || v == w), "membership after Add is wrong")
	sym.Assert(t.Contains(w) == m.has(w), "adding to a set changed a copy of it")
	s.Add(v)
	sym.Assert(s.Contains(w) == (m.has(w) || v == w), "membership after a second Add is wrong")
	sym.Reach("C11 add")
	sym.Observe("contains", s.Contains(w))
}

// C11_Remove: membership after removing from any set.
func C11_Remove() {
	m := anyMask("m")
	s := setOf(m)
	t := s
	v, w := sym.Byte("v"), sym.Byte("w")
	s.Remove(v)
	sym.Assert(s.Contains(w) == (m.has(w) && v != w), "membership after Remove is wrong")
	sym.Assert(t.Contains(w) == m.has(w), "removing from a set changed a copy of it")
	s.Remove(v)
	sym.Assert(s.Contains(w) == (m.has(w) && v != w), "membership after a second Remove is wrong")
	s.Add(v)
	sym.Assert(s.Contains(w) == (m.has(w) || v == w), "membership after Remove and Add is wrong")
	sym.Reach("C11 remove")
	sym.Observe("contains", s.Contains(w))
}

// C11_Union: union of any two sets, operands unchanged.
func C11_Union() {
	ma, mb := anyMask("a"), anyMask("b")
	a, b := setOf(ma), setOf(mb)
	v, w := sym.Byte("v"), sym.Byte("w")
	u := a.Union(b)
	sym.Assert(u.Contains(w) == (ma.has(w) || mb.has(w)), "union has the wrong members")
	sym.Assert(a.Contains(w) == ma.has(w), "union changed its receiver")
	sym.Assert(b.Contains(w) == mb.has(w), "union changed its argument")
	u.Add(v)
	u.Remove(w)
	sym.Assert(a.Contains(v) == ma.has(v) && a.Contains(w) == ma.has(w), "changing a union changed its receiver")
	sym.Assert(b.Contains(v) == mb.has(v) && b.Contains(w) == mb.has(w), "changing a union changed its argument")
	a.Add(v)
	sym.Assert(u.Contains(v) == (v != w), "changing an operand changed the union")
	x := b.Union(a).Union(b)
	sym.Assert(x.Contains(w) == (ma.has(w) || mb.has(w) || v == w), "repeated union has the wrong members")
	sym.Reach("C11 union")
	sym.Observe("contains", x.Contains(w))
}

// C11_Compare: equality and inclusion of any two sets.
func C11_Compare() {
	ma, mb := anyMask("a"), anyMask("b")
	a, b := setOf(ma), setOf(mb)
	sub := ma[0]&^mb[0]|ma[1]&^mb[1]|ma[2]&^mb[2]|ma[3]&^mb[3] == 0
	sup := mb[0]&^ma[0]|mb[1]&^ma[1]|mb[2]&^ma[2]|mb[3]&^ma[3] == 0
	eq := (ma[0]^mb[0])|(ma[1]^mb[1])|(ma[2]^mb[2])|(ma[3]^mb[3]) == 0
	var geq, gsub, gsup, self bool
	sym.Merge(func() {
		geq = a.Equal(b)
		gsub = a.IsSubSet(b)
		gsup = a.IsSuperSet(b)
		self = a.Equal(a) && a.IsSubSet(a) && a.IsSuperSet(a)
	})
	sym.Assert(geq == eq, "Equal is wrong")
	sym.Assert(gsub == sub, "IsSubSet is wrong")
	sym.Assert(gsup == sup, "IsSuperSet is wrong")
	w := sym.Byte("w")
	sym.Assert(a.Contains(w) == ma.has(w) && b.Contains(w) == mb.has(w), "a comparison changed an operand")
	sym.Assert(self, "a set does not equal itself")
	sym.Reach("C11 compare")
	sym.Observe("eq", geq)
	sym.Observe("sub", gsub)
}

// C11_New: a set made from a list of any bytes.
func C11_New() {
	n := sym.Shard("n", 64)
	vs := sym.Bytes("v", n)
	w := sym.Byte("w")
	keep := append([]byte(nil), vs...)
	s := byteset.New(vs...)
	want := false
	sym.Merge(func() {
		for _, v := range keep {
			want = want || v == w
		}
	})
	sym.Assert(s.Contains(w) == want, "New has the wrong members")
	t := byteset.New(vs...)
	t.Add(w)
	sym.Assert(s.Contains(w) == want, "sets made by New are not independent")
	for i := range vs {
		sym.Assert(vs[i] == keep[i], "New changed its arguments")
	}
	sym.Assert(byteset.New().Contains(w) == false, "the empty set has a member")
	sym.Reach("C11 new")
	sym.Observe("contains", s.Contains(w))
}

// C11_History: any sequence of additions and removals on any set; sets with
// the same members are equal whatever their history.
func C11_History() {
	n := sym.Shard("ops", 64)
	m := anyMask("m")
	s := setOf(m)
	r := *m
	sym.Merge(func() {
		for i := 0; i < n; i++ {
			v := sym.Byte("v")
			if sym.Bool("add") {
				s.Add(v)
				r[v>>6] |= 1 << (v & 63)
			} else {
				s.Remove(v)
				r[v>>6] &^= 1 << (v & 63)
			}
		}
	})
	w := sym.Byte("w")
	sym.Assert(s.Contains(w) == r.has(w), "membership after a history is wrong")
	t := setOf(&r)
	var eq, inc bool
	sym.Merge(func() {
		eq = s.Equal(t) && t.Equal(s)
		inc = s.IsSubSet(t) && s.IsSuperSet(t)
	})
	sym.Assert(eq, "sets with the same members are not equal")
	sym.Assert(inc, "sets with the same members do not include each other")
	sym.Reach("C11 history")
	sym.Observe("contains", s.Contains(w))
}

func init() {
	reg("C11_Add", C11_Add)
	reg("C11_Remove", C11_Remove)
	reg("C11_Union", C11_Union)
	reg("C11_Compare", C11_Compare)
	reg("C11_New", C11_New)
	reg("C11_History", C11_History)
}
