package main

// Hash-consed bit-vector / boolean terms with simplification.
//
// Every term has a width W (0 means Bool).  Terms whose only free variable is
// one 8-bit variable are kept canonical when they are Boolean: such a term is
// always an OpInSet (membership of the variable in a 256-bit set), so that
// equivalent conditions over one byte are the same term.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpTrunc
	OpInSet
	OpTable
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle",
	"ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor",
	"bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc", "inset", "table"}

type Set256 [4]uint64

func (s *Set256) has(b byte) bool { return s[b>>6]>>(b&63)&1 == 1 }
func (s *Set256) add(b byte)      { s[b>>6] |= 1 << (b & 63) }
func (s Set256) and(o Set256) Set256 {
	return Set256{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}
func (s Set256) or(o Set256) Set256 {
	return Set256{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]}
}
func (s Set256) not() Set256 { return Set256{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s Set256) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set256) full() bool  { return s[0]&s[1]&s[2]&s[3] == ^uint64(0) }
func (s Set256) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set256) first() byte {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return byte(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}

type Table struct {
	w    uint8
	vals []uint64
	key  string
}

type Term struct {
	Op    Op
	W     uint8
	multi bool // more than one free variable
	hasV  bool // has at least one free variable
	ID    int32
	VarIx int32 // ordinal of variable (OpVar)
	V     uint64
	A     [3]*Term
	sv    *Term // the single free variable, when !multi && hasV
	Name  string
	Set   Set256
	Tab   *Table
	ndefs bool
}

type tkey struct {
	op         Op
	w          uint8
	a0, a1, a2 int32
	v          uint64
	set        Set256
}

type Bank struct {
	m     map[tkey]*Term
	next  int32
	vars  []*Term
	byNm  map[string]*Term
	tabs  map[string]*Table
	True  *Term
	False *Term

	evGen  uint32
	evMark []uint32
	evVal  []uint64

	setMemo  map[int32]Set256
	leafMemo map[int32][]intAlt
	mbMemo   map[int32]uint64
}

func NewBank() *Bank {
	b := &Bank{m: map[tkey]*Term{}, byNm: map[string]*Term{}, tabs: map[string]*Table{}, setMemo: map[int32]Set256{}, leafMemo: map[int32][]intAlt{}, mbMemo: map[int32]uint64{}}
	b.False = b.mk(OpConst, 0, 0, nil, nil, nil)
	b.True = b.mk(OpConst, 0, 1, nil, nil, nil)
	return b
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.ID
}

func (b *Bank) intern(k tkey, mk func() *Term) *Term {
	if t, ok := b.m[k]; ok {
		return t
	}
	t := mk()
	t.ID = b.next
	b.next++
	for _, a := range t.A {
		if a == nil || !a.hasV {
			continue
		}
		if a.multi {
			t.multi, t.hasV = true, true
			t.sv = nil
			break
		}
		if !t.hasV {
			t.hasV = true
			t.sv = a.sv
		} else if t.sv != a.sv {
			t.multi = true
			t.sv = nil
			break
		}
	}
	b.m[k] = t
	return t
}

func (b *Bank) mk(op Op, w uint8, v uint64, a0, a1, a2 *Term) *Term {
	return b.intern(tkey{op: op, w: w, v: v, a0: tid(a0), a1: tid(a1), a2: tid(a2)}, func() *Term {
		return &Term{Op: op, W: w, V: v, A: [3]*Term{a0, a1, a2}}
	})
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t.Op == OpConst && t.W == 0 && t.V == 1 }
func (t *Term) IsFalse() bool { return t.Op == OpConst && t.W == 0 && t.V == 0 }

func (b *Bank) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 == 1 {
			return b.True
		}
		return b.False
	}
	return b.mk(OpConst, w, v&mask(w), nil, nil, nil)
}

func (b *Bank) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *Bank) Var(name string, w uint8) *Term {
	if t, ok := b.byNm[name]; ok {
		if t.W != w {
			panic("variable " + name + " redeclared with other width")
		}
		return t
	}
	t := &Term{Op: OpVar, W: w, Name: name, ID: b.next, VarIx: int32(len(b.vars)), hasV: true}
	t.sv = t
	b.next++
	b.byNm[name] = t
	b.vars = append(b.vars, t)
	return t
}

func (b *Bank) InSet(x *Term, s Set256) *Term {
	if s.empty() {
		return b.False
	}
	if s.full() {
		return b.True
	}
	return b.intern(tkey{op: OpInSet, w: 0, a0: x.ID, a1: -1, a2: -1, set: s}, func() *Term {
		return &Term{Op: OpInSet, W: 0, A: [3]*Term{x}, Set: s}
	})
}

// canonical form for boolean terms over a single byte variable
func (b *Bank) canon(t *Term) *Term {
	if t.W != 0 || t.Op == OpInSet || !t.hasV || t.multi || t.sv.W != 8 {
		return t
	}
	if s, ok := b.setMemo[t.ID]; ok {
		return b.InSet(t.sv, s)
	}
	var s Set256
	x := t.sv
	for i := 0; i < 256; i++ {
		b.evGen++
		if b.evalWith1(t, x, uint64(i)) == 1 {
			s.add(byte(i))
		}
	}
	b.setMemo[t.ID] = s
	return b.InSet(x, s)
}

func (b *Bank) evalWith1(t *Term, x *Term, v uint64) uint64 {
	return b.eval(t, func(y *Term) uint64 { return v })
}

// Model: values by variable ordinal (missing = 0)
type Model struct{ vals []uint64 }

func (m *Model) get(t *Term) uint64 {
	if m == nil || int(t.VarIx) >= len(m.vals) {
		return 0
	}
	return m.vals[t.VarIx]
}

func (m *Model) with(t *Term, v uint64) *Model {
	n := len(m.vals)
	if int(t.VarIx) >= n {
		n = int(t.VarIx) + 1
	}
	r := &Model{vals: make([]uint64, n)}
	copy(r.vals, m.vals)
	r.vals[t.VarIx] = v
	return r
}

func (b *Bank) Eval(t *Term, m *Model) uint64 {
	b.evGen++
	return b.eval(t, m.get)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (b *Bank) eval(t *Term, get func(*Term) uint64) uint64 {
	switch t.Op {
	case OpConst:
		return t.V
	case OpVar:
		return get(t) & mask(t.W)
	}
	if int(t.ID) >= len(b.evMark) {
		n := int(b.next) + int(b.next)/2 + 64
		nm := make([]uint32, n)
		copy(nm, b.evMark)
		nv := make([]uint64, n)
		copy(nv, b.evVal)
		b.evMark, b.evVal = nm, nv
	}
	if b.evMark[t.ID] == b.evGen {
		return b.evVal[t.ID]
	}
	gen := b.evGen
	var r uint64
	switch t.Op {
	case OpIte:
		if b.eval(t.A[0], get) == 1 {
			r = b.eval(t.A[1], get)
		} else {
			r = b.eval(t.A[2], get)
		}
	case OpAnd:
		r = b.eval(t.A[0], get)
		if r == 1 {
			r = b.eval(t.A[1], get)
		}
	case OpOr:
		r = b.eval(t.A[0], get)
		if r == 0 {
			r = b.eval(t.A[1], get)
		}
	default:
		var x, y uint64
		x = b.eval(t.A[0], get)
		if t.A[1] != nil {
			y = b.eval(t.A[1], get)
		}
		r = evalOp(t, x, y)
	}
	b.evMark[t.ID] = gen
	b.evVal[t.ID] = r
	return r
}

func evalOp(t *Term, x, y uint64) uint64 {
	w := t.W
	aw := t.A[0].W
	m := mask(w)
	switch t.Op {
	case OpNot:
		return x ^ 1
	case OpEq:
		return b2u(x == y)
	case OpUlt:
		return b2u(x < y)
	case OpUle:
		return b2u(x <= y)
	case OpSlt:
		return b2u(sx(x, aw) < sx(y, aw))
	case OpSle:
		return b2u(sx(x, aw) <= sx(y, aw))
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if c == -1 {
			return uint64(-a) & m
		}
		return uint64(a/c) & m
	case OpSRem:
		a, c := sx(x, w), sx(y, w)
		if c == 0 {
			return x
		}
		if c == -1 {
			return 0
		}
		return uint64(a%c) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpBNot:
		return ^x & m
	case OpNeg:
		return -x & m
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OpZext:
		return x
	case OpSext:
		return uint64(sx(x, aw)) & m
	case OpTrunc:
		return x & m
	case OpInSet:
		return b2u(t.Set.has(byte(x)))
	case OpTable:
		if x < uint64(len(t.Tab.vals)) {
			return t.Tab.vals[x]
		}
		return 0
	}
	panic("evalOp " + opNames[t.Op])
}

func (b *Bank) raw(op Op, w uint8, v uint64, x, y *Term) *Term {
	t := b.mk(op, w, v, x, y, nil)
	if x.IsConst() && (y == nil || y.IsConst()) {
		var yv uint64
		if y != nil {
			yv = y.V
		}
		return b.Const(w, evalOp(t, x.V, yv))
	}
	if w == 0 {
		return b.canon(t)
	}
	return t
}

// ---- boolean connectives

func (b *Bank) Not(x *Term) *Term {
	if x.IsConst() {
		return b.Bool(x.V == 0)
	}
	switch x.Op {
	case OpNot:
		return x.A[0]
	case OpInSet:
		return b.InSet(x.A[0], x.Set.not())
	}
	return b.raw(OpNot, 0, 0, x, nil)
}

func compl(x, y *Term) bool {
	if x.Op == OpNot && x.A[0] == y {
		return true
	}
	if y.Op == OpNot && y.A[0] == x {
		return true
	}
	return false
}

func (b *Bank) And(x, y *Term) *Term {
	if x.IsConst() {
		if x.V == 0 {
			return x
		}
		return y
	}
	if y.IsConst() {
		if y.V == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if x.Op == OpInSet && y.Op == OpInSet && x.A[0] == y.A[0] {
		return b.InSet(x.A[0], x.Set.and(y.Set))
	}
	if compl(x, y) {
		return b.False
	}
	// absorption: x & (x | y), x & (x & y), x & (!x | y)
	for i := 0; i < 2; i++ {
		if y.Op == OpAnd {
			if y.A[0] == x || y.A[1] == x {
				return y
			}
			if compl(y.A[0], x) || compl(y.A[1], x) || disj(y.A[0], x) || disj(y.A[1], x) {
				return b.False
			}
			if y.A[0].Op == OpInSet && x.Op == OpInSet && y.A[0].A[0] == x.A[0] {
				return b.And(b.And(x, y.A[0]), y.A[1])
			}
			if y.A[1].Op == OpInSet && x.Op == OpInSet && y.A[1].A[0] == x.A[0] {
				return b.And(b.And(x, y.A[1]), y.A[0])
			}
		}
		if y.Op == OpOr {
			if y.A[0] == x || y.A[1] == x {
				return x
			}
			if compl(y.A[0], x) || disj(y.A[0], x) {
				return b.And(x, y.A[1])
			}
			if compl(y.A[1], x) || disj(y.A[1], x) {
				return b.And(x, y.A[0])
			}
		}
		x, y = y, x
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.raw(OpAnd, 0, 0, x, y)
}

func disj(x, y *Term) bool {
	return x.Op == OpInSet && y.Op == OpInSet && x.A[0] == y.A[0] && x.Set.and(y.Set).empty()
}

func covers(x, y *Term) bool {
	return x.Op == OpInSet && y.Op == OpInSet && x.A[0] == y.A[0] && x.Set.or(y.Set).full()
}

func (b *Bank) Or(x, y *Term) *Term {
	if x.IsConst() {
		if x.V == 1 {
			return x
		}
		return y
	}
	if y.IsConst() {
		if y.V == 1 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if x.Op == OpInSet && y.Op == OpInSet && x.A[0] == y.A[0] {
		return b.InSet(x.A[0], x.Set.or(y.Set))
	}
	if compl(x, y) {
		return b.True
	}
	for i := 0; i < 2; i++ {
		if y.Op == OpOr {
			if y.A[0] == x || y.A[1] == x {
				return y
			}
			if compl(y.A[0], x) || compl(y.A[1], x) || covers(y.A[0], x) || covers(y.A[1], x) {
				return b.True
			}
			if y.A[0].Op == OpInSet && x.Op == OpInSet && y.A[0].A[0] == x.A[0] {
				return b.Or(b.Or(x, y.A[0]), y.A[1])
			}
			if y.A[1].Op == OpInSet && x.Op == OpInSet && y.A[1].A[0] == x.A[0] {
				return b.Or(b.Or(x, y.A[1]), y.A[0])
			}
		}
		if y.Op == OpAnd {
			if y.A[0] == x || y.A[1] == x {
				return x
			}
			if compl(y.A[0], x) || covers(y.A[0], x) {
				return b.Or(x, y.A[1])
			}
			if compl(y.A[1], x) || covers(y.A[1], x) {
				return b.Or(x, y.A[0])
			}
		}
		x, y = y, x
	}
	// (c & p) | (!c & p) = p
	if x.Op == OpAnd && y.Op == OpAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if x.A[i] == y.A[j] {
					o := b.Or(x.A[1-i], y.A[1-j])
					return b.And(x.A[i], o)
				}
			}
		}
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.raw(OpOr, 0, 0, x, y)
}

func (b *Bank) Ite(c, x, y *Term) *Term {
	if c.IsConst() {
		if c.V == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.W != y.W {
		panic(fmt.Sprintf("ite width %d %d", x.W, y.W))
	}
	if c.Op == OpNot {
		return b.Ite(c.A[0], y, x)
	}
	if x.W == 0 {
		if x.IsTrue() {
			return b.Or(c, y)
		}
		if x.IsFalse() {
			return b.And(b.Not(c), y)
		}
		if y.IsTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.IsFalse() {
			return b.And(c, x)
		}
	}
	if x.Op == OpIte && x.A[0] == c {
		x = x.A[1]
	}
	if y.Op == OpIte && y.A[0] == c {
		y = y.A[2]
	}
	if x == y {
		return x
	}
	if y.Op == OpIte && y.A[1] == x {
		return b.Ite(b.Or(c, y.A[0]), x, y.A[2])
	}
	if x.W > 0 {
		// a bit of z copied into place: ite(z&k = 0, a, a|k) = a | (z&k)
		if z, k, ok := bitTest(c); ok && z.W == x.W && y.W == x.W {
			if y.Op == OpBOr && y.A[1].IsConst() && y.A[1].V == k && y.A[0] == x ||
				x.IsConst() && y.IsConst() && y.V == x.V|k && x.V&k == 0 {
				return b.Bin(OpBOr, x, b.Bin(OpBAnd, z, b.Const(z.W, k)))
			}
		}
	}
	if x.W > 0 && (x.Op == OpIte || y.Op == OpIte) {
		// regroup constant leaves
		if lx := b.leafSet(x); lx != nil {
			if ly := b.leafSet(y); ly != nil {
				n := 0
				for _, p := range lx {
					for _, q := range ly {
						if p.v == q.v {
							n++
						}
					}
				}
				if n > 0 {
					nc := b.Not(c)
					var r []intAlt
					for _, l := range lx {
						r = append(r, intAlt{b.And(c, l.g), l.v})
					}
					for _, l := range ly {
						r = append(r, intAlt{b.And(nc, l.g), l.v})
					}
					return b.fromLeaves(x.W, r)
				}
			}
		}
	}
	return b.iteRaw(c, x, y)
}

func (b *Bank) iteRaw(c, x, y *Term) *Term {
	if c.IsConst() {
		if c.V == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	t := b.mk(OpIte, x.W, 0, c, x, y)
	if x.W == 0 {
		return b.canon(t)
	}
	return t
}

// ---- comparisons

// leafSet lists the values of a term that is an ite tree over constants,
// with exclusive and exhaustive guards; nil when t has another shape.
const maxLeaves = 40

func (b *Bank) leafSet(t *Term) []intAlt {
	if t.W == 0 {
		return nil
	}
	if t.Op == OpConst {
		return []intAlt{{b.True, t.V}}
	}
	if t.Op != OpIte {
		return nil
	}
	if l, ok := b.leafMemo[t.ID]; ok {
		return l
	}
	b.leafMemo[t.ID] = nil
	x := b.leafSet(t.A[1])
	if x == nil {
		return nil
	}
	y := b.leafSet(t.A[2])
	if y == nil {
		return nil
	}
	c, nc := t.A[0], b.Not(t.A[0])
	var r []intAlt
	for _, l := range x {
		if g := b.And(c, l.g); !g.IsFalse() {
			r = append(r, intAlt{g, l.v})
		}
	}
outer:
	for _, l := range y {
		g := b.And(nc, l.g)
		if g.IsFalse() {
			continue
		}
		for i := range r {
			if r[i].v == l.v {
				r[i].g = b.Or(r[i].g, g)
				continue outer
			}
		}
		r = append(r, intAlt{g, l.v})
	}
	if len(r) > maxLeaves {
		return nil
	}
	b.leafMemo[t.ID] = r
	return r
}

// fromLeaves builds the canonical ite chain for guarded values
func (b *Bank) fromLeaves(w uint8, ls []intAlt) *Term {
	var r []intAlt
outer:
	for _, l := range ls {
		if l.g.IsFalse() {
			continue
		}
		for i := range r {
			if r[i].v == l.v {
				r[i].g = b.Or(r[i].g, l.g)
				continue outer
			}
		}
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].v < r[j].v })
	if len(r) == 0 {
		return b.Const(w, 0) // unreachable value
	}
	t := b.Const(w, r[len(r)-1].v)
	for i := len(r) - 2; i >= 0; i-- {
		t = b.iteRaw(r[i].g, b.Const(w, r[i].v), t)
	}
	if t.Op == OpIte {
		if b.leafMemo[t.ID] == nil {
			b.leafMemo[t.ID] = r // disjoint and exhaustive as given
		}
	}
	return t
}

// mapLeaves applies f to every constant leaf
func (b *Bank) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	ls := b.leafSet(t)
	if ls == nil {
		panic("mapLeaves")
	}
	res := make([]*Term, len(ls))
	allc := true
	for i, l := range ls {
		res[i] = f(b.Const(t.W, l.v))
		if !res[i].IsConst() {
			allc = false
		}
	}
	w := res[0].W
	if w == 0 {
		r := b.False
		for i, l := range ls {
			r = b.Or(r, b.And(l.g, res[i]))
		}
		return r
	}
	if allc {
		n := make([]intAlt, len(ls))
		for i, l := range ls {
			n[i] = intAlt{l.g, res[i].V}
		}
		return b.fromLeaves(w, n)
	}
	r := res[len(res)-1]
	for i := len(res) - 2; i >= 0; i-- {
		r = b.Ite(ls[i].g, res[i], r)
	}
	return r
}

func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.W != y.W {
		panic(fmt.Sprintf("eq width %d %d", x.W, y.W))
	}
	if x.IsConst() && y.IsConst() {
		return b.Bool(x.V == y.V)
	}
	if x.W == 0 {
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.V == 1 {
				return x
			}
			return b.Not(x)
		}
		return b.Or(b.And(x, y), b.And(b.Not(x), b.Not(y)))
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		switch x.Op {
		case OpBAnd:
			if k := x.A[1]; k.IsConst() {
				if y.V&^k.V != 0 {
					return b.False
				}
				if z := x.A[0]; z.Op == OpLshr && z.A[1].IsConst() {
					c := z.A[1].V
					if c < uint64(x.W) && k.V<<c>>c == k.V && (k.V<<c)&mask(x.W) == k.V<<c {
						return b.Eq(b.Bin(OpBAnd, z.A[0], b.Const(x.W, k.V<<c)), b.Const(x.W, y.V<<c))
					}
				}
				if k.V&(k.V-1) == 0 && y.V == k.V {
					return b.Not(b.Eq(x, b.Const(x.W, 0)))
				}
			}
		case OpVar:
			if x.W == 8 {
				var s Set256
				s.add(byte(y.V))
				return b.InSet(x, s)
			}
		case OpZext:
			if y.V > mask(x.A[0].W) {
				return b.False
			}
			return b.Eq(x.A[0], b.Const(x.A[0].W, y.V))
		case OpSext:
			aw := x.A[0].W
			if uint64(sx(y.V, aw))&mask(x.W) != y.V {
				return b.False
			}
			return b.Eq(x.A[0], b.Const(aw, y.V))
		case OpAdd:
			if x.A[1].IsConst() {
				return b.Eq(x.A[0], b.Const(x.W, y.V-x.A[1].V))
			}
		case OpSub:
			if x.A[1].IsConst() {
				return b.Eq(x.A[0], b.Const(x.W, y.V+x.A[1].V))
			}
		case OpIte:
			if x.A[1].IsConst() && x.A[2].IsConst() {
				if x.A[1].V == y.V {
					return x.A[0]
				}
				if x.A[2].V == y.V {
					return b.Not(x.A[0])
				}
				return b.False
			}
			if x.A[1].IsConst() || x.A[2].IsConst() || b.leafSet(x) != nil {
				return b.Ite(x.A[0], b.Eq(x.A[1], y), b.Eq(x.A[2], y))
			}
		}
	} else if x.Op == OpZext && y.Op == OpZext && x.A[0].W == y.A[0].W {
		return b.Eq(x.A[0], y.A[0])
	} else if b.leafSet(x) != nil && b.leafSet(y) != nil {
		return b.mapLeaves(x, func(c *Term) *Term { return b.Eq(c, y) })
	}
	if x.ID > y.ID && !y.IsConst() {
		x, y = y, x
	}
	return b.raw(OpEq, 0, 0, x, y)
}

func (b *Bank) cmp(op Op, x, y *Term) *Term {
	if x == y {
		return b.Bool(op == OpUle || op == OpSle)
	}
	if x.W != y.W {
		panic("cmp width")
	}
	if x.IsConst() && y.IsConst() {
		t := b.mk(op, 0, 0, x, y, nil)
		return b.Bool(evalOp(t, x.V, y.V) == 1)
	}
	if x.Op == OpIte && y.IsConst() && (x.A[1].IsConst() || x.A[2].IsConst()) && b.leafSet(x) != nil {
		return b.mapLeaves(x, func(c *Term) *Term { return b.cmp(op, c, y) })
	}
	if y.Op == OpIte && x.IsConst() && b.leafSet(y) != nil {
		return b.mapLeaves(y, func(c *Term) *Term { return b.cmp(op, x, c) })
	}
	// zext narrowing
	nx, ny := x, y
	if x.Op == OpZext && y.IsConst() {
		aw := x.A[0].W
		if op == OpUlt || op == OpUle || (sx(y.V, y.W) >= 0 && x.W > aw) {
			if y.V > mask(aw) {
				return b.True
			}
			nx, ny = x.A[0], b.Const(aw, y.V)
		} else {
			return b.False // signed, y negative, x >= 0 : x < y false
		}
	} else if y.Op == OpZext && x.IsConst() {
		aw := y.A[0].W
		if op == OpUlt || op == OpUle || (sx(x.V, x.W) >= 0 && y.W > aw) {
			if x.V > mask(aw) {
				return b.False
			}
			nx, ny = b.Const(aw, x.V), y.A[0]
		} else {
			return b.True
		}
	} else if x.Op == OpZext && y.Op == OpZext && x.A[0].W == y.A[0].W {
		nx, ny = x.A[0], y.A[0]
	}
	if nx != x {
		switch op {
		case OpSlt:
			op = OpUlt
		case OpSle:
			op = OpUle
		}
		x, y = nx, ny
		if x == y {
			return b.Bool(op == OpUle)
		}
	}
	if op == OpUlt && y.IsConst() && y.V == 0 {
		return b.False
	}
	if op == OpUle && x.IsConst() && x.V == 0 {
		return b.True
	}
	return b.raw(op, 0, 0, x, y)
}

func (b *Bank) Ult(x, y *Term) *Term { return b.cmp(OpUlt, x, y) }
func (b *Bank) Ule(x, y *Term) *Term { return b.cmp(OpUle, x, y) }
func (b *Bank) Slt(x, y *Term) *Term { return b.cmp(OpSlt, x, y) }
func (b *Bank) Sle(x, y *Term) *Term { return b.cmp(OpSle, x, y) }

// ---- arithmetic

func (b *Bank) Bin(op Op, x, y *Term) *Term {
	w := x.W
	if w != y.W {
		panic(fmt.Sprintf("width mismatch %s %d %d", opNames[op], x.W, y.W))
	}
	if x.IsConst() && y.IsConst() {
		t := b.mk(op, w, 0, x, y, nil)
		return b.Const(w, evalOp(t, x.V, y.V))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if x.IsConst() {
			x, y = y, x
		}
	}
	m := mask(w)
	switch op {
	case OpAdd:
		if y.IsConst() {
			if y.V == 0 {
				return x
			}
			if x.Op == OpAdd && x.A[1].IsConst() {
				return b.Bin(OpAdd, x.A[0], b.Const(w, x.A[1].V+y.V))
			}
			if x.Op == OpSub && x.A[1].IsConst() {
				return b.Bin(OpAdd, x.A[0], b.Const(w, y.V-x.A[1].V))
			}
		}
	case OpSub:
		if x == y {
			return b.Const(w, 0)
		}
		if y.Op == OpBAnd {
			if y.A[0] == x {
				return b.Bin(OpBAnd, x, b.BNot(y.A[1]))
			}
			if y.A[1] == x {
				return b.Bin(OpBAnd, x, b.BNot(y.A[0]))
			}
		}
		if y.IsConst() {
			if y.V == 0 {
				return x
			}
			return b.Bin(OpAdd, x, b.Const(w, -y.V))
		}
	case OpMul:
		if y.IsConst() {
			if y.V == 0 {
				return y
			}
			if y.V == 1 {
				return x
			}
		}
	case OpBAnd:
		if x == y {
			return x
		}
		if y.IsConst() {
			if y.V == 0 {
				return y
			}
			if y.V == m {
				return x
			}
			if x.Op == OpBAnd && x.A[1].IsConst() {
				return b.Bin(OpBAnd, x.A[0], b.Const(w, y.V&x.A[1].V))
			}
		}
	case OpBOr:
		if x == y {
			return x
		}
		if y.IsConst() {
			if y.V == 0 {
				return x
			}
			if y.V == m {
				return y
			}
		}
		if x.Op == OpBOr && (x.A[0] == y || x.A[1] == y) {
			return x
		}
		if y.Op == OpBAnd && y.A[1].IsConst() {
			if x.Op == OpBAnd && x.A[0] == y.A[0] && x.A[1].IsConst() {
				return b.Bin(OpBAnd, y.A[0], b.Const(w, x.A[1].V|y.A[1].V))
			}
			if x.Op == OpBOr {
				for i := 0; i < 2; i++ {
					if p := x.A[i]; p.Op == OpBAnd && p.A[0] == y.A[0] && p.A[1].IsConst() {
						return b.Bin(OpBOr, x.A[1-i], b.Bin(OpBOr, p, y))
					}
				}
			}
		}
		if y.Op == OpBOr && (y.A[0] == x || y.A[1] == x) {
			return y
		}
	case OpBXor:
		if x == y {
			return b.Const(w, 0)
		}
		if y.IsConst() && y.V == 0 {
			return x
		}
	case OpUDiv:
		if y.IsConst() && y.V == 1 {
			return x
		}
		if y.IsConst() && y.V != 0 && y.V&(y.V-1) == 0 {
			return b.Bin(OpLshr, x, b.Const(w, uint64(bits.TrailingZeros64(y.V))))
		}
		if y.IsConst() && y.V != 0 && x.Op == OpZext {
			if y.V >= 1<<x.A[0].W {
				return b.Const(w, 0)
			}
			return b.Resize(b.Bin(OpUDiv, x.A[0], b.Const(x.A[0].W, y.V)), w, false)
		}
	case OpURem:
		if y.IsConst() && y.V != 0 && y.V&(y.V-1) == 0 {
			return b.Bin(OpBAnd, x, b.Const(w, y.V-1))
		}
		if y.IsConst() && y.V != 0 && x.Op == OpZext {
			if y.V >= 1<<x.A[0].W {
				return x
			}
			return b.Resize(b.Bin(OpURem, x.A[0], b.Const(x.A[0].W, y.V)), w, false)
		}
	case OpSDiv, OpSRem:
		// non-negative dividend (zero-extended) and positive constant divisor
		if x.Op == OpZext && y.IsConst() && sx(y.V, w) > 0 {
			if op == OpSDiv {
				return b.Bin(OpUDiv, x, y)
			}
			return b.Bin(OpURem, x, y)
		}
	case OpShl, OpLshr, OpAshr:
		if y.IsConst() && y.V == 0 {
			return x
		}
		if x.IsConst() && x.V == 0 {
			return x
		}
		if y.IsConst() && y.V >= uint64(w) && op != OpAshr {
			return b.Const(w, 0)
		}
		if op == OpLshr && x.Op == OpZext && y.IsConst() && y.V >= uint64(x.A[0].W) {
			return b.Const(w, 0)
		}
	}
	// both sides with few values: work on the values
	if x.Op == OpIte && y.Op == OpIte {
		lx, ly := b.leafSet(x), b.leafSet(y)
		if lx != nil && ly != nil && len(lx)*len(ly) <= 256 {
			var r []intAlt
			tmp := &Term{Op: op, W: w, A: [3]*Term{x, y}}
			for _, p := range lx {
				for _, q := range ly {
					g := b.And(p.g, q.g)
					if !g.IsFalse() {
						r = append(r, intAlt{g, evalOp(tmp, p.v, q.v)})
					}
				}
			}
			return b.fromLeaves(w, r)
		}
	}
	// keep constant-leaf ite trees in that form (only one side symbolic)
	if y.IsConst() && x.Op == OpIte && b.leafSet(x) != nil {
		return b.mapLeaves(x, func(c *Term) *Term { return b.Bin(op, c, y) })
	}
	if x.IsConst() && y.Op == OpIte && b.leafSet(y) != nil {
		return b.mapLeaves(y, func(c *Term) *Term { return b.Bin(op, x, c) })
	}
	return b.raw(op, w, 0, x, y)
}

func (b *Bank) BNot(x *Term) *Term {
	if x.IsConst() {
		return b.Const(x.W, ^x.V)
	}
	if x.Op == OpBNot {
		return x.A[0]
	}
	return b.raw(OpBNot, x.W, 0, x, nil)
}

func (b *Bank) Neg(x *Term) *Term {
	if x.IsConst() {
		return b.Const(x.W, -x.V)
	}
	return b.raw(OpNeg, x.W, 0, x, nil)
}

// Resize converts to width w; signed tells how to widen.
func (b *Bank) Resize(x *Term, w uint8, signed bool) *Term {
	if x.W == w {
		return x
	}
	if x.IsConst() {
		if w > x.W && signed {
			return b.Const(w, uint64(sx(x.V, x.W)))
		}
		return b.Const(w, x.V)
	}
	if x.Op == OpIte && b.leafSet(x) != nil {
		return b.mapLeaves(x, func(c *Term) *Term { return b.Resize(c, w, signed) })
	}
	if w > x.W {
		if x.Op == OpZext {
			return b.Resize(x.A[0], w, false)
		}
		if signed {
			return b.raw(OpSext, w, 0, x, nil)
		}
		return b.raw(OpZext, w, 0, x, nil)
	}
	if x.Op == OpZext || x.Op == OpSext {
		return b.Resize(x.A[0], w, x.Op == OpSext)
	}
	return b.raw(OpTrunc, w, 0, x, nil)
}

func (b *Bank) TableSel(idx *Term, w uint8, vals []uint64) *Term {
	if idx.IsConst() {
		if idx.V < uint64(len(vals)) {
			return b.Const(w, vals[idx.V])
		}
		return b.Const(w, 0)
	}
	key := fmt.Sprint(w, vals)
	tb, ok := b.tabs[key]
	if !ok {
		tb = &Table{w: w, vals: append([]uint64{}, vals...), key: key}
		b.tabs[key] = tb
	}
	// id of table: its address is unique per key; use ordinal through V
	ord := uint64(0)
	for k := range key {
		ord = ord*1099511628211 + uint64(key[k])
	}
	return b.intern(tkey{op: OpTable, w: w, a0: idx.ID, a1: -1, a2: -1, v: ord}, func() *Term {
		return &Term{Op: OpTable, W: w, V: ord, A: [3]*Term{idx}, Tab: tb}
	})
}

// ---- printing

func bvlit(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v&mask(w))
	}
	return fmt.Sprintf("#b%0*b", int(w), v&mask(w))
}

func (t *Term) sortStr() string {
	if t.W == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.W)
}

func ranges(s Set256) [][2]int {
	var r [][2]int
	for i := 0; i < 256; i++ {
		if !s.has(byte(i)) {
			continue
		}
		j := i
		for j+1 < 256 && s.has(byte(j+1)) {
			j++
		}
		r = append(r, [2]int{i, j})
		i = j
	}
	return r
}

func inSetStr(x string, s Set256) string {
	rs := ranges(s)
	neg := false
	if n := ranges(s.not()); len(n) < len(rs) {
		rs, neg = n, true
	}
	var parts []string
	for _, r := range rs {
		switch {
		case r[0] == r[1]:
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", x, r[0]))
		case r[0] == 0:
			parts = append(parts, fmt.Sprintf("(bvule %s #x%02x)", x, r[1]))
		case r[1] == 255:
			parts = append(parts, fmt.Sprintf("(bvuge %s #x%02x)", x, r[0]))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvuge %s #x%02x) (bvule %s #x%02x))", x, r[0], x, r[1]))
		}
	}
	e := parts[0]
	if len(parts) > 1 {
		e = "(or " + strings.Join(parts, " ") + ")"
	}
	if neg {
		e = "(not " + e + ")"
	}
	return e
}

func muxStr(x string, xw uint8, tb *Table, lo, n int, bit int) string {
	if bit < 0 {
		if lo < len(tb.vals) {
			return bvlit(tb.w, tb.vals[lo])
		}
		return bvlit(tb.w, 0)
	}
	same := true
	get := func(i int) uint64 {
		if i < len(tb.vals) {
			return tb.vals[i]
		}
		return 0
	}
	for i := lo; i < lo+n; i++ {
		if get(i) != get(lo) {
			same = false
			break
		}
	}
	if same {
		return bvlit(tb.w, get(lo))
	}
	h := n / 2
	return fmt.Sprintf("(ite (= ((_ extract %d %d) %s) #b1) %s %s)", bit, bit, x,
		muxStr(x, xw, tb, lo+h, h, bit-1), muxStr(x, xw, tb, lo, h, bit-1))
}

// expr prints one node, referring to children by name
func (t *Term) expr(ref func(*Term) string) string {
	switch t.Op {
	case OpConst:
		return bvlit(t.W, t.V)
	case OpVar:
		return ref(t)
	case OpInSet:
		return inSetStr(ref(t.A[0]), t.Set)
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, ref(t.A[0]))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, ref(t.A[0]))
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.W-1, ref(t.A[0]))
	case OpTable:
		n, k := 1, 0
		for n < len(t.Tab.vals) {
			n *= 2
			k++
		}
		x := ref(t.A[0])
		m := muxStr(x, t.A[0].W, t.Tab, 0, n, k-1)
		if k < int(t.A[0].W) { // out of range reads as zero
			return fmt.Sprintf("(ite (bvult %s %s) %s %s)", x, bvlit(t.A[0].W, uint64(n)), m, bvlit(t.W, 0))
		}
		return m
	}
	s := "(" + opNames[t.Op]
	for _, a := range t.A {
		if a != nil {
			s += " " + ref(a)
		}
	}
	return s + ")"
}

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	if t.Op == OpVar {
		return t.Name
	}
	if t.Op == OpConst {
		return bvlit(t.W, t.V)
	}
	if d == 0 {
		return "…"
	}
	return t.expr(func(a *Term) string { return a.str(d - 1) })
}

// bitTest recognises z & k = 0 for a single-bit constant k
func bitTest(c *Term) (z *Term, k uint64, ok bool) {
	if c.Op != OpEq || !c.A[1].IsConst() || c.A[1].V != 0 || c.A[0].Op != OpBAnd || !c.A[0].A[1].IsConst() {
		return
	}
	k = c.A[0].A[1].V
	if k == 0 || k&(k-1) != 0 {
		return
	}
	return c.A[0].A[0], k, true
}

// maybeBits over-approximates the bits of t that can be one
func (b *Bank) maybeBits(t *Term) uint64 {
	if v, ok := b.mbMemo[t.ID]; ok {
		return v
	}
	r := mask(t.W)
	if t.W == 0 {
		r = 1
	}
	switch t.Op {
	case OpConst:
		r = t.V
	case OpBAnd:
		r = b.maybeBits(t.A[0]) & b.maybeBits(t.A[1])
	case OpBOr, OpBXor:
		r = b.maybeBits(t.A[0]) | b.maybeBits(t.A[1])
	case OpIte:
		r = b.maybeBits(t.A[1]) | b.maybeBits(t.A[2])
	case OpZext:
		r = b.maybeBits(t.A[0])
	case OpShl:
		if t.A[1].IsConst() && t.A[1].V < uint64(t.W) {
			r = b.maybeBits(t.A[0]) << t.A[1].V & mask(t.W)
		}
	case OpLshr:
		if t.A[1].IsConst() && t.A[1].V < uint64(t.W) {
			r = b.maybeBits(t.A[0]) >> t.A[1].V
		}
	}
	b.mbMemo[t.ID] = r
	return r
}
