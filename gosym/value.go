package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Str, Ptr, SliceV, MapRef, Iface, FuncV, StructV,
// ArrayV, TupleV, UnionV, *rangeIter, nil (uninitialised register).
type Value any

type Str struct {
	s    string  // when t == nil
	t    []*Term // symbolic bytes (8-bit terms)
	lazy int     // heap object holding a thunk or the forced string
}

func (s Str) Len() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

type Ptr struct {
	id   int
	path []pathEl
}

type pathEl struct {
	i int
	t *Term // symbolic index (i unused)
}

type SliceV struct {
	id            int
	path          []pathEl // path to the backing array inside object id
	off, len, cap int
}

type MapRef struct{ id int }

type Iface struct {
	typ types.Type
	v   Value
}

type FuncV struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
}

type StructV []Value
type ArrayV []Value
type TupleV []Value

type Alt struct {
	g *Term
	v Value
}

// UnionV: alternatives with mutually exclusive guards that are exhaustive
// under the path condition.
type UnionV struct{ alts []Alt }

type mapEntry struct {
	k, v Value
	g    *Term // present
}

type MapData struct {
	ents []mapEntry
	ix   map[string]int // concrete key -> entry (only for concrete keys)
}

type Obj struct {
	own   *owner
	val   Value    // cells
	mp    *MapData // maps
	elems []Value  // array objects
	isArr bool
	typ   types.Type
}

type owner struct{ _ int }

// ---- persistent heap: 64-way trie, copy on write by owner token

const (
	trieBits   = 5
	trieW      = 1 << trieBits
	trieLevels = 6
)

type trieNode struct {
	own  *owner
	kids [trieW]any // *trieNode or *Obj at the last level
}

type Heap struct{ root *trieNode }

func (h *Heap) get(id int) *Obj {
	n := h.root
	for l := trieLevels - 1; l > 0; l-- {
		if n == nil {
			return nil
		}
		k, _ := n.kids[(id>>(l*trieBits))&(trieW-1)].(*trieNode)
		n = k
	}
	if n == nil {
		return nil
	}
	o, _ := n.kids[id&(trieW-1)].(*Obj)
	return o
}

func (h *Heap) set(own *owner, id int, o *Obj) {
	h.root = setNode(own, h.root, trieLevels-1, id, o)
}

func setNode(own *owner, n *trieNode, l int, id int, o *Obj) *trieNode {
	if n == nil {
		n = &trieNode{own: own}
	} else if n.own != own {
		c := *n
		c.own = own
		n = &c
	}
	ix := (id >> (l * trieBits)) & (trieW - 1)
	if l == 0 {
		n.kids[ix] = o
		return n
	}
	k, _ := n.kids[ix].(*trieNode)
	n.kids[ix] = setNode(own, k, l-1, id, o)
	return n
}

// diff calls f for every id whose object differs
func diffHeap(a, b *trieNode, l int, base int, f func(id int, x, y *Obj)) {
	if a == b {
		return
	}
	for i := 0; i < trieW; i++ {
		var x, y any
		if a != nil {
			x = a.kids[i]
		}
		if b != nil {
			y = b.kids[i]
		}
		if x == y {
			continue
		}
		id := base<<trieBits | i
		if l == 0 {
			ox, _ := x.(*Obj)
			oy, _ := y.(*Obj)
			f(id, ox, oy)
		} else {
			nx, _ := x.(*trieNode)
			ny, _ := y.(*trieNode)
			diffHeap(nx, ny, l-1, id, f)
		}
	}
}

// mut returns an object this state may modify in place
func (st *State) mut(id int) *Obj {
	o := st.heap.get(id)
	if o.own == st.own {
		return o
	}
	c := *o
	c.own = st.own
	if o.elems != nil {
		c.elems = append([]Value(nil), o.elems...)
	}
	if o.mp != nil {
		m := &MapData{ents: append([]mapEntry(nil), o.mp.ents...), ix: make(map[string]int, len(o.mp.ix))}
		for k, v := range o.mp.ix {
			m.ix[k] = v
		}
		c.mp = m
	}
	st.heap.set(st.own, id, &c)
	return &c
}

func (e *Engine) newID() int {
	e.nextID++
	return e.nextID
}

func (e *Engine) alloc(st *State, typ types.Type, v Value) int {
	id := e.newID()
	o := &Obj{own: st.own, typ: typ}
	if a, ok := v.(ArrayV); ok {
		o.isArr = true
		o.elems = append([]Value(nil), a...)
	} else {
		o.val = v
	}
	st.heap.set(st.own, id, o)
	return id
}

func (e *Engine) allocArr(st *State, elems []Value) int {
	id := e.newID()
	st.heap.set(st.own, id, &Obj{own: st.own, isArr: true, elems: elems})
	return id
}

func (o *Obj) whole() Value {
	if o.isArr {
		return ArrayV(append([]Value(nil), o.elems...))
	}
	return o.val
}

// ---- zero values

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// width of scalar type; ok=false for non-scalars
func scalarW(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float64, types.Float32:
		// only carried around opaquely (as bits)
		return 64, false, true
	}
	return 0, false, false
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if w, _, ok := scalarW(t); ok {
			return e.b.Const(w, 0)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		e.unsupported("zero of " + t.String())
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<20 {
			e.unsupported("huge array")
		}
		s := make(ArrayV, u.Len())
		if len(s) > 0 {
			z := e.zero(u.Elem())
			for i := range s {
				s[i] = z
			}
		}
		return s
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = e.zero(u.At(i).Type())
		}
		return s
	case *types.Chan:
		return Ptr{}
	}
	e.unsupported("zero of " + t.String())
	return nil
}

// ---- strings

func (e *Engine) byteAt(s Str, i int) *Term {
	if s.t != nil {
		return s.t[i]
	}
	return e.b.Const(8, uint64(s.s[i]))
}

func (e *Engine) mkStr(ts []*Term) Str {
	conc := true
	for _, t := range ts {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(ts))
		for i, t := range ts {
			bs[i] = byte(t.V)
		}
		return Str{s: string(bs)}
	}
	return Str{t: ts}
}

func (e *Engine) strSub(s Str, lo, hi int) Str {
	if s.t == nil {
		return Str{s: s.s[lo:hi]}
	}
	return e.mkStr(s.t[lo:hi])
}

func (e *Engine) concat(x, y Str) Str {
	if x.t == nil && y.t == nil {
		return Str{s: x.s + y.s}
	}
	ts := make([]*Term, 0, x.Len()+y.Len())
	for i := 0; i < x.Len(); i++ {
		ts = append(ts, e.byteAt(x, i))
	}
	for i := 0; i < y.Len(); i++ {
		ts = append(ts, e.byteAt(y, i))
	}
	return e.mkStr(ts)
}

// ---- merging

func pathEq(a, b []pathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mergeKey: values with equal keys can be merged into one value of that kind
func (e *Engine) sameShape(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.W == y.W
	case Str:
		y, ok := b.(Str)
		if !ok {
			return false
		}
		if x.lazy != 0 || y.lazy != 0 {
			return x.lazy == y.lazy
		}
		return x.Len() == y.Len()
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.id == y.id && pathEq(x.path, y.path)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.id == y.id && x.off == y.off && x.len == y.len && x.cap == y.cap && pathEq(x.path, y.path)
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.env) != len(y.env) {
			return false
		}
		return true
	case StructV:
		y, ok := b.(StructV)
		return ok && len(x) == len(y)
	case ArrayV:
		y, ok := b.(ArrayV)
		return ok && len(x) == len(y)
	case TupleV:
		y, ok := b.(TupleV)
		return ok && len(x) == len(y)
	case nil:
		return b == nil
	}
	return false
}

// merge computes ite(g, a, b)
func (e *Engine) merge(g *Term, a, b Value) Value {
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	return e.mergeMany([]Alt{{g, a}, {e.b.Not(g), b}})
}

// mergeMany combines guarded alternatives (exclusive, exhaustive)
func (e *Engine) mergeMany(alts []Alt) Value {
	if len(alts) == 1 {
		return alts[0].v
	}
	// flatten unions
	flat := alts
	for i, a := range alts {
		if _, ok := a.v.(UnionV); ok {
			flat = append([]Alt(nil), alts[:i]...)
			for _, a := range alts[i:] {
				if u, ok := a.v.(UnionV); ok {
					for _, x := range u.alts {
						g := e.b.And(a.g, x.g)
						if !g.IsFalse() {
							flat = append(flat, Alt{g, x.v})
						}
					}
				} else {
					flat = append(flat, a)
				}
			}
			break
		}
	}
	type group struct{ alts []Alt }
	var groups []*group
outer:
	for _, a := range flat {
		if a.g.IsFalse() {
			continue
		}
		if a.v == nil {
			continue // dead register
		}
		for _, gr := range groups {
			if e.sameShape(gr.alts[0].v, a.v) {
				gr.alts = append(gr.alts, a)
				continue outer
			}
		}
		groups = append(groups, &group{[]Alt{a}})
	}
	if len(groups) == 0 {
		if len(flat) > 0 {
			return flat[0].v
		}
		return nil
	}
	var res []Alt
	for _, gr := range groups {
		v := e.mergeShape(gr.alts)
		if len(groups) == 1 {
			return v
		}
		g := gr.alts[0].g
		for _, a := range gr.alts[1:] {
			g = e.b.Or(g, a.g)
		}
		res = append(res, Alt{g, v})
	}
	e.stats.Unions++
	return UnionV{res}
}

func (e *Engine) mergeTerms(alts []Alt) *Term {
	first := alts[0].v.(*Term)
	same := true
	for _, a := range alts[1:] {
		if a.v.(*Term) != first {
			same = false
			break
		}
	}
	if same {
		return first
	}
	// identity: guards x==c_i with values c_i
	if first.W > 0 && first.W >= 8 && len(alts) > 2 {
		var x *Term
		ok := true
		for _, a := range alts {
			t := a.v.(*Term)
			if !t.IsConst() || a.g.Op != OpInSet || a.g.Set.count() != 1 || uint64(a.g.Set.first()) != t.V {
				ok = false
				break
			}
			if x == nil {
				x = a.g.A[0]
			} else if x != a.g.A[0] {
				ok = false
				break
			}
		}
		if ok {
			return e.b.Resize(x, first.W, false)
		}
	}
	// group equal values
	var vals []Alt
	ix := map[*Term]int{}
	for _, a := range alts {
		t := a.v.(*Term)
		if i, ok := ix[t]; ok {
			vals[i].g = e.b.Or(vals[i].g, a.g)
		} else {
			ix[t] = len(vals)
			vals = append(vals, a)
		}
	}
	r := vals[len(vals)-1].v.(*Term)
	for i := len(vals) - 2; i >= 0; i-- {
		r = e.b.Ite(vals[i].g, vals[i].v.(*Term), r)
	}
	return r
}

func (e *Engine) mergeShape(alts []Alt) Value {
	if len(alts) == 1 {
		return alts[0].v
	}
	switch x := alts[0].v.(type) {
	case *Term:
		return e.mergeTerms(alts)
	case Str:
		if x.lazy != 0 {
			return x
		}
		same := x.t == nil
		if same {
			for _, a := range alts[1:] {
				y := a.v.(Str)
				if y.t != nil || y.s != x.s {
					same = false
					break
				}
			}
		}
		if same {
			return x
		}
		n := x.Len()
		ts := make([]*Term, n)
		sub := make([]Alt, len(alts))
		for i := 0; i < n; i++ {
			for j, a := range alts {
				sub[j] = Alt{a.g, e.byteAt(a.v.(Str), i)}
			}
			ts[i] = e.mergeTerms(sub)
		}
		return e.mkStr(ts)
	case Ptr, SliceV, MapRef:
		return x
	case Iface:
		if x.typ == nil {
			return x
		}
		sub := make([]Alt, len(alts))
		for j, a := range alts {
			sub[j] = Alt{a.g, a.v.(Iface).v}
		}
		return Iface{x.typ, e.mergeMany(sub)}
	case FuncV:
		if len(x.env) == 0 {
			return x
		}
		env := make([]Value, len(x.env))
		sub := make([]Alt, len(alts))
		for i := range env {
			for j, a := range alts {
				sub[j] = Alt{a.g, a.v.(FuncV).env[i]}
			}
			env[i] = e.mergeMany(sub)
		}
		return FuncV{fn: x.fn, env: env, bi: x.bi}
	case StructV:
		return StructV(e.mergeLists(alts, len(x), func(v Value) []Value { return v.(StructV) }))
	case ArrayV:
		return ArrayV(e.mergeLists(alts, len(x), func(v Value) []Value { return v.(ArrayV) }))
	case TupleV:
		return TupleV(e.mergeLists(alts, len(x), func(v Value) []Value { return v.(TupleV) }))
	}
	panic(fmt.Sprintf("mergeShape %T", alts[0].v))
}

func (e *Engine) mergeLists(alts []Alt, n int, f func(Value) []Value) []Value {
	r := make([]Value, n)
	sub := make([]Alt, len(alts))
	for i := 0; i < n; i++ {
		for j, a := range alts {
			sub[j] = Alt{a.g, f(a.v)[i]}
		}
		r[i] = e.mergeMany(sub)
	}
	return r
}

// lift applies f to every alternative of v and merges the results
func (e *Engine) lift(v Value, f func(g *Term, v Value) Value) Value {
	if u, ok := v.(UnionV); ok {
		res := make([]Alt, 0, len(u.alts))
		for _, a := range u.alts {
			r := f(a.g, a.v)
			if r != nil {
				res = append(res, Alt{a.g, r})
			}
		}
		if len(res) == 0 {
			return nil
		}
		return e.mergeMany(res)
	}
	return f(e.b.True, v)
}

func showVal(v Value, m *Model, b *Bank) string {
	switch x := v.(type) {
	case *Term:
		if m != nil {
			return fmt.Sprint(b.Eval(x, m))
		}
		return x.String()
	case Str:
		if x.t == nil {
			return fmt.Sprintf("%q", x.s)
		}
		bs := make([]byte, len(x.t))
		for i, t := range x.t {
			if m != nil {
				bs[i] = byte(b.Eval(t, m))
			} else if t.IsConst() {
				bs[i] = byte(t.V)
			} else {
				bs[i] = '?'
			}
		}
		return fmt.Sprintf("%q", string(bs))
	case Iface:
		if x.typ == nil {
			return "nil"
		}
		return x.typ.String() + "(" + showVal(x.v, m, b) + ")"
	case StructV:
		var p []string
		for _, f := range x {
			p = append(p, showVal(f, m, b))
		}
		return "{" + strings.Join(p, ",") + "}"
	case UnionV:
		if m != nil {
			for _, a := range x.alts {
				if b.Eval(a.g, m) == 1 {
					return showVal(a.v, m, b)
				}
			}
		}
		var p []string
		for _, a := range x.alts {
			p = append(p, a.g.String()+"→"+showVal(a.v, m, b))
		}
		return "⟨" + strings.Join(p, " | ") + "⟩"
	}
	return fmt.Sprintf("%T%v", v, v)
}
