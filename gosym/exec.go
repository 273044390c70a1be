package main

// Symbolic interpreter for go/ssa: compiles each function into closures and
// executes them over symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ctl uint8

const (
	cNext ctl = iota // go on with the next instruction
	cStay            // frame, block or position already adjusted
)

type instr struct {
	ix  int
	run func(e *Engine, st *State) ctl
}

type FuncInfo struct {
	fn       *ssa.Function
	nregs    int
	reg      map[ssa.Value]int
	code     [][]instr
	pos      []int   // position of each block in the weak topological order
	loops    [][]int // enclosing loop heads (block indices), outermost first, including a head itself
	isHead   []bool
	liveIn   [][]uint64 // registers live at block entry (after phis)
	liveMemo map[[2]int][]uint64
	intr     intrinsic
	repl     *ssa.Function
	cov      []bool
	name     string
	repo     bool
	used     bool
	steps    int64
}

type intrinsic func(e *Engine, st *State, fn *ssa.Function, args []Value, dst int) (Value, bool)

type opnd struct {
	k  uint8 // 0 register, 1 constant, 2 free variable
	ix int
	v  Value
}

func (o opnd) get(fr *Frame) Value {
	switch o.k {
	case 0:
		return fr.regs[o.ix]
	case 1:
		return o.v
	}
	return fr.env[o.ix]
}

func (st *State) set(dst int, v Value) {
	if dst >= 0 {
		st.top().regs[dst] = v
	}
}

func (e *Engine) globalID(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	id := e.newID()
	e.globals[g] = id
	e.globalTyp[id] = g.Type().(*types.Pointer).Elem()
	e.globalOf[id] = g
	return id
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if isString(t) {
		return Str{s: constant.StringVal(c.Value)}
	}
	w, _, ok := scalarW(t)
	if !ok {
		e.unsupported("constant of type " + t.String())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.b.Bool(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return e.b.Const(64, floatBits(f))
		}
		if v, ok := constant.Int64Val(c.Value); ok {
			return e.b.Const(w, uint64(v))
		}
		v, _ := constant.Uint64Val(c.Value)
		return e.b.Const(w, v)
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat == 0 {
			return e.b.Const(w, uint64(int64(f)))
		}
		return e.b.Const(64, floatBits(f))
	}
	e.unsupported("constant " + c.String())
	return nil
}

func (e *Engine) opnd(fi *FuncInfo, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, v: e.constVal(x)}
	case *ssa.Global:
		return opnd{k: 1, v: Ptr{id: e.globalID(x)}}
	case *ssa.Function:
		return opnd{k: 1, v: FuncV{fn: x}}
	case *ssa.Builtin:
		return opnd{k: 1, v: FuncV{bi: x}}
	case *ssa.FreeVar:
		for i, f := range fi.fn.FreeVars {
			if f == x {
				return opnd{k: 2, ix: i}
			}
		}
	}
	r, ok := fi.reg[v]
	if !ok {
		panic("no register for " + v.String())
	}
	return opnd{k: 0, ix: r}
}

// pkgInScope tells whether a function belongs to the code under verification
func (e *Engine) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), repoPath)
	}
	if f.Signature.Recv() != nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), repoPath)
		}
	}
	return false
}

func (e *Engine) info(fn *ssa.Function) *FuncInfo {
	if fi, ok := e.fis[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, name: fn.String(), reg: map[ssa.Value]int{}}
	e.fis[fn] = fi
	e.resolveIntrinsic(fi)
	if fi.intr != nil || fi.repl != nil || len(fn.Blocks) == 0 {
		return fi
	}
	fi.repo = e.inRepo(fn)
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.code = make([][]instr, len(fn.Blocks))
	fi.cov = make([]bool, len(fn.Blocks))
	fi.wto()
	for bi, b := range fn.Blocks {
		for ix, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			fi.code[bi] = append(fi.code[bi], instr{ix: ix, run: e.compile(fi, in)})
		}
	}
	return fi
}

// ---- weak topological order (Bourdoncle)

func (fi *FuncInfo) wto() {
	n := len(fi.fn.Blocks)
	fi.pos = make([]int, n)
	fi.loops = make([][]int, n)
	fi.isHead = make([]bool, n)
	dfn := make([]int, n)
	const inf = int(1 << 60)
	num := 0
	var stack []int
	type elem struct {
		v    int
		comp []*elem // nil for plain vertex
		head bool
	}
	var visit func(v int, part *[]*elem) int
	var component func(v int) []*elem
	component = func(v int) []*elem {
		var part []*elem
		for _, s := range fi.fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		return part
	}
	visit = func(v int, part *[]*elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range fi.fn.Blocks[v].Succs {
			m := dfn[s.Index]
			if m == 0 {
				m = visit(s.Index, part)
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				c := component(v)
				*part = append([]*elem{{v: v, comp: c, head: true}}, *part...)
			} else {
				*part = append([]*elem{{v: v}}, *part...)
			}
		}
		return head
	}
	var top []*elem
	visit(0, &top)
	if r := fi.fn.Recover; r != nil && dfn[r.Index] == 0 {
		visit(r.Index, &top)
	}
	p := 0
	var assign func(es []*elem, heads []int)
	assign = func(es []*elem, heads []int) {
		for _, el := range es {
			fi.pos[el.v] = p
			p++
			hs := heads
			if el.head {
				fi.isHead[el.v] = true
				hs = append(append([]int(nil), heads...), el.v)
			}
			fi.loops[el.v] = hs
			if el.comp != nil {
				assign(el.comp, hs)
			}
		}
	}
	assign(top, nil)
}

// ---- liveness

func (fi *FuncInfo) computeLive() {
	n := len(fi.fn.Blocks)
	w := (fi.nregs + 63) / 64
	fi.liveIn = make([][]uint64, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = make([]uint64, w)
	}
	fi.liveMemo = map[[2]int][]uint64{}
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			l := fi.liveAt(bi, 0)
			for i := range l {
				if l[i]&^fi.liveIn[bi][i] != 0 {
					changed = true
					fi.liveIn[bi][i] |= l[i]
				}
			}
		}
	}
}

// liveAt computes registers live before fi.code[b][ip]
func (fi *FuncInfo) liveAt(bi, ip int) []uint64 {
	b := fi.fn.Blocks[bi]
	l := make([]uint64, (fi.nregs+63)/64)
	set := func(v ssa.Value) {
		if r, ok := fi.reg[v]; ok {
			l[r/64] |= 1 << (r % 64)
		}
	}
	clr := func(v ssa.Value) {
		if r, ok := fi.reg[v]; ok {
			l[r/64] &^= 1 << (r % 64)
		}
	}
	for _, s := range b.Succs {
		var sl []uint64
		sl = append(sl, fi.liveIn[s.Index]...)
		// phis of s: defined on the edge
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
				break
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			r := fi.reg[ph]
			sl[r/64] &^= 1 << (r % 64)
			_ = pi
		}
		for i := range l {
			l[i] |= sl[i]
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range s.Preds {
				if p == b {
					set(ph.Edges[i])
				}
			}
		}
	}
	var ops [8]*ssa.Value
	for k := len(fi.code[bi]) - 1; k >= ip; k-- {
		in := b.Instrs[fi.code[bi][k].ix]
		if v, ok := in.(ssa.Value); ok {
			clr(v)
		}
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil {
				set(*o)
			}
		}
	}
	return l
}

func (fi *FuncInfo) live(b, ip int) []uint64 {
	if fi.liveIn == nil {
		fi.computeLive()
	}
	k := [2]int{b, ip}
	if l, ok := fi.liveMemo[k]; ok {
		return l
	}
	l := fi.liveAt(b, ip)
	fi.liveMemo[k] = l
	return l
}

// ---- control flow

func (e *Engine) jumper(fi *FuncInfo, from, to *ssa.BasicBlock, edge int) func(e *Engine, st *State) {
	type mv struct {
		dst int
		src opnd
	}
	var mvs []mv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			if _, dbg := in.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		mvs = append(mvs, mv{fi.reg[ph], e.opnd(fi, ph.Edges[edge])})
	}
	lf, lt := fi.loops[from.Index], fi.loops[to.Index]
	common := 0
	for common < len(lf) && common < len(lt) && lf[common] == lt[common] {
		common++
	}
	back := false
	if fi.isHead[to.Index] && common == len(lt) {
		// edge into the head from inside its own component
		back = true
	}
	ti := to.Index
	depth := len(lt)
	return func(e *Engine, st *State) {
		fr := st.top()
		if len(mvs) > 0 {
			if len(mvs) == 1 {
				fr.regs[mvs[0].dst] = mvs[0].src.get(fr)
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for _, m := range mvs {
					t = append(t, m.src.get(fr))
				}
				for i, m := range mvs {
					fr.regs[m.dst] = t[i]
				}
			}
		}
		if depth != len(lf) || back || common != depth {
			it := make([]int, depth)
			copy(it[:common], fr.iters)
			if back {
				it[depth-1]++
				st.loops++
			}
			fr.iters = it
		}
		fr.block = ti
		fr.ip = 0
		fi.cov[ti] = true
		if back && e.mergeLevel == 0 && it64(fr.iters) > e.opts.MaxLoop {
			panic(limitHit{"loop bound"})
		}
	}
}

func it64(it []int) int {
	if len(it) == 0 {
		return 0
	}
	return it[len(it)-1]
}

func edgeIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("no edge")
}

func (e *Engine) push(st *State, fn *ssa.Function, args, env []Value, dst int, adv bool) *Frame {
	fi := e.info(fn)
	if fi.repl != nil {
		fi.used = true
		fi = e.info(fi.repl)
	}
	if len(fi.code) == 0 {
		e.unsupported("function without body: " + fn.String())
	}
	if len(st.frames) > e.opts.MaxDepth {
		panic(limitHit{"call depth"})
	}
	if adv {
		st.top().ip++
	}
	fr := &Frame{own: st.own, fi: fi, regs: make([]Value, fi.nregs), env: env, ret: dst}
	e.nextInst++
	fr.inst = e.nextInst
	if len(args) != len(fi.fn.Params) {
		panic(fmt.Sprintf("%s: %d arguments for %d parameters", fi.fn, len(args), len(fi.fn.Params)))
	}
	copy(fr.regs, args)
	if n := len(fi.loops[0]); n > 0 {
		fr.iters = make([]int, n)
	}
	st.frames = append(st.frames, fr)
	fi.cov[0] = true
	return fr
}

// ret pops the top frame and delivers v
func (e *Engine) ret(st *State, v Value) {
	n := len(st.frames) - 1
	fr := st.frames[n]
	st.frames = st.frames[:n]
	if fr.onRet != nil {
		fr.onRet(e, st, v)
		return
	}
	if n > 0 && fr.ret >= 0 {
		st.top().regs[fr.ret] = v
	}
}

// runSteps executes until the frame stack is shorter than base, or until a
// yield point in merge mode.
func (e *Engine) runSteps(st *State, base int, merging bool) {
	for len(st.frames) > base {
		fr := st.top()
		fi := fr.fi
		blk := fi.code[fr.block]
		for {
			in := &blk[fr.ip]
			st.instrs++
			fi.steps++
			c := in.run(e, st)
			if c == cNext {
				fr = st.top()
				fr.ip++
				continue
			}
			break
		}
		if st.instrs > e.opts.MaxInstr {
			panic(limitHit{"instruction bound"})
		}
		e.ticks++
		if e.ticks&0xfff == 0 {
			if why := e.stopped(st); why != "" {
				panic(aborted{why})
			}
		}
		if merging {
			st.progress = true
			if len(e.pending) > 0 || e.others {
				return
			}
			if e.atCheckedHead(st) {
				return
			}
		}
	}
}

func (e *Engine) atCheckedHead(st *State) bool {
	if len(st.frames) == 0 {
		return false
	}
	fr := st.frames[len(st.frames)-1]
	return fr.ip == 0 && fr.fi.isHead[fr.block]
}

// ---- panics

func (e *Engine) goPanic(st *State, val Value, msg string) {
	at := ""
	if t := e.trace(st); len(t) > 0 {
		at = strings.Join(t, "\n")
	}
	st.panicV = &panicInfo{val: val, msg: msg, at: at}
	e.unwind(st)
	panic(goPanicked{})
}

func (e *Engine) rtPanic(st *State, msg string) {
	e.goPanic(st, Iface{e.rtErrType(), Str{s: msg}}, "runtime error: "+msg)
}

func (e *Engine) rtErrType() types.Type { return types.Typ[types.String] }

// unwind pops frames of a panicking state until deferred calls must run or
// the panic is caught.
func (e *Engine) unwind(st *State) {
	for len(st.frames) > 0 {
		fr := st.top()
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
			fr.unw = true
			e.callValue(st, d.fn, d.args, -1, false, func(e *Engine, st *State, _ Value) {
				if st.panicV != nil && st.panicV.rec {
					// recovered: the panicking function returns normally
					st.panicV = nil
					fr := st.top()
					if rb := fr.fi.fn.Recover; rb != nil {
						fr.block = rb.Index
						fr.ip = 0
						fr.iters = make([]int, len(fr.fi.loops[rb.Index]))
						fr.unw = false
						return
					}
					e.ret(st, e.zeroResults(fr.fi.fn))
					return
				}
				e.unwind(st)
			})
			return
		}
		if fr.catch {
			msg := st.panicV.msg
			st.lastPanic = st.panicV.at
			st.panicV = nil
			n := len(st.frames) - 1
			ret := fr.ret
			st.frames = st.frames[:n]
			if n > 0 && ret >= 0 {
				st.set(ret, TupleV{e.b.True, Str{s: msg}})
			}
			return
		}
		n := len(st.frames) - 1
		st.frames = st.frames[:n]
	}
}

func (e *Engine) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return e.zero(r.At(0).Type())
	}
	return e.zero(r)
}

// check raises a Go panic on the paths where bad holds
func (e *Engine) guardPanic(st *State, bad *Term, msg string) {
	if bad.IsFalse() {
		return
	}
	if e.branch(st, bad) {
		if e.mergeLevel > 0 {
			// is it real?
			v, m := e.check(st, nil, true)
			if v == Unsat {
				panic(killPath{"infeasible"})
			}
			if v == Unknown {
				e.stats.Unknown++
				e.incomplete(st, "solver gave no answer on a panic condition")
				panic(killPath{"unknown"})
			}
			st.model = m
		}
		e.rtPanic(st, msg)
	}
}

// ---- unions

// alts lists the alternatives of v possible under the path condition
func (e *Engine) alts(st *State, v Value) []Alt {
	u, ok := v.(UnionV)
	if !ok {
		return []Alt{{e.b.True, v}}
	}
	r := make([]Alt, 0, len(u.alts))
	for _, a := range u.alts {
		switch e.quick(st, a.g) {
		case 0:
			continue
		case 1:
			return []Alt{{e.b.True, a.v}}
		}
		r = append(r, a)
	}
	if len(r) == 0 {
		panic(killPath{"infeasible"})
	}
	if len(r) == 1 {
		r[0].g = e.b.True
	}
	return r
}

func (e *Engine) liftSt(st *State, v Value, f func(g *Term, v Value) Value) Value {
	as := e.alts(st, v)
	if len(as) == 1 {
		return f(e.b.True, as[0].v)
	}
	res := make([]Alt, 0, len(as))
	for _, a := range as {
		if r := f(a.g, a.v); r != nil {
			res = append(res, Alt{a.g, r})
		}
	}
	if len(res) == 0 {
		return nil
	}
	return e.mergeMany(res)
}

// intAlts lists the possible concrete values of an integer term.  Falls back
// to forking when they are not syntactically apparent.
type intAlt struct {
	g *Term
	v uint64
}

func (e *Engine) leaves(t *Term, max int) []intAlt {
	if t.IsConst() {
		return []intAlt{{e.b.True, t.V}}
	}
	if vs := e.b.leafSet(t); vs != nil && len(vs) <= max {
		return vs
	}
	return nil
}

func (e *Engine) intAlts(st *State, t *Term) []intAlt {
	if ls := e.leaves(t, 64); ls != nil {
		r := ls[:0:0]
		for _, l := range ls {
			switch e.quick(st, l.g) {
			case 0:
				continue
			case 1:
				return []intAlt{{e.b.True, l.v}}
			}
			r = append(r, l)
		}
		if len(r) == 0 {
			panic(killPath{"infeasible"})
		}
		if len(r) == 1 {
			r[0].g = e.b.True
		}
		return r
	}
	return []intAlt{{e.b.True, e.concretize(st, t)}}
}

// ---- memory

func (st *State) obj(e *Engine, id int) *Obj {
	o := st.heap.get(id)
	if o == nil {
		if t, ok := e.globalTyp[id]; ok {
			g := e.globalOf[id]
			if !e.initOK(g) {
				e.unsupported("global of a package that is not initialised: " + g.String())
			}
			o = &Obj{own: st.own, typ: t}
			v := e.zero(t)
			if a, ok := v.(ArrayV); ok {
				o.isArr = true
				o.elems = append([]Value(nil), a...)
			} else {
				o.val = v
			}
			st.heap.set(st.own, id, o)
			return o
		}
		panic(fmt.Sprintf("dangling object %d", id))
	}
	return o
}

func (e *Engine) idxEq(i *Term, k int) *Term {
	return e.b.Eq(i, e.b.Const(i.W, uint64(k)))
}

// readElems reads cells through the rest of a path
func (e *Engine) readIn(st *State, v Value, path []pathEl) Value {
	if len(path) == 0 {
		return v
	}
	var elems []Value
	switch x := v.(type) {
	case StructV:
		return e.readIn(st, x[path[0].i], path[1:])
	case ArrayV:
		elems = x
	default:
		panic(fmt.Sprintf("path into %T", v))
	}
	return e.readElems(st, elems, path)
}

func (e *Engine) readElems(st *State, elems []Value, path []pathEl) Value {
	p := path[0]
	if p.t == nil {
		if p.i < 0 || p.i >= len(elems) {
			panic(fmt.Sprintf("index %d outside %d cells", p.i, len(elems)))
		}
		return e.readIn(st, elems[p.i], path[1:])
	}
	// symbolic index: constant scalar table?
	if len(path) == 1 {
		if r := e.tableRead(elems, p.t); r != nil {
			return r
		}
	}
	var as []Alt
	if ls := e.leaves(p.t, 64); ls != nil {
		for _, l := range ls {
			if l.v >= uint64(len(elems)) || e.quick(st, l.g) == 0 {
				continue
			}
			as = append(as, Alt{l.g, e.readIn(st, elems[l.v], path[1:])})
		}
	} else {
		for i := range elems {
			g := e.idxEq(p.t, i)
			if g.IsFalse() || e.quick(st, g) == 0 {
				continue
			}
			as = append(as, Alt{g, e.readIn(st, elems[i], path[1:])})
		}
	}
	if len(as) == 0 {
		panic(killPath{"infeasible"})
	}
	return e.mergeMany(as)
}

func (e *Engine) tableRead(elems []Value, ix *Term) *Term {
	if len(elems) == 0 || len(elems) > 1024 {
		return nil
	}
	if e.b.leafSet(ix) != nil {
		return nil
	}
	var w uint8
	vals := make([]uint64, len(elems))
	for i, v := range elems {
		t, ok := v.(*Term)
		if !ok || !t.IsConst() || t.W == 0 {
			return nil
		}
		w = t.W
		vals[i] = t.V
	}
	if len(elems) < 8 {
		return nil
	}
	return e.b.TableSel(ix, w, vals)
}

func (e *Engine) loadPtr(st *State, p Ptr) Value {
	o := st.obj(e, p.id)
	if len(p.path) == 0 {
		return o.whole()
	}
	if o.isArr {
		return e.readElems(st, o.elems, p.path)
	}
	return e.readIn(st, o.val, p.path)
}

func (e *Engine) load(st *State, pv Value) Value {
	as := e.alts(st, pv)
	bad := e.b.False
	for _, a := range as {
		if a.v.(Ptr).id == 0 {
			bad = e.b.Or(bad, a.g)
		}
	}
	e.guardPanic(st, bad, "invalid memory address or nil pointer dereference")
	var res []Alt
	for _, a := range as {
		if p := a.v.(Ptr); p.id != 0 {
			res = append(res, Alt{a.g, e.loadPtr(st, p)})
		}
	}
	return e.mergeMany(res)
}

func (e *Engine) writeIn(v Value, path []pathEl, g *Term, nv Value) Value {
	if len(path) == 0 {
		return e.merge(g, nv, v)
	}
	switch x := v.(type) {
	case StructV:
		r := append(StructV(nil), x...)
		r[path[0].i] = e.writeIn(x[path[0].i], path[1:], g, nv)
		return r
	case ArrayV:
		r := append(ArrayV(nil), x...)
		e.writeElems(r, path, g, nv)
		return r
	}
	panic(fmt.Sprintf("write path into %T", v))
}

func (e *Engine) writeElems(elems []Value, path []pathEl, g *Term, nv Value) {
	p := path[0]
	if p.t == nil {
		elems[p.i] = e.writeIn(elems[p.i], path[1:], g, nv)
		return
	}
	for i := range elems {
		c := e.b.And(g, e.idxEq(p.t, i))
		if c.IsFalse() {
			continue
		}
		elems[i] = e.writeIn(elems[i], path[1:], c, nv)
	}
}

// locked tells whether a lock is held exclusively
func (st *State) locked() bool {
	for _, n := range st.locks {
		if n < 0 {
			return true
		}
	}
	return false
}

func (e *Engine) noteWrite(st *State, id int) {
	if st.watermark > 0 && id <= st.watermark && !st.locked() {
		e.frozenWrite(st, id)
	}
	if st.frozen != nil {
		if _, ok := st.frozen[id]; ok {
			e.frozenWrite(st, id)
		}
	}
}

func (e *Engine) storePtr(st *State, p Ptr, g *Term, nv Value) {
	e.noteWrite(st, p.id)
	st.obj(e, p.id)
	o := st.mut(p.id)
	if len(p.path) == 0 {
		if o.isArr {
			if g.IsTrue() {
				o.elems = append([]Value(nil), nv.(ArrayV)...)
			} else {
				o.elems = e.merge(g, nv, ArrayV(o.elems)).(ArrayV)
			}
			return
		}
		o.val = e.merge(g, nv, o.val)
		return
	}
	if o.isArr {
		e.writeElems(o.elems, p.path, g, nv)
		return
	}
	o.val = e.writeIn(o.val, p.path, g, nv)
}

func (e *Engine) store(st *State, pv Value, nv Value) {
	as := e.alts(st, pv)
	bad := e.b.False
	for _, a := range as {
		if a.v.(Ptr).id == 0 {
			bad = e.b.Or(bad, a.g)
		}
	}
	e.guardPanic(st, bad, "invalid memory address or nil pointer dereference")
	for _, a := range as {
		if p := a.v.(Ptr); p.id != 0 {
			e.storePtr(st, p, a.g, nv)
		}
	}
}

func extend(path []pathEl, el pathEl) []pathEl {
	r := make([]pathEl, len(path)+1)
	copy(r, path)
	r[len(path)] = el
	return r
}

// elements of a slice
func (e *Engine) sliceElems(st *State, s SliceV) []Value {
	if s.len == 0 || s.id == 0 {
		return nil
	}
	o := st.obj(e, s.id)
	if len(s.path) == 0 && o.isArr {
		return o.elems[s.off : s.off+s.len]
	}
	a := e.loadPtr(st, Ptr{s.id, s.path}).(ArrayV)
	return a[s.off : s.off+s.len]
}

func (e *Engine) newSlice(st *State, elems []Value) SliceV {
	id := e.allocArr(st, elems)
	return SliceV{id: id, len: len(elems), cap: len(elems)}
}

func (e *Engine) bytesOf(st *State, s SliceV) []*Term {
	els := e.sliceElems(st, s)
	ts := make([]*Term, len(els))
	for i, v := range els {
		ts[i] = v.(*Term)
	}
	return ts
}

// ---- equality

func (e *Engine) eqVal(st *State, a, b Value) *Term {
	if ua, ok := a.(UnionV); ok {
		r := e.b.False
		for _, x := range ua.alts {
			r = e.b.Or(r, e.b.And(x.g, e.eqVal(st, x.v, b)))
		}
		return r
	}
	if _, ok := b.(UnionV); ok {
		return e.eqVal(st, b, a)
	}
	switch x := a.(type) {
	case *Term:
		return e.b.Eq(x, b.(*Term))
	case Str:
		y := b.(Str)
		x, y = e.forced(st, x), e.forced(st, y)
		if x.Len() != y.Len() {
			return e.b.False
		}
		if x.t == nil && y.t == nil {
			return e.b.Bool(x.s == y.s)
		}
		r := e.b.True
		for i := 0; i < x.Len(); i++ {
			r = e.b.And(r, e.b.Eq(e.byteAt(x, i), e.byteAt(y, i)))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Ptr:
		y := b.(Ptr)
		if x.id != y.id || len(x.path) != len(y.path) {
			return e.b.False
		}
		r := e.b.True
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			switch {
			case p.t == nil && q.t == nil:
				if p.i != q.i {
					return e.b.False
				}
			case p.t != nil && q.t != nil:
				r = e.b.And(r, e.b.Eq(p.t, q.t))
			case p.t != nil:
				r = e.b.And(r, e.idxEq(p.t, q.i))
			default:
				r = e.b.And(r, e.idxEq(q.t, p.i))
			}
		}
		return r
	case SliceV:
		return e.b.Bool(x.id == 0 && b.(SliceV).id == 0)
	case MapRef:
		return e.b.Bool(x == b.(MapRef))
	case FuncV:
		y := b.(FuncV)
		return e.b.Bool(x.fn == nil && x.bi == nil && y.fn == nil && y.bi == nil)
	case Iface:
		y := b.(Iface)
		if x.typ == nil || y.typ == nil {
			return e.b.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return e.b.False
		}
		if !types.Comparable(x.typ) {
			e.unsupported("comparing uncomparable dynamic type " + x.typ.String())
		}
		return e.eqVal(st, x.v, y.v)
	case StructV:
		r := e.b.True
		for i := range x {
			r = e.b.And(r, e.eqVal(st, x[i], b.(StructV)[i]))
		}
		return r
	case ArrayV:
		r := e.b.True
		for i := range x {
			r = e.b.And(r, e.eqVal(st, x[i], b.(ArrayV)[i]))
		}
		return r
	}
	panic(fmt.Sprintf("eqVal %T", a))
}

func (e *Engine) strLess(x, y Str, orEq bool) *Term {
	// lexicographic
	n := x.Len()
	if y.Len() < n {
		n = y.Len()
	}
	var r *Term
	if x.Len() == y.Len() {
		r = e.b.Bool(orEq)
	} else {
		r = e.b.Bool(x.Len() < y.Len())
	}
	for i := n - 1; i >= 0; i-- {
		a, b := e.byteAt(x, i), e.byteAt(y, i)
		r = e.b.Or(e.b.Ult(a, b), e.b.And(e.b.Eq(a, b), r))
	}
	return r
}

// ---- maps

func keyStr(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			return fmt.Sprintf("i%d:%d", x.W, x.V), true
		}
	case Str:
		if x.t == nil && x.lazy == 0 {
			return "s" + x.s, true
		}
	case Iface:
		if x.typ == nil {
			return "nil", true
		}
		k, ok := keyStr(x.v)
		return "I" + x.typ.String() + "|" + k, ok
	case StructV:
		s := "{"
		for _, f := range x {
			k, ok := keyStr(f)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s", len(k), k)
		}
		return s + "}", true
	case ArrayV:
		return keyStr(StructV(x))
	case Ptr:
		if len(x.path) == 0 {
			return fmt.Sprintf("p%d", x.id), true
		}
		s := fmt.Sprintf("p%d", x.id)
		for _, p := range x.path {
			if p.t != nil {
				return "", false
			}
			s += fmt.Sprintf(".%d", p.i)
		}
		return s, true
	}
	return "", false
}

// mapMatch gives for each entry the condition under which key hits it
func (e *Engine) mapMatch(st *State, m *MapData, key Value) []Alt {
	if ks, ok := keyStr(key); ok {
		if i, ok := m.ix[ks]; ok {
			return []Alt{{m.ents[i].g, i}}
		}
		if len(m.ix) == len(m.ents) {
			return nil
		}
	}
	var r []Alt
	for i, en := range m.ents {
		c := e.b.And(en.g, e.eqVal(st, en.k, key))
		if c.IsFalse() || e.quick(st, c) == 0 {
			continue
		}
		r = append(r, Alt{c, i})
		if c.IsTrue() {
			return r[len(r)-1:]
		}
	}
	return r
}

// mapGet reads m[key]: value merged with the zero value, and presence
func (e *Engine) mapGet(st *State, mv Value, key Value, zero Value) (Value, *Term) {
	ok := e.b.False
	v := e.liftSt(st, mv, func(g *Term, m Value) Value {
		id := m.(MapRef).id
		if id == 0 {
			return zero
		}
		md := st.obj(e, id).mp
		ms := e.mapMatch(st, md, key)
		hit := e.b.False
		var as []Alt
		for _, a := range ms {
			hit = e.b.Or(hit, a.g)
			as = append(as, Alt{a.g, md.ents[a.v.(int)].v})
		}
		ok = e.b.Or(ok, e.b.And(g, hit))
		if !hit.IsTrue() && e.quick(st, hit) != 1 {
			as = append(as, Alt{e.b.Not(hit), zero})
		}
		return e.mergeMany(as)
	})
	return v, ok
}

func (e *Engine) mapSet(st *State, mv Value, key, val Value) {
	as := e.alts(st, mv)
	bad := e.b.False
	for _, a := range as {
		if a.v.(MapRef).id == 0 {
			bad = e.b.Or(bad, a.g)
		}
	}
	e.guardPanic(st, bad, "assignment to entry in nil map")
	// a key with few possible values is written case by case
	type kc struct {
		g *Term
		k Value
	}
	keys := []kc{{e.b.True, key}}
	switch k := key.(type) {
	case UnionV:
		keys = nil
		for _, a := range e.alts(st, k) {
			keys = append(keys, kc{a.g, a.v})
		}
	case *Term:
		if !k.IsConst() {
			if ls := e.leaves(k, 64); ls != nil {
				keys = nil
				for _, l := range ls {
					if e.quick(st, l.g) != 0 {
						keys = append(keys, kc{l.g, e.b.Const(k.W, l.v)})
					}
				}
			}
		}
	}
	// symbolic keys must be decided against existing ones before any change
	type plan struct {
		id   int
		g    *Term
		k    Value
		hit  int
		ks   string
		conc bool
	}
	var plans []plan
	for _, a := range as {
		id := a.v.(MapRef).id
		if id == 0 {
			continue
		}
		md := st.obj(e, id).mp
		for _, k := range keys {
			g := e.b.And(a.g, k.g)
			if g.IsFalse() || e.quick(st, g) == 0 {
				continue
			}
			p := plan{id: id, g: g, k: k.k, hit: -1}
			p.ks, p.conc = keyStr(k.k)
			if p.conc {
				if i, ok := md.ix[p.ks]; ok {
					p.hit = i
				}
			}
			if p.hit < 0 && (!p.conc || len(md.ix) != len(md.ents)) {
				for i, en := range md.ents {
					if p.conc {
						if _, c := keyStr(en.k); c {
							continue
						}
					}
					c := e.eqVal(st, en.k, k.k)
					if c.IsFalse() {
						continue
					}
					if c.IsTrue() || e.branch(st, c) {
						p.hit = i
						break
					}
				}
			}
			plans = append(plans, p)
		}
	}
	for _, p := range plans {
		e.noteWrite(st, p.id)
		md := st.mut(p.id).mp
		if p.hit < 0 && p.conc {
			// may have been added by an earlier plan
			if i, ok := md.ix[p.ks]; ok {
				p.hit = i
			}
		}
		if p.hit >= 0 {
			en := &md.ents[p.hit]
			if en.g.IsFalse() {
				en.v = val
				en.g = p.g
				continue
			}
			en.v = e.merge(p.g, val, en.v)
			en.g = e.b.Or(en.g, p.g)
			continue
		}
		if p.conc {
			md.ix[p.ks] = len(md.ents)
		}
		md.ents = append(md.ents, mapEntry{k: p.k, v: val, g: p.g})
	}
}

func (e *Engine) mapDelete(st *State, mv Value, key Value) {
	for _, a := range e.alts(st, mv) {
		id := a.v.(MapRef).id
		if id == 0 {
			continue
		}
		md := st.obj(e, id).mp
		ms := e.mapMatch(st, md, key)
		if len(ms) == 0 {
			continue
		}
		e.noteWrite(st, id)
		md = st.mut(id).mp
		for _, m := range ms {
			en := &md.ents[m.v.(int)]
			en.g = e.b.And(en.g, e.b.Not(e.b.And(a.g, m.g)))
		}
	}
}

func (e *Engine) mapLen(st *State, id int) *Term {
	n := e.b.Const(64, 0)
	if id == 0 {
		return n
	}
	for _, en := range st.obj(e, id).mp.ents {
		if en.g.IsTrue() || e.quick(st, en.g) == 1 {
			n = e.b.Bin(OpAdd, n, e.b.Const(64, 1))
		} else {
			n = e.b.Bin(OpAdd, n, e.b.Ite(en.g, e.b.Const(64, 1), e.b.Const(64, 0)))
		}
	}
	return n
}

func (e *Engine) newMap(st *State) MapRef {
	id := e.newID()
	st.heap.set(st.own, id, &Obj{own: st.own, mp: &MapData{ix: map[string]int{}}})
	return MapRef{id}
}

// ---- lengths

func (e *Engine) lenOf(st *State, v Value, capa bool) *Term {
	r := e.liftSt(st, v, func(_ *Term, x Value) Value {
		switch y := x.(type) {
		case Str:
			y = e.forced(st, y)
			return e.b.Const(64, uint64(y.Len()))
		case SliceV:
			if capa {
				return e.b.Const(64, uint64(y.cap))
			}
			return e.b.Const(64, uint64(y.len))
		case MapRef:
			return e.mapLen(st, y.id)
		case ArrayV:
			return e.b.Const(64, uint64(len(y)))
		case Ptr:
			t := st.obj(e, y.id)
			if len(y.path) == 0 && t.isArr {
				return e.b.Const(64, uint64(len(t.elems)))
			}
			return e.b.Const(64, uint64(len(e.loadPtr(st, y).(ArrayV))))
		}
		panic(fmt.Sprintf("len %T", x))
	})
	return r.(*Term)
}

// ---- append

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, need, elem int) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if elem == 0 {
		return need
	}
	mem := nc * elem
	if mem <= 32768 {
		i := sort.SearchInts(sizeClasses, mem)
		mem = sizeClasses[i]
	} else {
		mem = (mem + 8191) / 8192 * 8192
	}
	return mem / elem
}

func (e *Engine) appendTo(st *State, sv Value, add Value, elemT types.Type) Value {
	size := int(e.sizes.Sizeof(elemT))
	type src struct {
		g    *Term
		vals []Value
	}
	var adds []src
	for _, a := range e.alts(st, add) {
		switch x := a.v.(type) {
		case SliceV:
			adds = append(adds, src{a.g, append([]Value(nil), e.sliceElems(st, x)...)})
		case Str:
			x = e.forced(st, x)
			vs := make([]Value, x.Len())
			for i := range vs {
				vs[i] = e.byteAt(x, i)
			}
			adds = append(adds, src{a.g, vs})
		default:
			panic(fmt.Sprintf("append %T", a.v))
		}
	}
	var res []Alt
	dst := e.alts(st, sv)
	// group additions of equal length
	byLen := map[int][]src{}
	var lens []int
	for _, a := range adds {
		n := len(a.vals)
		if byLen[n] == nil {
			lens = append(lens, n)
		}
		byLen[n] = append(byLen[n], a)
	}
	var groups []src
	for _, n := range lens {
		as := byLen[n]
		if len(as) == 1 {
			groups = append(groups, as[0])
			continue
		}
		g, m := e.b.False, make([]Value, n)
		for _, a := range as {
			g = e.b.Or(g, a.g)
		}
		for k := range m {
			vs := make([]Alt, len(as))
			for i, a := range as {
				vs[i] = Alt{a.g, a.vals[k]}
			}
			m[k] = e.mergeMany(vs)
		}
		groups = append(groups, src{g, m})
	}
	// lengths decide how what follows goes on: fork on them at once
	if e.mergeLevel == 0 && size > 1 && len(groups) > 1 {
		for i, a := range groups {
			if e.quick(st, a.g) == 0 {
				continue
			}
			if i == len(groups)-1 || e.branch(st, a.g) {
				groups = []src{{e.b.True, a.vals}}
				break
			}
		}
	}
	if len(groups) == 1 {
		groups[0].g = e.b.True // one of the alternatives is the value
	}
	if len(dst) == 1 {
		dst[0].g = e.b.True
	}
	var zero Value
	for _, d := range dst {
		s := d.v.(SliceV)
		for _, a := range groups {
			g := e.b.And(d.g, a.g)
			if g.IsFalse() || e.quick(st, g) == 0 {
				continue
			}
			n := len(a.vals)
			if n == 0 {
				res = append(res, Alt{g, s})
				continue
			}
			if s.len+n <= s.cap {
				for i, v := range a.vals {
					e.storePtr(st, Ptr{s.id, extend(s.path, pathEl{i: s.off + s.len + i})}, g, v)
				}
				r := s
				r.len += n
				res = append(res, Alt{g, r})
				continue
			}
			nc := growCap(s.cap, s.len+n, size)
			els := make([]Value, nc)
			copy(els, e.sliceElems(st, s))
			copy(els[s.len:], a.vals)
			if s.len+n < nc {
				if zero == nil {
					zero = e.zero(elemT)
				}
				for i := s.len + n; i < nc; i++ {
					els[i] = zero
				}
			}
			id := e.allocArr(st, els)
			res = append(res, Alt{g, SliceV{id: id, len: s.len + n, cap: nc}})
		}
	}
	if len(res) == 0 {
		panic(killPath{"infeasible"})
	}
	return e.mergeMany(res)
}

func (e *Engine) copyTo(st *State, dv, sv Value) *Term {
	type wr struct {
		g    *Term
		d    SliceV
		vals []Value
	}
	var ws []wr
	var ns []intAlt
	srcs := e.alts(st, sv)
	for _, da := range e.alts(st, dv) {
		d := da.v.(SliceV)
		for _, sa := range srcs {
			g := e.b.And(da.g, sa.g)
			if g.IsFalse() || (!g.IsTrue() && e.quick(st, g) == 0) {
				continue
			}
			var vals []Value
			switch x := sa.v.(type) {
			case SliceV:
				n := min(d.len, x.len)
				vals = append(vals, e.sliceElems(st, x)[:n]...)
			case Str:
				x = e.forced(st, x)
				n := min(d.len, x.Len())
				for i := 0; i < n; i++ {
					vals = append(vals, e.byteAt(x, i))
				}
			}
			ns = append(ns, intAlt{g, uint64(len(vals))})
			if len(vals) > 0 {
				ws = append(ws, wr{g, d, vals})
			}
		}
	}
	if len(ns) == 0 {
		panic(killPath{"infeasible"})
	}
	for _, w := range ws {
		for i, v := range w.vals {
			e.storePtr(st, Ptr{w.d.id, extend(w.d.path, pathEl{i: w.d.off + i})}, w.g, v)
		}
	}
	r := e.b.Const(64, ns[len(ns)-1].v)
	for i := len(ns) - 2; i >= 0; i-- {
		r = e.b.Ite(ns[i].g, e.b.Const(64, ns[i].v), r)
	}
	return r
}

func isUnsignedOrFloat(t types.Type) (signed bool) {
	_, s, _ := scalarW(t)
	return s
}

func (e *Engine) compile(fi *FuncInfo, in ssa.Instruction) func(e *Engine, st *State) ctl {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = fi.reg[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		return func(e *Engine, st *State) ctl {
			st.set(dst, Ptr{id: e.alloc(st, t, e.zero(t))})
			return cNext
		}
	case *ssa.BinOp:
		a, b := e.opnd(fi, x.X), e.opnd(fi, x.Y)
		xt, yt, op := x.X.Type(), x.Y.Type(), x.Op
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			v := e.binop(st, op, a.get(fr), b.get(fr), xt, yt)
			st.set(dst, v)
			return cNext
		}
	case *ssa.UnOp:
		a := e.opnd(fi, x.X)
		switch x.Op {
		case token.MUL:
			return func(e *Engine, st *State) ctl {
				v := e.load(st, a.get(st.top()))
				st.set(dst, v)
				return cNext
			}
		case token.NOT:
			return func(e *Engine, st *State) ctl {
				st.set(dst, e.b.Not(a.get(st.top()).(*Term)))
				return cNext
			}
		case token.SUB:
			t := x.X.Type()
			return func(e *Engine, st *State) ctl {
				if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
					e.unsupported("floating point")
				}
				st.set(dst, e.b.Neg(a.get(st.top()).(*Term)))
				return cNext
			}
		case token.XOR:
			return func(e *Engine, st *State) ctl {
				st.set(dst, e.b.BNot(a.get(st.top()).(*Term)))
				return cNext
			}
		}
		return unsupportedInstr(in)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var o opnd
		if c, ok := x.(*ssa.ChangeType); ok {
			o = e.opnd(fi, c.X)
		} else {
			o = e.opnd(fi, x.(*ssa.ChangeInterface).X)
		}
		return func(e *Engine, st *State) ctl {
			st.set(dst, o.get(st.top()))
			return cNext
		}
	case *ssa.Convert:
		a := e.opnd(fi, x.X)
		from, to := x.X.Type(), x.Type()
		return func(e *Engine, st *State) ctl {
			v := e.convert(st, a.get(st.top()), from, to)
			st.set(dst, v)
			return cNext
		}
	case *ssa.MultiConvert:
		a := e.opnd(fi, x.X)
		from, to := x.X.Type(), x.Type()
		return func(e *Engine, st *State) ctl {
			v := e.convert(st, a.get(st.top()), from, to)
			st.set(dst, v)
			return cNext
		}
	case *ssa.MakeInterface:
		a := e.opnd(fi, x.X)
		t := x.X.Type()
		return func(e *Engine, st *State) ctl {
			st.set(dst, Iface{t, a.get(st.top())})
			return cNext
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, e.opnd(fi, b))
		}
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = b.get(fr)
			}
			st.set(dst, FuncV{fn: fn, env: env})
			return cNext
		}
	case *ssa.MakeMap:
		return func(e *Engine, st *State) ctl {
			st.set(dst, e.newMap(st))
			return cNext
		}
	case *ssa.MakeSlice:
		l, c := e.opnd(fi, x.Len), e.opnd(fi, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			lt, ct := e.b.Resize(l.get(fr).(*Term), 64, true), e.b.Resize(c.get(fr).(*Term), 64, true)
			bad := e.b.Or(e.b.Slt(lt, e.b.Const(64, 0)), e.b.Slt(ct, lt))
			e.guardPanic(st, bad, "makeslice: len out of range")
			var res []Alt
			las := e.intAlts(st, lt)
			for _, la := range las {
				cas := []intAlt{{e.b.True, la.v}}
				if ct != lt {
					cas = e.intAlts(st, ct)
				}
				for _, ca := range cas {
					g := e.b.And(la.g, ca.g)
					if g.IsFalse() || int64(la.v) < 0 || int64(ca.v) < int64(la.v) {
						continue
					}
					if ca.v > 1<<22 {
						e.unsupported("slice too large")
					}
					els := make([]Value, ca.v)
					z := e.zero(et)
					for i := range els {
						els[i] = z
					}
					res = append(res, Alt{g, SliceV{id: e.allocArr(st, els), len: int(la.v), cap: int(ca.v)}})
				}
			}
			if len(res) == 0 {
				panic(killPath{"infeasible"})
			}
			st.set(dst, e.mergeMany(res))
			return cNext
		}
	case *ssa.Slice:
		return e.compileSlice(fi, x, dst)
	case *ssa.FieldAddr:
		a := e.opnd(fi, x.X)
		f := x.Field
		return func(e *Engine, st *State) ctl {
			pv := a.get(st.top())
			if p, ok := pv.(Ptr); ok && p.id != 0 {
				st.set(dst, Ptr{p.id, extend(p.path, pathEl{i: f})})
				return cNext
			}
			as := e.alts(st, pv)
			bad := e.b.False
			for _, a := range as {
				if a.v.(Ptr).id == 0 {
					bad = e.b.Or(bad, a.g)
				}
			}
			e.guardPanic(st, bad, "invalid memory address or nil pointer dereference")
			var res []Alt
			for _, a := range as {
				if p := a.v.(Ptr); p.id != 0 {
					res = append(res, Alt{a.g, Ptr{p.id, extend(p.path, pathEl{i: f})}})
				}
			}
			st.set(dst, e.mergeMany(res))
			return cNext
		}
	case *ssa.Field:
		a := e.opnd(fi, x.X)
		f := x.Field
		return func(e *Engine, st *State) ctl {
			v := a.get(st.top())
			st.set(dst, e.liftSt(st, v, func(_ *Term, v Value) Value { return v.(StructV)[f] }))
			return cNext
		}
	case *ssa.IndexAddr:
		a, ix := e.opnd(fi, x.X), e.opnd(fi, x.Index)
		_, sg, _ := scalarW(x.Index.Type())
		var arrLen int64 = -1
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			arrLen = pt.Elem().Underlying().(*types.Array).Len()
		}
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			av := a.get(fr)
			it := e.b.Resize(ix.get(fr).(*Term), 64, sg)
			as := e.alts(st, av)
			bad := e.b.False
			nilb := e.b.False
			for _, al := range as {
				if arrLen >= 0 {
					if al.v.(Ptr).id == 0 {
						nilb = e.b.Or(nilb, al.g)
					}
					continue
				}
				in := e.b.Ult(it, e.b.Const(64, uint64(al.v.(SliceV).len)))
				bad = e.b.Or(bad, e.b.And(al.g, e.b.Not(in)))
			}
			if arrLen >= 0 {
				bad = e.b.Not(e.b.Ult(it, e.b.Const(64, uint64(arrLen))))
			}
			e.guardPanic(st, nilb, "invalid memory address or nil pointer dereference")
			e.guardPanic(st, bad, "index out of range")
			var res []Alt
			for _, al := range as {
				g := al.g
				var el pathEl
				if arrLen >= 0 {
					p := al.v.(Ptr)
					if p.id == 0 {
						continue
					}
					el = e.pathIx(it, 0)
					res = append(res, Alt{g, Ptr{p.id, extend(p.path, el)}})
					continue
				}
				s := al.v.(SliceV)
				if it.IsConst() && it.V >= uint64(s.len) {
					continue
				}
				if s.len == 0 {
					continue
				}
				if s.len == 1 && !it.IsConst() {
					el = pathEl{i: s.off}
				} else {
					el = e.pathIx(it, s.off)
				}
				res = append(res, Alt{g, Ptr{s.id, extend(s.path, el)}})
			}
			if len(res) == 0 {
				panic(killPath{"infeasible"})
			}
			st.set(dst, e.mergeMany(res))
			return cNext
		}
	case *ssa.Index:
		a, ix := e.opnd(fi, x.X), e.opnd(fi, x.Index)
		_, sg, _ := scalarW(x.Index.Type())
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			v := e.indexVal(st, a.get(fr), e.b.Resize(ix.get(fr).(*Term), 64, sg))
			st.set(dst, v)
			return cNext
		}
	case *ssa.Lookup:
		a, ix := e.opnd(fi, x.X), e.opnd(fi, x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			comma := x.CommaOk
			return func(e *Engine, st *State) ctl {
				fr := st.top()
				k := e.forceVal(st, ix.get(fr))
				v, ok := e.mapGet(st, a.get(fr), k, e.zero(mt.Elem()))
				if comma {
					st.set(dst, TupleV{v, ok})
				} else {
					st.set(dst, v)
				}
				return cNext
			}
		}
		_, sg, _ := scalarW(x.Index.Type())
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			v := e.indexVal(st, a.get(fr), e.b.Resize(ix.get(fr).(*Term), 64, sg))
			st.set(dst, v)
			return cNext
		}
	case *ssa.Range:
		a := e.opnd(fi, x.X)
		return func(e *Engine, st *State) ctl {
			v := e.pickAny(st, a.get(st.top()))
			var it rangeIter
			switch y := v.(type) {
			case Str:
				y = e.forced(st, y)
				it.str, it.isStr = y, true
			case MapRef:
				it.m = y.id
				if y.id != 0 {
					for _, en := range st.obj(e, y.id).mp.ents {
						it.keys = append(it.keys, en.k)
					}
				}
			}
			id := e.newID()
			st.heap.set(st.own, id, &Obj{own: st.own, val: it})
			st.set(dst, Ptr{id: id})
			return cNext
		}
	case *ssa.Next:
		a := e.opnd(fi, x.Iter)
		tup := x.Type().(*types.Tuple)
		isStr := x.IsString
		return func(e *Engine, st *State) ctl {
			p := e.pickAny(st, a.get(st.top())).(Ptr)
			itv := e.pickAny(st, st.obj(e, p.id).val)
			it := itv.(rangeIter)
			if isStr {
				if it.pos >= it.str.Len() {
					st.set(dst, TupleV{e.b.False, e.b.Const(64, 0), e.b.Const(32, 0)})
					return cNext
				}
				r, n := e.decodeRune(st, it.str, it.pos)
				pos := it.pos
				it.pos += n
				st.mut(p.id).val = it
				st.set(dst, TupleV{e.b.True, e.b.Const(64, uint64(pos)), r})
				return cNext
			}
			kt, vt := tup.At(1).Type(), tup.At(2).Type()
			zk, zv := e.zeroOrNil(kt), e.zeroOrNil(vt)
			for {
				if len(it.keys) == 0 {
					st.set(dst, TupleV{e.b.False, zk, zv})
					return cNext
				}
				j := 0
				if e.opts.MapPerm && len(it.keys) > 1 {
					j = e.orderChoice(st, len(it.keys), p.id, it.pos)
				}
				k := it.keys[j]
				rest := make([]Value, 0, len(it.keys)-1)
				rest = append(rest, it.keys[:j]...)
				rest = append(rest, it.keys[j+1:]...)
				v, ok := e.mapGet(st, MapRef{it.m}, k, zv)
				if !e.branch(st, ok) {
					it.keys = rest
					it.pos++
					continue
				}
				// resolved present: read again for an exact value
				v, _ = e.mapGet(st, MapRef{it.m}, k, zv)
				it.keys = rest
				it.pos++
				st.mut(p.id).val = it
				st.set(dst, TupleV{e.b.True, k, v})
				return cNext
			}
		}
	case *ssa.TypeAssert:
		a := e.opnd(fi, x.X)
		t, comma := x.AssertedType, x.CommaOk
		_, toIface := t.Underlying().(*types.Interface)
		return func(e *Engine, st *State) ctl {
			as := e.alts(st, a.get(st.top()))
			ok := e.b.False
			var res []Alt
			for _, al := range as {
				i := al.v.(Iface)
				if i.typ == nil {
					continue
				}
				if toIface {
					if types.Implements(i.typ, t.Underlying().(*types.Interface)) {
						ok = e.b.Or(ok, al.g)
						res = append(res, Alt{al.g, i})
					}
				} else if types.Identical(i.typ, t) {
					ok = e.b.Or(ok, al.g)
					res = append(res, Alt{al.g, i.v})
				}
			}
			if len(res) == len(as) {
				ok = e.b.True
			}
			if comma {
				if !ok.IsTrue() {
					res = append(res, Alt{e.b.Not(ok), e.zero(t)})
				}
				st.set(dst, TupleV{e.mergeMany(res), ok})
				return cNext
			}
			e.guardPanic(st, e.b.Not(ok), "interface conversion: wrong dynamic type")
			if len(res) == 0 {
				panic(killPath{"infeasible"})
			}
			st.set(dst, e.mergeMany(res))
			return cNext
		}
	case *ssa.Extract:
		a := e.opnd(fi, x.Tuple)
		i := x.Index
		return func(e *Engine, st *State) ctl {
			st.set(dst, a.get(st.top()).(TupleV)[i])
			return cNext
		}
	case *ssa.Jump:
		j := e.jumper(fi, x.Block(), x.Block().Succs[0], edgeIndex(x.Block(), x.Block().Succs[0], 0))
		return func(e *Engine, st *State) ctl {
			j(e, st)
			return cStay
		}
	case *ssa.If:
		c := e.opnd(fi, x.Cond)
		b := x.Block()
		nth := 0
		if b.Succs[0] == b.Succs[1] {
			nth = 1
		}
		jt := e.jumper(fi, b, b.Succs[0], edgeIndex(b, b.Succs[0], 0))
		jf := e.jumper(fi, b, b.Succs[1], edgeIndex(b, b.Succs[1], nth))
		return func(e *Engine, st *State) ctl {
			if e.branch(st, c.get(st.top()).(*Term)) {
				jt(e, st)
			} else {
				jf(e, st)
			}
			return cStay
		}
	case *ssa.Return:
		var rs []opnd
		for _, r := range x.Results {
			rs = append(rs, e.opnd(fi, r))
		}
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			var v Value
			switch len(rs) {
			case 0:
			case 1:
				v = rs[0].get(fr)
			default:
				t := make(TupleV, len(rs))
				for i, r := range rs {
					t[i] = r.get(fr)
				}
				v = t
			}
			e.ret(st, v)
			return cStay
		}
	case *ssa.RunDefers:
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			if len(fr.defers) == 0 {
				return cNext
			}
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
			// runs the deferred call, then comes back to this instruction
			e.callValue(st, d.fn, d.args, -1, false, nil)
			return cStay
		}
	case *ssa.Defer:
		cc := e.compileCallee(fi, &x.Call)
		return func(e *Engine, st *State) ctl {
			fv, args := cc(e, st)
			fr := st.top()
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{fv, args})
			return cNext
		}
	case *ssa.Panic:
		a := e.opnd(fi, x.X)
		return func(e *Engine, st *State) ctl {
			v := a.get(st.top())
			if e.mergeLevel > 0 {
				vd, m := e.check(st, nil, true)
				if vd == Unsat {
					panic(killPath{"infeasible"})
				}
				st.model = m
			}
			e.goPanic(st, v, "panic: "+e.panicText(st, v))
			return cStay
		}
	case *ssa.Store:
		a, v := e.opnd(fi, x.Addr), e.opnd(fi, x.Val)
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			e.store(st, a.get(fr), v.get(fr))
			return cNext
		}
	case *ssa.MapUpdate:
		m, k, v := e.opnd(fi, x.Map), e.opnd(fi, x.Key), e.opnd(fi, x.Value)
		return func(e *Engine, st *State) ctl {
			fr := st.top()
			key := e.forceVal(st, k.get(fr))
			e.mapSet(st, m.get(fr), key, v.get(fr))
			return cNext
		}
	case *ssa.Call:
		cc := e.compileCallee(fi, &x.Call)
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return e.compileBuiltin(fi, x, b, dst)
		}
		return func(e *Engine, st *State) ctl {
			fv, args := cc(e, st)
			return e.callValue(st, fv, args, dst, true, nil)
		}
	case *ssa.SliceToArrayPointer:
		// only where the array is read at once: a copy is made
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL || u.Block() != x.Block() {
				return unsupportedInstr(in)
			}
		}
		a := e.opnd(fi, x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(e *Engine, st *State) ctl {
			s := e.pickAny(st, a.get(st.top())).(SliceV)
			e.guardPanic(st, e.b.Bool(s.len < n), "cannot convert slice to array: too short")
			s.len = n
			st.set(dst, Ptr{id: e.allocArr(st, append([]Value(nil), e.sliceElems(st, s)...))})
			return cNext
		}
	}
	return unsupportedInstr(in)
}

func unsupportedInstr(in ssa.Instruction) func(e *Engine, st *State) ctl {
	s := fmt.Sprintf("instruction %T %s", in, in)
	return func(e *Engine, st *State) ctl {
		e.unsupported(s)
		return cNext
	}
}

type rangeIter struct {
	str   Str
	isStr bool
	m     int
	keys  []Value
	pos   int
}

func (e *Engine) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return e.zero(t)
}

func (e *Engine) pathIx(it *Term, off int) pathEl {
	if it.IsConst() {
		return pathEl{i: int(it.V) + off}
	}
	if off != 0 {
		it = e.b.Bin(OpAdd, it, e.b.Const(64, uint64(off)))
	}
	return pathEl{t: it}
}

func (e *Engine) indexVal(st *State, av Value, it *Term) Value {
	as := e.alts(st, av)
	bad := e.b.False
	for i, al := range as {
		n := 0
		switch y := al.v.(type) {
		case Str:
			y = e.forced(st, y)
			as[i].v = y
			n = y.Len()
		case ArrayV:
			n = len(y)
		default:
			panic(fmt.Sprintf("index %T", al.v))
		}
		in := e.b.Ult(it, e.b.Const(64, uint64(n)))
		bad = e.b.Or(bad, e.b.And(al.g, e.b.Not(in)))
	}
	e.guardPanic(st, bad, "index out of range")
	var res []Alt
	for _, al := range as {
		var els []Value
		switch y := al.v.(type) {
		case Str:
			if it.IsConst() {
				if it.V < uint64(y.Len()) {
					res = append(res, Alt{al.g, e.byteAt(y, int(it.V))})
				}
				continue
			}
			for i := 0; i < y.Len(); i++ {
				els = append(els, e.byteAt(y, i))
			}
		case ArrayV:
			els = y
		}
		if it.IsConst() && it.V >= uint64(len(els)) || len(els) == 0 {
			continue
		}
		res = append(res, Alt{al.g, e.readElems(st, els, []pathEl{e.pathIx(it, 0)})})
	}
	if len(res) == 0 {
		panic(killPath{"infeasible"})
	}
	return e.mergeMany(res)
}

func (e *Engine) compileSlice(fi *FuncInfo, x *ssa.Slice, dst int) func(e *Engine, st *State) ctl {
	a := e.opnd(fi, x.X)
	var lo, hi, mx *opnd
	op := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := e.opnd(fi, v)
		return &o
	}
	lo, hi, mx = op(x.Low), op(x.High), op(x.Max)
	sgn := func(v ssa.Value) bool {
		if v == nil {
			return true
		}
		_, s, _ := scalarW(v.Type())
		return s
	}
	slo, shi, smx := sgn(x.Low), sgn(x.High), sgn(x.Max)
	return func(e *Engine, st *State) ctl {
		fr := st.top()
		av := a.get(fr)
		get := func(o *opnd, s bool) *Term {
			if o == nil {
				return nil
			}
			return e.b.Resize(o.get(fr).(*Term), 64, s)
		}
		lt, ht, mt := get(lo, slo), get(hi, shi), get(mx, smx)
		as := e.alts(st, av)
		z := e.b.Const(64, 0)
		type info struct {
			n, c int // length and capacity
		}
		infos := make([]info, len(as))
		bad, nilb := e.b.False, e.b.False
		for i, al := range as {
			switch y := al.v.(type) {
			case Str:
				y = e.forced(st, y)
				as[i].v = y
				infos[i] = info{y.Len(), y.Len()}
			case SliceV:
				infos[i] = info{y.len, y.cap}
			case Ptr:
				if y.id == 0 {
					nilb = e.b.Or(nilb, al.g)
					continue
				}
				n := int(e.lenOf(st, y, false).V)
				infos[i] = info{n, n}
			}
			l, h, m := lt, ht, mt
			if l == nil {
				l = z
			}
			if h == nil {
				h = e.b.Const(64, uint64(infos[i].n))
			}
			if m == nil {
				m = e.b.Const(64, uint64(infos[i].c))
			}
			okc := e.b.And(e.b.Ule(l, h), e.b.And(e.b.Ule(h, m), e.b.Ule(m, e.b.Const(64, uint64(infos[i].c)))))
			bad = e.b.Or(bad, e.b.And(al.g, e.b.Not(okc)))
		}
		e.guardPanic(st, nilb, "invalid memory address or nil pointer dereference")
		e.guardPanic(st, bad, "slice bounds out of range")
		alt := func(t *Term, d int) []intAlt {
			if t == nil {
				return []intAlt{{e.b.True, uint64(d)}}
			}
			return e.intAlts(st, t)
		}
		var res []Alt
		for i, al := range as {
			if p, ok := al.v.(Ptr); ok && p.id == 0 {
				continue
			}
			for _, l := range alt(lt, 0) {
				for _, h := range alt(ht, infos[i].n) {
					for _, m := range alt(mt, infos[i].c) {
						if l.v > h.v || h.v > m.v || m.v > uint64(infos[i].c) {
							continue
						}
						g := e.b.And(al.g, e.b.And(l.g, e.b.And(h.g, m.g)))
						if g.IsFalse() || e.quick(st, g) == 0 {
							continue
						}
						L, H, M := int(l.v), int(h.v), int(m.v)
						switch y := al.v.(type) {
						case Str:
							res = append(res, Alt{g, e.strSub(y, L, H)})
						case SliceV:
							r := y
							r.off += L
							r.len = H - L
							r.cap = M - L
							if y.id == 0 {
								r = SliceV{}
							}
							res = append(res, Alt{g, r})
						case Ptr:
							res = append(res, Alt{g, SliceV{id: y.id, path: y.path, off: L, len: H - L, cap: M - L}})
						}
					}
				}
			}
		}
		if len(res) == 0 {
			panic(killPath{"infeasible"})
		}
		st.set(dst, e.mergeMany(res))
		return cNext
	}
}

// ---- calls

func (e *Engine) compileCallee(fi *FuncInfo, c *ssa.CallCommon) func(e *Engine, st *State) (Value, []Value) {
	v := e.opnd(fi, c.Value)
	var as []opnd
	for _, a := range c.Args {
		as = append(as, e.opnd(fi, a))
	}
	if c.IsInvoke() {
		m := c.Method
		return func(e *Engine, st *State) (Value, []Value) {
			fr := st.top()
			iv := v.get(fr)
			// resolve the dynamic type
			iv = e.pick(st, iv, func(x Value) string {
				i := x.(Iface)
				if i.typ == nil {
					return "nil"
				}
				return i.typ.String()
			})
			i := iv.(Iface)
			if i.typ == nil {
				e.guardPanic(st, e.b.True, "invalid memory address or nil pointer dereference")
			}
			fn := e.method(i.typ, m)
			if fn == nil {
				e.unsupported("method " + m.Name() + " of " + i.typ.String())
			}
			fr = st.top()
			args := make([]Value, 0, len(as)+1)
			args = append(args, i.v)
			for _, a := range as {
				args = append(args, a.get(fr))
			}
			return FuncV{fn: fn}, args
		}
	}
	return func(e *Engine, st *State) (Value, []Value) {
		fr := st.top()
		args := make([]Value, len(as))
		for i, a := range as {
			args[i] = a.get(fr)
		}
		return v.get(fr), args
	}
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	key := t.String() + "|" + m.Id()
	if f, ok := e.mset[key]; ok {
		return f
	}
	var f *ssa.Function
	progMu.Lock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	progMu.Unlock()
	e.mset[key] = f
	return f
}

// callValue calls a function value.  adv advances the caller past the
// current instruction.
func (e *Engine) callValue(st *State, fv Value, args []Value, dst int, adv bool, onRet func(*Engine, *State, Value)) ctl {
	fv = e.pickAny(st, fv)
	f, ok := fv.(FuncV)
	if !ok {
		panic(fmt.Sprintf("call of %T", fv))
	}
	if f.fn == nil {
		if f.bi != nil { // deferred builtin
			e.unsupported("deferred builtin " + f.bi.Name())
		}
		e.guardPanic(st, e.b.True, "invalid memory address or nil pointer dereference")
	}
	fi := e.info(f.fn)
	if fi.intr != nil {
		fi.used = true
		v, pushed := fi.intr(e, st, f.fn, args, dst)
		if pushed {
			if onRet != nil {
				st.top().onRet = onRet
			}
			return cStay
		}
		st.set(dst, v)
		if onRet != nil {
			onRet(e, st, v)
			return cStay
		}
		if adv {
			return cNext
		}
		return cStay
	}
	fr := e.push(st, f.fn, args, f.env, dst, adv)
	fr.onRet = onRet
	return cStay
}

func (e *Engine) compileBuiltin(fi *FuncInfo, x *ssa.Call, b *ssa.Builtin, dst int) func(e *Engine, st *State) ctl {
	var as []opnd
	for _, a := range x.Call.Args {
		as = append(as, e.opnd(fi, a))
	}
	arg := func(st *State, i int) Value { return as[i].get(st.top()) }
	argT := func(i int) types.Type { return x.Call.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		c := b.Name() == "cap"
		return func(e *Engine, st *State) ctl {
			v := e.lenOf(st, arg(st, 0), c)
			st.set(dst, v)
			return cNext
		}
	case "append":
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(e *Engine, st *State) ctl {
			v := e.appendTo(st, arg(st, 0), arg(st, 1), et)
			st.set(dst, v)
			return cNext
		}
	case "copy":
		return func(e *Engine, st *State) ctl {
			v := e.copyTo(st, arg(st, 0), arg(st, 1))
			st.set(dst, v)
			return cNext
		}
	case "delete":
		return func(e *Engine, st *State) ctl {
			e.mapDelete(st, arg(st, 0), e.forceVal(st, arg(st, 1)))
			return cNext
		}
	case "print", "println":
		return func(e *Engine, st *State) ctl {
			st.prints++
			return cNext
		}
	case "recover":
		return func(e *Engine, st *State) ctl {
			if st.panicV != nil && !st.panicV.rec {
				// only directly from the deferred function
				n := len(st.frames)
				if n >= 2 && st.frames[n-2].unw {
					st.panicV.rec = true
					st.set(dst, st.panicV.val)
					return cNext
				}
			}
			st.set(dst, Iface{})
			return cNext
		}
	case "min", "max":
		t := x.Type()
		op := OpSlt
		if _, s, ok := scalarW(t); !ok {
			return unsupportedInstr(x)
		} else if !s {
			op = OpUlt
		}
		mx := b.Name() == "max"
		return func(e *Engine, st *State) ctl {
			r := arg(st, 0).(*Term)
			for i := 1; i < len(as); i++ {
				y := arg(st, i).(*Term)
				c := e.b.cmp(op, y, r)
				if mx {
					c = e.b.cmp(op, r, y)
				}
				r = e.b.Ite(c, y, r)
			}
			st.set(dst, r)
			return cNext
		}
	case "clear":
		return func(e *Engine, st *State) ctl {
			switch y := e.pickAny(st, arg(st, 0)).(type) {
			case MapRef:
				if y.id != 0 {
					e.noteWrite(st, y.id)
					st.mut(y.id).mp = &MapData{ix: map[string]int{}}
				}
			case SliceV:
				z := e.zero(argT(0).Underlying().(*types.Slice).Elem())
				for i := 0; i < y.len; i++ {
					e.storePtr(st, Ptr{y.id, extend(y.path, pathEl{i: y.off + i})}, e.b.True, z)
				}
			}
			return cNext
		}
	case "ssa:wrapnilchk":
		return func(e *Engine, st *State) ctl {
			v := arg(st, 0)
			bad := e.b.False
			for _, a := range e.alts(st, v) {
				if p, ok := a.v.(Ptr); ok && p.id == 0 {
					bad = e.b.Or(bad, a.g)
				}
			}
			e.guardPanic(st, bad, "value method called using nil pointer")
			st.set(dst, v)
			return cNext
		}
	case "SliceData":
		return func(e *Engine, st *State) ctl {
			v := e.liftSt(st, arg(st, 0), func(_ *Term, v Value) Value {
				s := v.(SliceV)
				if s.id == 0 {
					return Ptr{}
				}
				return Ptr{s.id, extend(s.path, pathEl{i: s.off})}
			})
			st.set(dst, v)
			return cNext
		}
	case "String":
		return func(e *Engine, st *State) ctl {
			pv := arg(st, 0)
			n := e.b.Resize(arg(st, 1).(*Term), 64, true)
			var res []Alt
			for _, a := range e.alts(st, pv) {
				p := a.v.(Ptr)
				for _, l := range e.intAlts(st, n) {
					g := e.b.And(a.g, l.g)
					if g.IsFalse() || e.quick(st, g) == 0 {
						continue
					}
					if l.v == 0 {
						res = append(res, Alt{g, Str{}})
						continue
					}
					if p.id == 0 {
						continue
					}
					k := len(p.path) - 1
					off := p.path[k].i
					arr := e.loadPtr(st, Ptr{p.id, p.path[:k]}).(ArrayV)
					if off+int(l.v) > len(arr) {
						continue
					}
					ts := make([]*Term, l.v)
					for i := range ts {
						ts[i] = arr[off+i].(*Term)
					}
					res = append(res, Alt{g, e.mkStr(ts)})
				}
			}
			if len(res) == 0 {
				panic(killPath{"infeasible"})
			}
			st.set(dst, e.mergeMany(res))
			return cNext
		}
	case "StringData":
		return func(e *Engine, st *State) ctl {
			s := e.forced(st, e.pickAny(st, arg(st, 0)).(Str))
			els := make([]Value, s.Len())
			for i := range els {
				els[i] = e.byteAt(s, i)
			}
			st.set(dst, Ptr{e.allocArr(st, els), []pathEl{{i: 0}}})
			return cNext
		}
	}
	return unsupportedInstr(x)
}

// ---- operators

func (e *Engine) binop(st *State, op token.Token, a, b Value, xt, yt types.Type) Value {
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b)
	case token.NEQ:
		return e.b.Not(e.eqVal(st, a, b))
	}
	x, okx := a.(*Term)
	y, oky := b.(*Term)
	if !okx || !oky {
		if isString(xt) {
			return e.strOp(st, op, a, b)
		}
		panic(fmt.Sprintf("binop %s on %T, %T", op, a, b))
	}
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&(types.IsFloat|types.IsComplex) != 0 {
		e.unsupported("floating point")
	}
	_, signed, _ := scalarW(xt)
	switch op {
	case token.ADD:
		return e.b.Bin(OpAdd, x, y)
	case token.SUB:
		return e.b.Bin(OpSub, x, y)
	case token.MUL:
		if c, v := x, y; x.W == 64 && x.IsConst() != y.IsConst() {
			if !c.IsConst() {
				c, v = y, x
			}
			// a multiplication by a large constant is replaced by a table
			// over the operand's possible values when these are few
			if c.V&(c.V-1) != 0 && c.V > 1<<16 && e.b.leafSet(v) == nil {
				if t := e.valueTable(st, v, func(u uint64) uint64 { return u * c.V }); t != nil {
					return t
				}
			}
		}
		return e.b.Bin(OpMul, x, y)
	case token.QUO, token.REM:
		e.guardPanic(st, e.b.Eq(y, e.b.Const(y.W, 0)), "integer divide by zero")
		var o Op
		switch {
		case op == token.QUO && signed:
			o = OpSDiv
		case op == token.QUO:
			o = OpUDiv
		case signed:
			o = OpSRem
		default:
			o = OpURem
		}
		return e.b.Bin(o, x, y)
	case token.AND:
		if x.W == 0 {
			return e.b.And(x, y)
		}
		return e.b.Bin(OpBAnd, x, y)
	case token.OR:
		if x.W == 0 {
			return e.b.Or(x, y)
		}
		return e.b.Bin(OpBOr, x, y)
	case token.XOR:
		if x.W == 0 {
			return e.b.Not(e.b.Eq(x, y))
		}
		return e.b.Bin(OpBXor, x, y)
	case token.AND_NOT:
		return e.b.Bin(OpBAnd, x, e.b.BNot(y))
	case token.SHL, token.SHR:
		_, ys, _ := scalarW(yt)
		if ys {
			e.guardPanic(st, e.b.Slt(y, e.b.Const(y.W, 0)), "negative shift amount")
		}
		// widen the shift amount so that large counts are seen
		w := x.W
		var amt *Term
		if y.W <= w {
			amt = e.b.Resize(y, w, false)
		} else {
			big := e.b.Not(e.b.Ult(y, e.b.Const(y.W, uint64(w))))
			amt = e.b.Ite(big, e.b.Const(w, uint64(w)), e.b.Resize(y, w, false))
		}
		if op == token.SHL {
			return e.b.Bin(OpShl, x, amt)
		}
		if signed {
			return e.b.Bin(OpAshr, x, amt)
		}
		return e.b.Bin(OpLshr, x, amt)
	case token.LSS:
		if signed {
			return e.b.Slt(x, y)
		}
		return e.b.Ult(x, y)
	case token.LEQ:
		if signed {
			return e.b.Sle(x, y)
		}
		return e.b.Ule(x, y)
	case token.GTR:
		if signed {
			return e.b.Slt(y, x)
		}
		return e.b.Ult(y, x)
	case token.GEQ:
		if signed {
			return e.b.Sle(y, x)
		}
		return e.b.Ule(y, x)
	}
	panic("binop " + op.String())
}

func (e *Engine) strOp(st *State, op token.Token, a, b Value) Value {
	return e.liftSt(st, a, func(_ *Term, av Value) Value {
		return e.liftSt(st, b, func(_ *Term, bv Value) Value {
			x, y := e.forced(st, av.(Str)), e.forced(st, bv.(Str))
			switch op {
			case token.ADD:
				return e.concat(x, y)
			case token.LSS:
				return e.strLess(x, y, false)
			case token.LEQ:
				return e.strLess(x, y, true)
			case token.GTR:
				return e.strLess(y, x, false)
			case token.GEQ:
				return e.strLess(y, x, true)
			}
			panic("string op " + op.String())
		})
	})
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	switch {
	case isString(to) && isString(from):
		return v
	case isString(from) && isByteSlice(to):
		return e.liftSt(st, v, func(_ *Term, v Value) Value {
			s := e.forced(st, v.(Str))
			els := make([]Value, s.Len())
			for i := range els {
				els[i] = e.byteAt(s, i)
			}
			return e.newSlice(st, els)
		})
	case isByteSlice(from) && isString(to):
		return e.liftSt(st, v, func(_ *Term, v Value) Value {
			return e.mkStr(e.bytesOf(st, v.(SliceV)))
		})
	case isString(from) && isRuneSlice(to):
		s := e.forced(st, e.pickAny(st, v).(Str))
		var els []Value
		for i := 0; i < s.Len(); {
			r, n := e.decodeRune(st, s, i)
			els = append(els, r)
			i += n
		}
		return e.newSlice(st, els)
	case isRuneSlice(from) && isString(to):
		s := e.pickAny(st, v).(SliceV)
		r := Str{}
		for _, x := range e.sliceElems(st, s) {
			r = e.concat(r, e.encodeRune(st, x.(*Term)))
		}
		return r
	case isString(to):
		w, sg, ok := scalarW(from)
		if ok && w > 0 {
			t := v.(*Term)
			if w > 32 {
				// values outside int32 become U+FFFD
				r32 := e.b.Resize(t, 32, false)
				fits := e.b.Eq(e.b.Resize(r32, w, sg), t)
				t = e.b.Ite(fits, r32, e.b.Const(32, 0xFFFD))
			} else {
				t = e.b.Resize(t, 32, sg)
			}
			return e.encodeRune(st, t)
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok {
		if b.Kind() == types.UnsafePointer {
			return v
		}
		fb, fok := from.Underlying().(*types.Basic)
		if fok && fb.Kind() == types.UnsafePointer {
			e.unsupported("conversion from unsafe.Pointer")
		}
		if fok && (b.Info()|fb.Info())&types.IsFloat != 0 {
			if b.Kind() == fb.Kind() {
				return v
			}
			e.unsupported("floating point conversion")
		}
		w, _, ok1 := scalarW(to)
		_, sg, ok2 := scalarW(from)
		if ok1 && ok2 {
			return e.b.Resize(v.(*Term), w, sg)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	e.unsupported(fmt.Sprintf("conversion %s to %s", from, to))
	return nil
}

// ---- UTF-8

func (e *Engine) inRange(t *Term, lo, hi uint64) *Term {
	return e.b.And(e.b.Ule(e.b.Const(t.W, lo), t), e.b.Ule(t, e.b.Const(t.W, hi)))
}

func (e *Engine) decodeRune(st *State, s Str, i int) (*Term, int) {
	b := e.b
	c := func(v uint64) *Term { return b.Const(32, v) }
	z := func(t *Term) *Term { return b.Resize(t, 32, false) }
	b0 := e.byteAt(s, i)
	if e.branch(st, b.Ult(b0, b.Const(8, 0x80))) {
		return z(b0), 1
	}
	n := s.Len() - i
	bad := func() (*Term, int) { return c(0xFFFD), 1 }
	and := func(t *Term, m uint64) *Term { return b.Bin(OpBAnd, z(t), c(m)) }
	shl := func(t *Term, k uint64) *Term { return b.Bin(OpShl, t, c(k)) }
	or := func(x, y *Term) *Term { return b.Bin(OpBOr, x, y) }
	if e.branch(st, e.inRange(b0, 0xC2, 0xDF)) {
		if n < 2 || !e.branch(st, e.inRange(e.byteAt(s, i+1), 0x80, 0xBF)) {
			return bad()
		}
		return or(shl(and(b0, 0x1F), 6), and(e.byteAt(s, i+1), 0x3F)), 2
	}
	if e.branch(st, e.inRange(b0, 0xE0, 0xEF)) {
		if n < 3 {
			return bad()
		}
		b1, b2 := e.byteAt(s, i+1), e.byteAt(s, i+2)
		lo := b.Ite(b.Eq(b0, b.Const(8, 0xE0)), b.Const(8, 0xA0), b.Const(8, 0x80))
		hi := b.Ite(b.Eq(b0, b.Const(8, 0xED)), b.Const(8, 0x9F), b.Const(8, 0xBF))
		ok := b.And(b.And(b.Ule(lo, b1), b.Ule(b1, hi)), e.inRange(b2, 0x80, 0xBF))
		if !e.branch(st, ok) {
			return bad()
		}
		return or(shl(and(b0, 0x0F), 12), or(shl(and(b1, 0x3F), 6), and(b2, 0x3F))), 3
	}
	if e.branch(st, e.inRange(b0, 0xF0, 0xF4)) {
		if n < 4 {
			return bad()
		}
		b1, b2, b3 := e.byteAt(s, i+1), e.byteAt(s, i+2), e.byteAt(s, i+3)
		lo := b.Ite(b.Eq(b0, b.Const(8, 0xF0)), b.Const(8, 0x90), b.Const(8, 0x80))
		hi := b.Ite(b.Eq(b0, b.Const(8, 0xF4)), b.Const(8, 0x8F), b.Const(8, 0xBF))
		ok := b.And(b.And(b.Ule(lo, b1), b.Ule(b1, hi)), b.And(e.inRange(b2, 0x80, 0xBF), e.inRange(b3, 0x80, 0xBF)))
		if !e.branch(st, ok) {
			return bad()
		}
		return or(shl(and(b0, 0x07), 18), or(shl(and(b1, 0x3F), 12), or(shl(and(b2, 0x3F), 6), and(b3, 0x3F)))), 4
	}
	return bad()
}

func (e *Engine) encodeRune(st *State, r *Term) Str {
	b := e.b
	c := func(v uint64) *Term { return b.Const(32, v) }
	tr := func(t *Term) *Term { return b.Resize(t, 8, false) }
	bits := func(sh, m, o uint64) *Term {
		return tr(b.Bin(OpBOr, b.Bin(OpBAnd, b.Bin(OpLshr, r, c(sh)), c(m)), c(o)))
	}
	if e.branch(st, b.Ult(r, c(0x80))) {
		return e.mkStr([]*Term{tr(r)})
	}
	if e.branch(st, b.Ult(r, c(0x800))) {
		return e.mkStr([]*Term{bits(6, 0x1F, 0xC0), bits(0, 0x3F, 0x80)})
	}
	inval := b.Or(b.Ult(c(0x10FFFF), r), e.inRange(r, 0xD800, 0xDFFF))
	if e.branch(st, inval) {
		return Str{s: "\uFFFD"}
	}
	if e.branch(st, b.Ult(r, c(0x10000))) {
		return e.mkStr([]*Term{bits(12, 0x0F, 0xE0), bits(6, 0x3F, 0x80), bits(0, 0x3F, 0x80)})
	}
	return e.mkStr([]*Term{bits(18, 0x07, 0xF0), bits(12, 0x3F, 0x80), bits(6, 0x3F, 0x80), bits(0, 0x3F, 0x80)})
}

// ---- lazy strings

// forced returns the content of a possibly delayed string, scheduling its
// computation when it is not yet known.
func (e *Engine) forced(st *State, s Str) Str {
	if s.lazy == 0 {
		return s
	}
	o := st.obj(e, s.lazy)
	switch v := o.val.(type) {
	case Str:
		return v
	case thunk:
		id := s.lazy
		e.callValue(st, FuncV{fn: v.fn}, v.args, -1, false, func(e *Engine, st *State, r Value) {
			st.mut(id).val = r
		})
		panic(restart{})
	case UnionV:
		// result of different lengths: settle on one
		r := e.pickAny(st, v)
		return e.forced(st, r.(Str))
	}
	panic(fmt.Sprintf("lazy %T", o.val))
}

type thunk struct {
	fn   *ssa.Function
	args []Value
}

// forceVal forces strings inside a key
func (e *Engine) forceVal(st *State, v Value) Value {
	switch x := v.(type) {
	case Str:
		return e.forced(st, x)
	case Iface:
		if x.typ != nil {
			if s, ok := x.v.(Str); ok && s.lazy != 0 {
				return Iface{x.typ, e.forced(st, s)}
			}
		}
	}
	return v
}

func (e *Engine) panicText(st *State, v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.typ == nil {
			return "nil"
		}
		return e.panicText(st, x.v)
	case Str:
		if x.lazy == 0 {
			return strings.Trim(showVal(x, st.model, e.b), "\"")
		}
		return "(formatted)"
	case *Term:
		return showVal(x, st.model, e.b)
	}
	return fmt.Sprintf("%T", v)
}

// valueTable enumerates the values t can take on this path (the last query
// shows there are no others) and returns f as a case distinction over them.
func (e *Engine) valueTable(st *State, t *Term, f func(uint64) uint64) *Term {
	one := e.b.Const(t.W, 1)
	if v, _ := e.check(st, e.b.Not(e.b.Eq(e.b.Bin(OpBAnd, t, e.b.Bin(OpSub, t, one)), e.b.Const(t.W, 0))), false); v == Unsat {
		// at most one bit set
		bit := func(i int) *Term {
			return e.b.Not(e.b.Eq(e.b.Bin(OpBAnd, t, e.b.Const(t.W, 1<<i)), e.b.Const(t.W, 0)))
		}
		maybe := e.b.maybeBits(t)
		zero := true
		if v, _ := e.check(st, e.b.Eq(t, e.b.Const(t.W, 0)), false); v == Unsat {
			zero = false
		}
		var ls []intAlt
		none := e.b.True
		for i := 0; i < int(t.W); i++ {
			g := bit(i)
			if g.IsFalse() || maybe>>i&1 == 0 {
				continue
			}
			ls = append(ls, intAlt{g, f(1 << i)})
			none = e.b.And(none, e.b.Not(g))
		}
		if zero {
			ls = append(ls, intAlt{none, f(0)})
		}
		return e.b.fromLeaves(t.W, ls)
	}
	var vals []uint64
	pc0 := st.pc
	defer func() { st.pc = pc0 }()
	for {
		v, m := e.check(st, nil, true)
		if v == Unknown {
			return nil
		}
		if v == Unsat {
			break
		}
		if len(vals) >= 80 {
			return nil
		}
		u := e.b.Eval(t, m)
		vals = append(vals, u)
		d := 1
		if st.pc != nil {
			d = st.pc.depth + 1
		}
		st.pc = &PC{cond: e.b.Not(e.b.Eq(t, e.b.Const(t.W, u))), parent: st.pc, depth: d}
	}
	if len(vals) == 0 {
		panic(killPath{"infeasible"})
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	last := len(vals) - 1
	r := e.b.Const(t.W, f(vals[last]))
	var ls []intAlt
	none := e.b.True
	for i := last - 1; i >= 0; i-- {
		g := e.b.Eq(t, e.b.Const(t.W, vals[i]))
		r = e.b.iteRaw(g, e.b.Const(t.W, f(vals[i])), r)
		ls = append(ls, intAlt{g, f(vals[i])})
		none = e.b.And(none, e.b.Not(g))
	}
	ls = append(ls, intAlt{none, f(vals[last])})
	if r.Op == OpIte {
		seen := map[uint64]bool{}
		for _, l := range ls {
			if seen[l.v] {
				return r
			}
			seen[l.v] = true
		}
		e.b.leafMemo[r.ID] = ls
	}
	return r
}
