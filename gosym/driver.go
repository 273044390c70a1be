package main

import (
	"fmt"
	"go/types"
	"maps"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func NewEngine(prog *ssa.Program, opts Opts) *Engine {
	b := NewBank()
	e := &Engine{prog: prog, b: b, fis: map[*ssa.Function]*FuncInfo{}, globals: map[*ssa.Global]int{},
		globalTyp: map[int]types.Type{}, globalOf: map[int]*ssa.Global{}, opts: opts, vset: map[int32][]uint64{},
		mset: map[string]*ssa.Function{}, t0: time.Now(), violSeen: map[string]bool{}, reached: map[string]bool{},
		sizes: types.SizesFor("gc", "amd64")}
	e.s = NewSolver(b)
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == modelsPath {
			e.modelsPkg = p
		}
	}
	return e
}

// stopped tells why the job should not go on, if so
func (e *Engine) stopped(st *State) string {
	if e.opts.Stop != nil && e.opts.Stop.Load() {
		return "stopped after a violation"
	}
	if !e.opts.Deadline.IsZero() && time.Now().After(e.opts.Deadline) {
		return "time budget exhausted"
	}
	e.weight.Store(int64(e.b.next) + 2*int64(e.nextID))
	if e.heavy.Load() {
		return "memory budget exhausted"
	}
	return ""
}

type outcome int

const (
	oDone outcome = iota
	oYield
	oDead
)

// protect runs a state and turns the engine's control panics into outcomes
func (e *Engine) protect(st *State, base int, merging bool) (res outcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case restart:
			res = oYield
		case goPanicked:
			res = oYield
		case killPath:
			e.stats.Killed++
			res = oDead
		case unsup:
			e.incomplete(st, "not encoded: "+x.msg)
			res = oDead
		case limitHit:
			e.limit(st, x.what)
			res = oDead
		case aborted:
			e.gaveUp = x.why
			res = oDead
		default:
			panic(fmt.Sprintf("%v\n%s\n%s", r, strings.Join(e.trace(st), "\n"), debug.Stack()))
		}
	}()
	e.runSteps(st, base, merging)
	if len(st.frames) <= base {
		return oDone
	}
	return oYield
}

func (e *Engine) limit(st *State, what string) {
	v, m := e.check(st, nil, true)
	if v == Unsat {
		return
	}
	if v == Sat && e.opts.TermLimit {
		e.violation(st, "nontermination", "did not finish within the "+what, m)
		return
	}
	e.incomplete(st, "limit: "+what)
}

// runAll explores every path from st (fork mode)
func (e *Engine) runAll(st *State) {
	stack := []*State{st}
	for len(stack) > 0 {
		if e.gaveUp == "" {
			e.gaveUp = e.stopped(stack[len(stack)-1])
		}
		if e.gaveUp != "" {
			e.incomplete(stack[len(stack)-1], e.gaveUp)
			return
		}
		if e.opts.MaxViol > 0 && len(e.viol) >= e.opts.MaxViol {
			return
		}
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		i0 := s.instrs
		o := e.protect(s, 0, false)
		e.stats.Instrs += s.instrs - i0
		if s.instrs > e.stats.MaxInstrs {
			e.stats.MaxInstrs = s.instrs
		}
		// depth first: run the forked children later
		for _, c := range e.pending {
			stack = append(stack, c)
		}
		e.pending = nil
		switch o {
		case oYield:
			stack = append(stack, s)
		case oDone:
			if s.panicV != nil {
				e.ensureModelSafe(s)
				if s.model != nil {
					e.violation(s, "panic", s.panicV.msg, s.model)
				}
			}
			if s.panicV == nil {
				e.samplePath(s)
			}
			e.stats.Paths++
			if e.opts.MaxPaths > 0 && e.stats.Paths >= e.opts.MaxPaths && len(stack) > 0 {
				e.incomplete(s, "path budget exhausted")
				return
			}
		case oDead:
			e.stats.Paths++
		}
	}
}

func (e *Engine) ensureModelSafe(s *State) {
	if s.model != nil {
		return
	}
	if v, m := e.check(s, nil, true); v == Sat {
		s.model = m
	}
}

// ---- merge mode

func (s *State) key() []int64 {
	var k []int64
	for _, fr := range s.frames {
		k = append(k, fr.key()...)
	}
	return k
}

func (fr *Frame) key() []int64 {
	var k []int64
	k = append(k, fr.inst)
	for i, h := range fr.fi.loops[fr.block] {
		it := int64(0)
		if i < len(fr.iters) {
			it = int64(fr.iters[i])
		}
		k = append(k, int64(fr.fi.pos[h]), it)
	}
	k = append(k, int64(fr.fi.pos[fr.block]), int64(fr.ip))
	return k
}

// cmpKey: earlier positions first; deeper stacks first
func cmpKey(a, b []int64) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) > len(b):
		return -1
	case len(a) < len(b):
		return 1
	}
	return 0
}

type mstate struct {
	s   *State
	key []int64
}

// runMerge runs f to completion on every path, merging states at join points
func (e *Engine) runMerge(st *State, f Value) {
	if e.mergeLevel > 0 {
		// already merging: an ordinary call
		e.callValue(st, f, nil, -1, true, nil)
		return
	}
	saved := e.pending
	e.pending = nil
	e.mergeLevel++
	base := len(st.frames)
	e.callValue(st, f, nil, -1, true, nil)
	caller := st.frames[base-1]
	model := st.model
	pc0 := st.pc
	cnt0 := st.instrs
	work := st.clone()
	work.model = nil
	done, escaped := e.mergeLoop(work, base, caller)
	e.mergeLevel--
	e.pending = saved
	_ = pc0
	var fin []*State
	if len(done) > 0 {
		for len(done) > 0 {
			// merge what can be merged
			grp := []*State{done[0]}
			var rest []*State
			for _, d := range done[1:] {
				if mergeable(grp[0], d) {
					grp = append(grp, d)
				} else {
					rest = append(rest, d)
				}
			}
			fin = append(fin, e.mergeStates(grp))
			done = rest
		}
	}
	fin = append(fin, escaped...)
	var live []*State
	for _, s := range fin {
		if s.pc == pc0 && model != nil {
			s.model = model
		} else {
			v, m := e.check(s, nil, true)
			if v == Unsat {
				continue
			}
			if v == Unknown {
				e.stats.Unknown++
				e.incomplete(s, "solver gave no answer on a merged path condition")
				continue
			}
			s.model = m
		}
		live = append(live, s)
	}
	_ = cnt0
	if len(live) == 0 {
		panic(killPath{"infeasible"})
	}
	*st = *live[0]
	for _, s := range live[1:] {
		e.pending = append(e.pending, s)
	}
}

func (e *Engine) mergeLoop(st *State, base int, caller *Frame) (done, escaped []*State) {
	queue := []mstate{{st, st.key()}}
	add := func(s *State) { queue = append(queue, mstate{s, s.key()}) }
	for len(queue) > 0 {
		if e.gaveUp == "" {
			e.gaveUp = e.stopped(queue[0].s)
		}
		if e.gaveUp != "" {
			return
		}
		// smallest key
		mi := 0
		for i := 1; i < len(queue); i++ {
			if cmpKey(queue[i].key, queue[mi].key) < 0 {
				mi = i
			}
		}
		k := queue[mi].key
		var grp []*State
		var single *State
		rest := queue[:0]
		for _, q := range queue {
			if single == nil && cmpKey(q.key, k) == 0 {
				if q.s.progress && (len(grp) == 0 || mergeable(grp[0], q.s)) {
					grp = append(grp, q.s)
					continue
				}
				if !q.s.progress && len(grp) == 0 {
					single = q.s
					continue
				}
			}
			rest = append(rest, q)
		}
		queue = rest
		var s *State
		if single != nil {
			s = single
		} else {
			s = e.mergeStates(grp)
		}
		// prune at loop heads whose condition has grown
		if e.atCheckedHead(s) && s.pc != s.checked {
			v, _ := e.check(s, nil, false)
			if v == Unsat {
				e.stats.Pruned++
				continue
			}
			if v == Unknown {
				e.stats.Unknown++
			}
			s.checked = s.pc
			if it64(s.frames[len(s.frames)-1].iters) > e.opts.MaxLoop {
				e.limit(s, "loop bound")
				continue
			}
		}
		e.others = len(queue) > 0
		i0 := s.instrs
		o := e.protect(s, base, true)
		e.stats.Instrs += s.instrs - i0
		for _, c := range e.pending {
			c.progress = false
			add(c)
		}
		e.pending = nil
		if o == oDead {
			continue
		}
		// back in the caller?
		if len(s.frames) == base && s.frames[base-1].inst == caller.inst && !s.frames[base-1].unw && s.panicV == nil {
			s.progress = true
			done = append(done, s)
			continue
		}
		if len(s.frames) <= base {
			escaped = append(escaped, s)
			continue
		}
		add(s)
	}
	return
}

func mergeable(a, b *State) bool {
	if a.panicV != nil || b.panicV != nil || len(a.frames) != len(b.frames) || a.prints != b.prints || a.watermark != b.watermark || !maps.Equal(a.locks, b.locks) {
		return false
	}
	for i := range a.frames {
		x, y := a.frames[i], b.frames[i]
		if x == y {
			continue
		}
		if x.inst != y.inst || x.block != y.block || x.ip != y.ip || x.unw != y.unw || len(x.defers) != len(y.defers) {
			return false
		}
	}
	return true
}

func lca(a, b *PC) *PC {
	for a != b {
		da, db := 0, 0
		if a != nil {
			da = a.depth
		}
		if b != nil {
			db = b.depth
		}
		if da >= db {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}

func (e *Engine) mergeStates(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0]
	}
	e.stats.Merges++
	anc := ss[0].pc
	for _, s := range ss[1:] {
		anc = lca(anc, s.pc)
	}
	// deepest conditions first so that siblings cancel
	sort.SliceStable(ss, func(i, j int) bool {
		di, dj := 0, 0
		if ss[i].pc != nil {
			di = ss[i].pc.depth
		}
		if ss[j].pc != nil {
			dj = ss[j].pc.depth
		}
		return di > dj
	})
	gs := make([]*Term, len(ss))
	for i, s := range ss {
		var cs []*Term
		for p := s.pc; p != anc; p = p.parent {
			if !p.implied {
				cs = append(cs, p.cond)
			}
		}
		g := e.b.True
		for k := len(cs) - 1; k >= 0; k-- {
			g = e.b.And(g, cs[k])
		}
		gs[i] = g
	}
	// drop impossible ones
	var ns []*State
	var ng []*Term
	for i, g := range gs {
		if !g.IsFalse() {
			ns = append(ns, ss[i])
			ng = append(ng, g)
		}
	}
	if len(ns) == 0 {
		return ss[0]
	}
	if len(ns) == 1 {
		return ns[0]
	}
	ss, gs = ns, ng
	or := e.b.False
	for _, g := range gs {
		or = e.b.Or(or, g)
	}
	r := ss[0].clone()
	r.own = &owner{}
	r.model = nil
	r.checked = nil
	// path condition
	n := 0
	for _, s := range ss {
		if len(s.dom) > n {
			n = len(s.dom)
		}
	}
	r.dom = make([]*Set256, n)
	for v := 0; v < n; v++ {
		var acc Set256
		full := false
		for _, s := range ss {
			if v >= len(s.dom) || s.dom[v] == nil {
				full = true
				break
			}
			acc = acc.or(*s.dom[v])
		}
		if !full {
			a := acc
			r.dom[v] = &a
		}
	}
	for _, s := range ss {
		for len(r.ent) < len(s.ent) {
			r.ent = append(r.ent, 0)
		}
		for i, w := range s.ent {
			r.ent[i] |= w
		}
	}
	r.pc = anc
	r.addMerged(e, or)
	// heap
	diff := map[int]bool{}
	for _, s := range ss[1:] {
		diffHeap(ss[0].heap.root, s.heap.root, trieLevels-1, 0, func(id int, x, y *Obj) { diff[id] = true })
	}
	ids := make([]int, 0, len(diff))
	for id := range diff {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		var os []*Obj
		var og []*Term
		for i, s := range ss {
			if o := s.heap.get(id); o != nil {
				os = append(os, o)
				og = append(og, gs[i])
			}
		}
		r.heap.set(r.own, id, e.mergeObjs(r, os, og))
	}
	// frames
	for i := range r.frames {
		same := true
		for _, s := range ss[1:] {
			if s.frames[i] != ss[0].frames[i] {
				same = false
				break
			}
		}
		if same {
			continue
		}
		f0 := ss[0].frames[i]
		nf := *f0
		nf.own = r.own
		nf.regs = make([]Value, len(f0.regs))
		live := f0.fi.live(f0.block, f0.ip)
		for k := range nf.regs {
			if live[k/64]>>(k%64)&1 == 0 {
				continue
			}
			as := make([]Alt, 0, len(ss))
			for j, s := range ss {
				if v := s.frames[i].regs[k]; v != nil {
					as = append(as, Alt{gs[j], v})
				}
			}
			if len(as) > 0 {
				nf.regs[k] = e.mergeMany(as)
			}
		}
		for d := range nf.defers {
			nf.defers = append([]deferred(nil), nf.defers...)
			for a := range nf.defers[d].args {
				as := make([]Alt, len(ss))
				for j, s := range ss {
					as[j] = Alt{gs[j], s.frames[i].defers[d].args[a]}
				}
				nf.defers[d].args = append([]Value(nil), nf.defers[d].args...)
				nf.defers[d].args[a] = e.mergeMany(as)
			}
		}
		r.frames[i] = &nf
	}
	// inputs and names
	for _, s := range ss[1:] {
		for _, in := range s.inputs {
			found := false
			for _, x := range r.inputs {
				if x.name == in.name {
					found = true
					break
				}
			}
			if !found {
				r.inputs = append(r.inputs[:len(r.inputs):len(r.inputs)], in)
			}
		}
		for _, nc := range s.names {
			found := false
			for k := range r.names {
				if r.names[k].n == nc.n {
					found = true
					if nc.c > r.names[k].c {
						ns := append([]nameCnt(nil), r.names...)
						ns[k].c = nc.c
						r.names = ns
					}
				}
			}
			if !found {
				r.names = append(r.names[:len(r.names):len(r.names)], nc)
			}
		}
		if s.instrs > r.instrs {
			r.instrs = s.instrs
		}
	}
	r.progress = true
	return r
}

// addMerged adds the disjunction; the byte domains are already in place
func (st *State) addMerged(e *Engine, c *Term) { e.addPC(st, c, false) }

func (e *Engine) mergeObjs(r *State, os []*Obj, gs []*Term) *Obj {
	o := *os[0]
	o.own = r.own
	if len(os) == 1 {
		// keep sharing semantics: private copy on next write
		o.own = nil
		return &o
	}
	if o.isArr {
		n := len(o.elems)
		els := make([]Value, n)
		as := make([]Alt, len(os))
		for i := 0; i < n; i++ {
			same := true
			for j, x := range os {
				as[j] = Alt{gs[j], x.elems[i]}
				if j > 0 && same && !identical(x.elems[i], os[0].elems[i]) {
					same = false
				}
			}
			if same {
				els[i] = os[0].elems[i]
			} else {
				els[i] = e.mergeMany(as)
			}
		}
		o.elems = els
		return &o
	}
	if o.mp != nil {
		md := &MapData{ix: map[string]int{}}
		var symEnts []mapEntry
		for j, x := range os {
			for _, en := range x.mp.ents {
				g := e.b.And(gs[j], en.g)
				if g.IsFalse() {
					continue
				}
				ks, conc := keyStr(en.k)
				if !conc {
					// same symbolic key term?
					merged := false
					for i := range symEnts {
						if e.eqVal(r, symEnts[i].k, en.k).IsTrue() {
							symEnts[i].v = e.mergeMany([]Alt{{symEnts[i].g, symEnts[i].v}, {g, en.v}})
							symEnts[i].g = e.b.Or(symEnts[i].g, g)
							merged = true
							break
						}
					}
					if !merged {
						symEnts = append(symEnts, mapEntry{en.k, en.v, g})
					}
					continue
				}
				if i, ok := md.ix[ks]; ok {
					p := &md.ents[i]
					p.v = e.mergeMany([]Alt{{p.g, p.v}, {g, en.v}})
					p.g = e.b.Or(p.g, g)
					continue
				}
				md.ix[ks] = len(md.ents)
				md.ents = append(md.ents, mapEntry{en.k, en.v, g})
			}
		}
		// presence relative to the merged path condition
		all := e.b.False
		for _, g := range gs {
			all = e.b.Or(all, g)
		}
		for i := range md.ents {
			if md.ents[i].g == all {
				md.ents[i].g = e.b.True
			}
		}
		md.ents = append(md.ents, symEnts...)
		o.mp = md
		return &o
	}
	as := make([]Alt, len(os))
	for j, x := range os {
		as[j] = Alt{gs[j], x.val}
	}
	o.val = e.mergeMany(as)
	return &o
}

func identical(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		return ok && x.t == nil && y.t == nil && x.s == y.s && x.lazy == y.lazy
	}
	return false
}
