package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PC is a node of the (persistent) path condition.
type PC struct {
	cond    *Term
	parent  *PC
	depth   int
	implied bool // follows from the rest; not sent to the solver
}

type Frame struct {
	own    *owner
	fi     *FuncInfo
	regs   []Value
	env    []Value
	block  int
	ip     int
	ret    int   // register of the caller that receives the result
	inst   int64 // call instance
	iters  []int // iteration count of each enclosing loop
	defers []deferred
	onRet  func(e *Engine, st *State, v Value) // delivers the result instead of ret
	catch  bool                                // sym.Catch boundary
	unw    bool                                // running its defers because of a panic
}

type deferred struct {
	fn   Value
	args []Value
}

type panicInfo struct {
	val Value // interface value given to panic
	msg string
	rec bool
	at  string
}

type Input struct {
	name string
	kind string // byte,bool,int,uint64
	t    *Term
}

type State struct {
	heap   Heap
	own    *owner
	frames []*Frame
	pc     *PC
	dom    []*Set256
	ent    []uint64 // entangled variables bitset
	model  *Model   // satisfies pc, or nil
	panicV *panicInfo
	names  []nameCnt
	inputs []Input
	frozen map[int]string
	locks  map[string]int // held: -1 exclusively, n by n readers; replaced on change
	instrs int64
	notes  []string
	observ []obsV
	loops  int

	progress  bool // has moved since it was forked (merge mode)
	checked   *PC  // path condition last found feasible (merge mode)
	watermark int  // objects up to this id may not be written (sym.Parallel)
	prints    int
	lastPanic string
	readers   int
}

type nameCnt struct {
	n string
	c int
}

type restart struct{}               // a frame was pushed; run it, then re-execute
type killPath struct{ why string }  // infeasible or assumed away
type unsup struct{ msg string }     // construct outside the encoder
type limitHit struct{ what string } // step or loop bound
type aborted struct{ why string }   // the whole job is given up
type goPanicked struct{}            // Go-level panic raised; unwinding already arranged

func (e *Engine) unsupported(msg string) { panic(unsup{msg}) }

func (st *State) clone() *State {
	c := *st
	st.own = &owner{}
	c.own = &owner{}
	c.frames = append([]*Frame(nil), st.frames...)
	c.dom = append([]*Set256(nil), st.dom...)
	c.ent = append([]uint64(nil), st.ent...)
	c.names = st.names[:len(st.names):len(st.names)]
	st.names = st.names[:len(st.names):len(st.names)]
	c.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	st.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	c.notes = st.notes[:len(st.notes):len(st.notes)]
	st.notes = st.notes[:len(st.notes):len(st.notes)]
	c.observ = st.observ[:len(st.observ):len(st.observ)]
	st.observ = st.observ[:len(st.observ):len(st.observ)]
	if st.panicV != nil {
		p := *st.panicV
		c.panicV = &p
	}
	return &c
}

// top frame, made exclusively owned
func (st *State) top() *Frame {
	n := len(st.frames) - 1
	fr := st.frames[n]
	if fr.own != st.own {
		c := *fr
		c.own = st.own
		c.regs = append([]Value(nil), fr.regs...)
		c.defers = fr.defers[:len(fr.defers):len(fr.defers)]
		st.frames[n] = &c
		return &c
	}
	return fr
}

func (e *Engine) varSet(t *Term) []uint64 {
	if s, ok := e.vset[t.ID]; ok {
		return s
	}
	var s []uint64
	if t.Op == OpVar {
		s = make([]uint64, t.VarIx/64+1)
		s[t.VarIx/64] |= 1 << (t.VarIx % 64)
	} else if t.hasV {
		for _, a := range t.A {
			if a == nil || !a.hasV {
				continue
			}
			o := e.varSet(a)
			for len(s) < len(o) {
				s = append(s, 0)
			}
			for i, w := range o {
				s[i] |= w
			}
		}
	}
	e.vset[t.ID] = s
	return s
}

func (st *State) domOf(x *Term) *Set256 {
	if int(x.VarIx) < len(st.dom) {
		return st.dom[x.VarIx]
	}
	return nil
}

func (e *Engine) addPC(st *State, c *Term, implied bool) {
	if c.IsTrue() {
		return
	}
	if c.Op == OpAnd {
		e.addPC(st, c.A[0], implied)
		e.addPC(st, c.A[1], implied)
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &PC{cond: c, parent: st.pc, depth: d, implied: implied}
	if c.Op == OpInSet {
		x := c.A[0]
		for int(x.VarIx) >= len(st.dom) {
			st.dom = append(st.dom, nil)
		}
		s := c.Set
		if o := st.dom[x.VarIx]; o != nil {
			s = s.and(*o)
		}
		st.dom[x.VarIx] = &s
		return
	}
	if implied {
		return
	}
	vs := e.varSet(c)
	for len(st.ent) < len(vs) {
		st.ent = append(st.ent, 0)
	}
	for i, w := range vs {
		st.ent[i] |= w
	}
}

func (st *State) entangled(x *Term) bool {
	i := int(x.VarIx)
	return i/64 < len(st.ent) && st.ent[i/64]>>(i%64)&1 == 1
}

// quick decides c syntactically from the path condition: 1 true, 0 false, -1 unknown
func (e *Engine) quick(st *State, c *Term) int {
	n := 60
	return e.quickN(st, c, &n)
}

func (e *Engine) quickN(st *State, c *Term, n *int) int {
	if c.IsConst() {
		return int(c.V)
	}
	if c.Op == OpInSet {
		if d := st.domOf(c.A[0]); d != nil {
			i := d.and(c.Set)
			if i.empty() {
				return 0
			}
			if i == *d {
				return 1
			}
		}
		return -1
	}
	if c.Op == OpNot {
		a := e.quickN(st, c.A[0], n)
		if a >= 0 {
			return 1 - a
		}
		return -1
	}
	*n--
	if *n < 0 {
		return -1
	}
	for p := st.pc; p != nil; p = p.parent {
		if p.cond == c {
			return 1
		}
		if p.cond.Op == OpNot && p.cond.A[0] == c {
			return 0
		}
	}
	switch c.Op {
	case OpAnd:
		a := e.quickN(st, c.A[0], n)
		if a == 0 {
			return 0
		}
		b := e.quickN(st, c.A[1], n)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OpOr:
		a := e.quickN(st, c.A[0], n)
		if a == 1 {
			return 1
		}
		b := e.quickN(st, c.A[1], n)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	}
	return -1
}

func (e *Engine) ensureModel(st *State) {
	if st.model != nil {
		return
	}
	v, m := e.check(st, nil, true)
	switch v {
	case Unsat:
		panic(killPath{"infeasible"})
	case Unknown:
		e.stats.Unknown++
		panic(unsup{"solver gave no answer on a path condition"})
	}
	st.model = m
}

// check decides pc ∧ c, falling back to other solvers when the first gives up
func (e *Engine) check(st *State, c *Term, want bool) (Verdict, *Model) {
	if c != nil {
		switch e.quick(st, c) {
		case 0:
			e.stats.Syntactic++
			return Unsat, nil
		}
	}
	left := e.opts.HardTimeout
	if !e.opts.Deadline.IsZero() {
		// past the time budget the job is given up at the next block
		d := time.Until(e.opts.Deadline)
		if d <= 0 {
			e.ticks |= 0xfff
			return Unknown, nil
		}
		if d += 5 * time.Second; d < left {
			left = d
		}
		if e.s.Timeout > left {
			e.s.Timeout = left
		}
	}
	if e.opts.Hard {
		v, m, err := e.s.OneShot(st.pc, c, "z3-new", left)
		if err == nil && v != Unknown {
			return v, m
		}
		v, m, err = e.s.OneShot(st.pc, c, "cvc5", left)
		if err != nil {
			return Unknown, nil
		}
		return v, m
	}
	t0 := time.Now()
	v, m := e.s.Check(st.pc, c, want)
	if d := time.Since(t0); e.opts.Verbose && d > 2*time.Second {
		e.logf("slow query %s:\n%s", d, strings.Join(e.trace(st), "\n"))
	}
	if v == Unknown {
		e.logf("solver unknown, retrying one-shot")
		v, m, _ = e.s.OneShot(st.pc, c, "z3-new", left)
		if v == Unknown {
			v, m, _ = e.s.OneShot(st.pc, c, "cvc5", left)
		}
	}
	return v, m
}

// branch decides a condition, forking when both outcomes are possible.  Must
// be called before the current instruction changes the state.
func (e *Engine) branch(st *State, c *Term) bool {
	switch e.quick(st, c) {
	case 1:
		return true
	case 0:
		return false
	}
	if e.mergeLevel > 0 {
		ch := st.clone()
		ch.model = nil
		if st.model != nil {
			if e.b.Eval(c, st.model) == 1 {
				ch.model = nil
			} else {
				ch.model = st.model
				st.model = nil
			}
		}
		e.addPC(ch, e.b.Not(c), false)
		e.addPC(st, c, false)
		e.pending = append(e.pending, ch)
		e.stats.Forks++
		return true
	}
	e.ensureModel(st)
	side := e.b.Eval(c, st.model) == 1
	this, other := c, e.b.Not(c)
	if !side {
		this, other = other, this
	}
	// the other side: is it feasible?
	var m *Model
	if other.Op == OpInSet && !st.entangled(other.A[0]) {
		// the variable occurs only in set constraints: domain is exact
		s := other.Set
		if d := st.domOf(other.A[0]); d != nil {
			s = s.and(*d)
		}
		// quick() has excluded the empty intersection
		m = st.model.with(other.A[0], uint64(s.first()))
		e.stats.DomainFork++
	} else {
		v, mm := e.check(st, other, true)
		switch v {
		case Unsat:
			e.addPC(st, this, true)
			e.stats.Pruned++
			return side
		case Unknown:
			e.stats.Unknown++
			e.incomplete(st, "solver gave no answer on a branch")
			e.addPC(st, this, false)
			return side
		}
		m = mm
	}
	ch := st.clone()
	ch.model = m
	e.addPC(ch, other, false)
	e.addPC(st, this, false)
	e.pending = append(e.pending, ch)
	e.stats.Forks++
	return side
}

// assume restricts the path
func (e *Engine) assume(st *State, c *Term) {
	switch e.quick(st, c) {
	case 1:
		return
	case 0:
		panic(killPath{"assume"})
	}
	e.addPC(st, c, false)
	if st.model != nil && e.b.Eval(c, st.model) == 1 {
		return
	}
	st.model = nil
	if e.mergeLevel == 0 {
		e.ensureModel(st)
	}
}

// concretize forks over the possible values of t
func (e *Engine) concretize(st *State, t *Term) uint64 {
	if t.IsConst() {
		return t.V
	}
	if ls := e.b.leafSet(t); ls != nil {
		for _, l := range ls {
			switch e.quick(st, l.g) {
			case 1:
				return l.v
			case 0:
				continue
			}
			if e.branch(st, l.g) {
				return l.v
			}
		}
		panic(killPath{"infeasible"})
	}
	for n := 0; n < e.opts.MaxConc; n++ {
		e.ensureModel(st)
		v := e.b.Eval(t, st.model)
		if e.branch(st, e.b.Eq(t, e.b.Const(t.W, v))) {
			return v
		}
	}
	e.unsupported("too many values to concretize")
	return 0
}

// pick resolves a union to one alternative by forking.  classes with equal
// key stay together.
func (e *Engine) pick(st *State, v Value, key func(Value) string) Value {
	u, ok := v.(UnionV)
	if !ok {
		return v
	}
	type cls struct {
		k    string
		g    *Term
		alts []Alt
	}
	var cl []*cls
	for _, a := range u.alts {
		if e.quick(st, a.g) == 0 {
			continue
		}
		k := key(a.v)
		found := false
		for _, c := range cl {
			if c.k == k {
				c.g = e.b.Or(c.g, a.g)
				c.alts = append(c.alts, a)
				found = true
			}
		}
		if !found {
			cl = append(cl, &cls{k, a.g, []Alt{a}})
		}
	}
	if len(cl) == 0 {
		panic(killPath{"infeasible"})
	}
	for i, c := range cl {
		if i == len(cl)-1 || e.branch(st, c.g) {
			return e.mergeMany(c.alts)
		}
	}
	panic("unreachable")
}

func (e *Engine) pickAny(st *State, v Value) Value {
	u, ok := v.(UnionV)
	if !ok {
		return v
	}
	for i, a := range u.alts {
		if e.quick(st, a.g) == 0 {
			continue
		}
		if i == len(u.alts)-1 || e.branch(st, a.g) {
			return a.v
		}
	}
	panic(killPath{"infeasible"})
}

// ---- Engine

type Opts struct {
	MaxInstr    int64
	MaxDepth    int
	MaxLoop     int
	MaxConc     int
	MaxPaths    int
	MaxViol     int
	Deadline    time.Time
	Hard        bool
	HardTimeout time.Duration
	MapPerm     bool
	Verbose     bool
	Shards      map[string]int
	TermLimit   bool
	Stop        *atomic.Bool // set when the check has its answer
	OnViol      func(v Violation)
}

type Stats struct {
	Paths, Forks, Pruned, Unions, Merges int
	Syntactic, DomainFork, Unknown       int
	Asserts, AssertsTriv, AssertQ        int
	Killed, Assumed                      int
	Instrs, MaxInstrs                    int64
	Incomplete                           map[string]int
	PathSat                              int
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Shards  map[string]int    `json:"shards"`
	Values  map[string]uint64 `json:"values"`
	Order   []string          `json:"order"`
	Detail  []string          `json:"detail,omitempty"`
	Trace   []string          `json:"trace,omitempty"`
}

type Engine struct {
	prog       *ssa.Program
	b          *Bank
	s          *Solver
	fis        map[*ssa.Function]*FuncInfo
	nextID     int
	nextInst   int64
	ticks      int64
	gaveUp     string       // why the job was given up
	weight     atomic.Int64 // roughly, how much memory it holds
	heavy      atomic.Bool  // memory is short and this job holds most
	globalOf   map[int]*ssa.Global
	globals    map[*ssa.Global]int
	globalTyp  map[int]types.Type
	pending    []*State
	mergeLevel int
	others     bool
	opts       Opts
	stats      Stats
	vset       map[int32][]uint64
	viol       []Violation
	reached    map[string]bool
	harness    string
	inited     map[*ssa.Package]bool
	samples    []string
	cov        map[string][]bool
	sizes      types.Sizes
	mset       map[string]*ssa.Function
	psamples   []pathSample
	nsample    int
	t0         time.Time
	uninit     map[string]bool
	violSeen   map[string]bool
	modelsPkg  *ssa.Package
	intrRepl   map[string]*ssa.Function
	hotCount   map[string]int64
}

func (e *Engine) logf(f string, a ...any) {
	if e.opts.Verbose {
		fmt.Fprintf(os.Stderr, "[%s %.1fs] "+f+"\n", append([]any{e.harness, time.Since(e.t0).Seconds()}, a...)...)
	}
}

func (e *Engine) incomplete(st *State, why string) {
	if e.stats.Incomplete == nil {
		e.stats.Incomplete = map[string]int{}
	}
	e.stats.Incomplete[why]++
	if e.opts.Verbose && e.stats.Incomplete[why] <= 2 {
		e.logf("incomplete: %s\n%s", why, strings.Join(e.trace(st), "\n"))
	}
}

func (e *Engine) trace(st *State) []string {
	var r []string
	for i := len(st.frames) - 1; i >= 0 && i >= len(st.frames)-12; i-- {
		fr := st.frames[i]
		pos := ""
		if fr.block < len(fr.fi.code) && fr.ip < len(fr.fi.code[fr.block]) {
			in := fr.fi.fn.Blocks[fr.block].Instrs[fr.fi.code[fr.block][fr.ip].ix]
			p := e.prog.Fset.Position(in.Pos())
			pos = fmt.Sprintf(" %s:%d  %s", shortFile(p.Filename), p.Line, in.String())
		}
		r = append(r, "  "+fr.fi.fn.String()+pos)
	}
	return r
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// violation records a failed assertion / panic / frame violation with a model
func (e *Engine) violation(st *State, kind, msg string, m *Model) {
	key := kind + "|" + msg
	if len(e.viol) >= e.opts.MaxViol {
		return
	}
	if e.violSeen[key] && len(e.viol) > 4 {
		return
	}
	e.violSeen[key] = true
	v := Violation{Harness: e.harness, Kind: kind, Msg: msg, Shards: e.opts.Shards, Values: map[string]uint64{}}
	for _, in := range st.inputs {
		v.Values[in.name] = e.b.Eval(in.t, m)
		v.Order = append(v.Order, in.name)
	}
	v.Detail = append(v.Detail, st.notes...)
	v.Trace = e.trace(st)
	e.viol = append(e.viol, v)
	if e.opts.OnViol != nil {
		e.opts.OnViol(v)
	}
	e.logf("VIOL %s %s %v", kind, msg, v.Values)
}
