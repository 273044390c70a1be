package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	repoPath   = "github.com/TooManySugar/ll1parser"
	symPath    = "verif/harness/sym"
	modelsPath = "verif/harness/models"
)

var progMu sync.Mutex

func floatBits(f float64) uint64 { return math.Float64bits(f) }

// standard packages whose initialisers are executed
var initPkgs = map[string]bool{
	"io": true, "unicode/utf8": true, "sort": true, "slices": true, "strconv": true,
	"bytes": true, "strings": true, "math/bits": true, "cmp": true, "maps": true, "iter": true,
	"internal/itoa": true, "internal/strconv": true, "container/list": true, "container/heap": true, "bufio": true, "unicode": false,
	"internal/stringslite": true, "internal/errors": true, "math": true, "text/tabwriter": true,
}

func (e *Engine) initOK(g *ssa.Global) bool {
	p := g.Pkg.Pkg.Path()
	if strings.HasPrefix(p, repoPath) || strings.HasPrefix(p, "verif/") || initPkgs[p] {
		return true
	}
	switch g.String() {
	case "os.Stdout", "os.Stderr", "os.Stdin", "os.Args":
		return true
	}
	return false
}

// functions replaced by Go models from the harness module
var replaced = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln",
	"fmt.Errorf":  "Errorf",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
	"fmt.Appendf": "Appendf", "fmt.Append": "Append",
	"fmt.Printf": "Printf", "fmt.Print": "Print", "fmt.Println": "Println",
	"log.Printf": "Logf", "log.Print": "Log", "log.Println": "Log",
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.Compare":             "Compare",
	"internal/bytealg.CompareString":       "CompareString",
	"internal/bytealg.Index":               "Index",
	"internal/bytealg.IndexString":         "IndexString",
	"strings.Index":                        "IndexString",
	"bytes.Index":                          "Index",
	"strings.Count":                        "StringsCount",
	"bytes.Count":                          "BytesCount",
	"strings.ReplaceAll":                   "ReplaceAll",
	"strings.Replace":                      "Replace",
	"strings.ContainsRune":                 "ContainsRune",
	"strings.IndexRune":                    "IndexRune",
	"sort.Slice":                           "SortSlice",
	"sort.SliceStable":                     "SortSlice",
	"errors.Is":                            "ErrorsIs",
	"errors.As":                            "ErrorsAs",
	"strings.ToUpper":                      "ToUpper",
	"strings.ToLower":                      "ToLower",
	"unicode.IsSpace":                      "IsSpace",
	"unicode.IsLetter":                     "IsLetter",
	"unicode.IsDigit":                      "IsDigit",
	"unicode.IsPrint":                      "IsPrint",
	"unicode.IsControl":                    "IsControl",
	"unicode.IsUpper":                      "IsUpper",
	"unicode.IsLower":                      "IsLower",
	"unicode.IsGraphic":                    "IsGraphic",
	"unicode.IsPunct":                      "IsPunct",
	"bytes.EqualFold":                      "BytesEqualFold",
	"(*sync.Pool).Get":                     "PoolGet",
	"(*sync.Pool).Put":                     "PoolPut",
	"(*sync.Map).Load":                     "MapLoad",
	"(*sync.Map).Store":                    "MapStore",
	"(*sync.Map).LoadOrStore":              "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":            "MapLoadAndDelete",
	"(*sync.Map).Delete":                   "MapDelete",
	"(*sync.Map).Swap":                     "MapSwap",
	"(*sync.Map).Range":                    "MapRange",
	"(*sync.Map).Clear":                    "MapClear",
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) model(name string) *ssa.Function {
	if e.modelsPkg == nil {
		return nil
	}
	return e.modelsPkg.Func(name)
}

func (e *Engine) resolveIntrinsic(fi *FuncInfo) {
	fn := fi.fn
	name := fnName(fn)
	if h, ok := intrinsics[name]; ok {
		fi.intr = h
		return
	}
	if m, ok := replaced[name]; ok {
		if f := e.model(m); f != nil {
			fi.repl = f
			return
		}
	}
	// package initialisers outside the modelled set do nothing
	if fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") {
		p := fn.Pkg.Pkg.Path()
		if !(strings.HasPrefix(p, repoPath) || strings.HasPrefix(p, "verif/") || initPkgs[p]) {
			fi.intr = nop
		}
	}
}

func nop(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	return e.zeroResults(fn), false
}

func ident(i int) intrinsic {
	return func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
		return a[i], false
	}
}

func (e *Engine) cstr(st *State, v Value) string {
	s := e.forced(st, e.pickAny(st, v).(Str))
	if s.t != nil {
		e.unsupported("symbolic name or message")
	}
	return s.s
}

func (e *Engine) cint(v Value) int {
	t := v.(*Term)
	if !t.IsConst() {
		e.unsupported("symbolic bound")
	}
	return int(int64(t.V))
}

// uniq numbers repeated names
func (st *State) uniq(n string) string {
	for i := range st.names {
		if st.names[i].n == n {
			c := st.names[i].c
			ns := append([]nameCnt(nil), st.names...)
			ns[i].c++
			st.names = ns
			return fmt.Sprintf("%s#%d", n, c)
		}
	}
	st.names = append(st.names[:len(st.names):len(st.names)], nameCnt{n, 1})
	return n
}

func (st *State) input(name, kind string, t *Term) {
	st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], Input{name, kind, t})
}

func (e *Engine) byteVar(st *State, name string) *Term {
	n := st.uniq(name)
	v := e.b.Var(n, 8)
	st.input(n, "byte", v)
	return v
}

func upTo(n int) Set256 {
	var s Set256
	for i := 0; i < n && i < 256; i++ {
		s.add(byte(i))
	}
	return s
}

var intrinsics map[string]intrinsic

func init() {
	sy := func(n string) string { return symPath + "." + n }
	intrinsics = map[string]intrinsic{
		sy("Byte"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.byteVar(st, e.cstr(st, a[0])), false
		},
		sy("Bool"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			v := e.byteVar(st, e.cstr(st, a[0]))
			var s Set256
			s.add(0)
			return e.b.InSet(v, s.not()), false
		},
		sy("Uint64"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			n := st.uniq(e.cstr(st, a[0]))
			v := e.b.Var(n, 64)
			st.input(n, "uint64", v)
			return v, false
		},
		sy("Int"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			name := e.cstr(st, a[0])
			lo, hi := e.cint(a[1]), e.cint(a[2])
			if hi-lo < 256 {
				if hi < lo {
					panic(killPath{"assume"})
				}
				v := e.byteVar(st, name)
				e.assume(st, e.b.InSet(v, upTo(hi-lo+1)))
				return e.b.Bin(OpAdd, e.b.Resize(v, 64, false), e.b.Const(64, uint64(lo))), false
			}
			n := st.uniq(name)
			v := e.b.Var(n, 64)
			st.input(n, "int", v)
			e.assume(st, e.b.And(e.b.Sle(e.b.Const(64, uint64(lo)), v), e.b.Sle(v, e.b.Const(64, uint64(hi)))))
			return v, false
		},
		sy("Bytes"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			name := e.cstr(st, a[0])
			n := e.cint(a[1])
			els := make([]Value, n)
			for i := range els {
				els[i] = e.byteVar(st, fmt.Sprintf("%s[%d]", name, i))
			}
			return e.newSlice(st, els), false
		},
		sy("String"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			name := e.cstr(st, a[0])
			n := e.cint(a[1])
			ts := make([]*Term, n)
			for i := range ts {
				ts[i] = e.byteVar(st, fmt.Sprintf("%s[%d]", name, i))
			}
			return e.mkStr(ts), false
		},
		sy("Shard"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			name := e.cstr(st, a[0])
			v, ok := e.opts.Shards[name]
			if !ok {
				panic("harness asks for undeclared shard " + name)
			}
			n := e.cint(a[1])
			if v >= n {
				panic(killPath{"shard outside range"})
			}
			return e.b.Const(64, uint64(v)), false
		},
		sy("OneOf"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			name := e.cstr(st, a[0])
			els := append([]Value(nil), e.sliceElems(st, e.pickAny(st, a[1]).(SliceV))...)
			v := e.byteVar(st, name)
			e.assume(st, e.b.InSet(v, upTo(len(els))))
			as := make([]Alt, len(els))
			for i := range els {
				var s Set256
				s.add(byte(i))
				if i == len(els)-1 { // the assumption makes the alternatives exhaustive
					s = upTo(i).not()
				}
				as[i] = Alt{e.b.InSet(v, s), els[i]}
			}
			return e.mergeMany(as), false
		},
		sy("Assume"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			e.assume(st, a[0].(*Term))
			return nil, false
		},
		sy("Assert"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			e.assert(st, a[0].(*Term), e.cstr(st, a[1]))
			return nil, false
		},
		sy("Reach"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			l := e.cstr(st, a[0])
			if !e.reached[l] {
				if e.mergeLevel > 0 || st.model == nil {
					if v, m := e.check(st, nil, true); v == Sat {
						st.model = m
						e.reached[l] = true
						e.sample(st, l, m)
					}
				} else {
					e.reached[l] = true
					e.sample(st, l, st.model)
				}
			}
			return nil, false
		},
		sy("Catch"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			e.callValue(st, a[0], nil, -1, true, nil)
			fr := st.top()
			fr.catch = true
			fr.ret = dst
			fr.onRet = func(e *Engine, st *State, _ Value) {
				st.set(dst, TupleV{e.b.False, Str{}})
			}
			return nil, true
		},
		sy("Freeze"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			fz := map[int]string{}
			for k, v := range st.frozen {
				fz[k] = v
			}
			name := e.cstr(st, a[0])
			e.reachObjs(st, a[1], func(id int) bool {
				if _, ok := fz[id]; ok {
					return false
				}
				fz[id] = name
				return true
			})
			// the variadic slice itself is not interesting
			if s, ok := a[1].(SliceV); ok {
				delete(fz, s.id)
			}
			st.frozen = fz
			return nil, false
		},
		sy("Merge"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			e.runMerge(st, a[0])
			return nil, true
		},
		sy("Parallel"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			e.callValue(st, a[0], nil, -1, true, nil)
			old := st.watermark
			st.watermark = e.nextID
			st.top().onRet = func(e *Engine, st *State, _ Value) { st.watermark = old }
			return nil, true
		},
		sy("Concrete"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			t := a[0].(*Term)
			return e.b.Const(t.W, e.concretize(st, t)), false
		},
		sy("Decide"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.b.Bool(e.branch(st, a[0].(*Term))), false
		},
		sy("Prints"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.b.Const(64, uint64(st.prints)), false
		},
		sy("Note"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return nil, false
		},
		sy("Observe"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			l := e.cstr(st, a[0])
			v := e.liftSt(st, a[1], func(_ *Term, x Value) Value {
				i := x.(Iface)
				if i.typ == nil {
					return i
				}
				return Iface{i.typ, e.liftSt(st, i.v, func(_ *Term, y Value) Value {
					if s, ok := y.(Str); ok {
						return e.forced(st, s)
					}
					return y
				})}
			})
			st.observ = append(st.observ[:len(st.observ):len(st.observ)], obsV{l, v})
			return nil, false
		},
		sy("LastPanic"): func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return Str{s: st.lastPanic}, false
		},

		modelsPath + ".printed": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			st.prints++
			return nil, false
		},
		modelsPath + ".isStd": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			i, ok := e.pickAny(st, a[0]).(Iface)
			if ok && i.typ != nil {
				return e.b.Bool(strings.HasSuffix(i.typ.String(), "os.File")), false
			}
			return e.b.False, false
		},
		modelsPath + ".lazySprintf": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			f := e.model("doSprintf")
			if e.lazySafe(st, a[1]) {
				id := e.newID()
				st.heap.set(st.own, id, &Obj{own: st.own, val: thunk{f, a}})
				return Str{lazy: id}, false
			}
			e.push(st, f, a, nil, dst, true)
			return nil, true
		},
		modelsPath + ".typeName": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.liftSt(st, a[0], func(_ *Term, v Value) Value {
				i := v.(Iface)
				if i.typ == nil {
					return Str{s: "<nil>"}
				}
				n := types.TypeString(i.typ, func(p *types.Package) string { return p.Name() })
				if n == "byte" || strings.HasSuffix(n, "]byte") || strings.HasSuffix(n, "*byte") {
					n = n[:len(n)-4] + "uint8"
				}
				return Str{s: n}
			}), false
		},
		// kindOf: 1 bool 2 int 3 uint 4 string 5 error 6 stringer 7 byte slice 8 other, 0 nil
		modelsPath + ".kindOf": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.liftSt(st, a[0], func(_ *Term, v Value) Value {
				return e.b.Const(64, uint64(e.kindOf(v.(Iface))))
			}), false
		},
		// scalar value of an integer or boolean interface as uint64 (sign extended)
		modelsPath + ".intOf": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.liftSt(st, a[0], func(_ *Term, v Value) Value {
				i := v.(Iface)
				if i.typ == nil {
					return e.b.Const(64, 0)
				}
				_, sg, ok := scalarW(i.typ)
				if !ok {
					return e.b.Const(64, 0)
				}
				return e.liftSt(st, i.v, func(_ *Term, x Value) Value {
					t := x.(*Term)
					if t.W == 0 {
						return e.b.Ite(t, e.b.Const(64, 1), e.b.Const(64, 0))
					}
					return e.b.Resize(t, 64, sg)
				})
			}), false
		},
		modelsPath + ".strOf": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.liftSt(st, a[0], func(_ *Term, v Value) Value {
				i := v.(Iface)
				if i.typ == nil || !isString(i.typ) {
					return Str{}
				}
				return e.liftSt(st, i.v, func(_ *Term, x Value) Value { return e.forced(st, x.(Str)) })
			}), false
		},
		modelsPath + ".lenAny": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.lenOf(st, e.pickAny(st, a[0]).(Iface).v, false), false
		},
		// quietly runs f, the writes of which are synchronised
		modelsPath + ".quietly": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			e.callValue(st, a[0], nil, -1, true, nil)
			wm, fz := st.watermark, st.frozen
			st.watermark, st.frozen = 0, nil
			st.top().onRet = func(e *Engine, st *State, _ Value) { st.watermark, st.frozen = wm, fz }
			return nil, true
		},
		modelsPath + ".parallel": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			return e.b.Bool(st.watermark > 0), false
		},
		modelsPath + ".asTarget": asTarget,
		modelsPath + ".comparable": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			i := e.pickAny(st, a[0]).(Iface)
			return e.b.Bool(i.typ == nil || types.Comparable(i.typ)), false
		},
		modelsPath + ".swapAny": func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
			s := e.pickAny(st, e.pickAny(st, a[0]).(Iface).v).(SliceV)
			i, j := int(e.concretize(st, a[1].(*Term))), int(e.concretize(st, a[2].(*Term)))
			pi := Ptr{s.id, extend(s.path, pathEl{i: s.off + i})}
			pj := Ptr{s.id, extend(s.path, pathEl{i: s.off + j})}
			x, y := e.loadPtr(st, pi), e.loadPtr(st, pj)
			e.storePtr(st, pi, e.b.True, y)
			e.storePtr(st, pj, e.b.True, x)
			return nil, false
		},

		"(*strings.Builder).copyCheck":              nop,
		"internal/abi.NoEscape":                     ident(0),
		"internal/abi.Escape":                       ident(0),
		"strings.noescape":                          ident(0),
		"runtime.KeepAlive":                         nop,
		"(*sync.Mutex).Lock":                        lockOp(lockExcl),
		"(*sync.Mutex).TryLock":                     lockOp(lockTry),
		"(*sync.Mutex).Unlock":                      lockOp(lockFree),
		"(*sync.RWMutex).Lock":                      lockOp(lockExcl),
		"(*sync.RWMutex).TryLock":                   lockOp(lockTry),
		"(*sync.RWMutex).Unlock":                    lockOp(lockFree),
		"(*sync.RWMutex).RLock":                     lockOp(lockShared),
		"(*sync.RWMutex).RUnlock":                   lockOp(lockFree),
		"internal/race.Enable":                      nop,
		"internal/race.Disable":                     nop,
		"internal/race.Acquire":                     nop,
		"internal/race.Release":                     nop,
		"internal/race.ReleaseMerge":                nop,
		"internal/bytealg.MakeNoZero":               makeNoZero,
		"internal/bytealg.Equal":                    bytesEqual,
		"bytes.Equal":                               bytesEqual,
		"(*sync/atomic.Bool).Load":                  atomicLoad,
		"(*sync/atomic.Int32).Load":                 atomicLoad,
		"(*sync/atomic.Uint32).Load":                atomicLoad,
		"(*sync/atomic.Int64).Load":                 atomicLoad,
		"(*sync/atomic.Uint64).Load":                atomicLoad,
		"(*sync/atomic.Bool).Store":                 atomicStore,
		"(*sync/atomic.Int32).Store":                atomicStore,
		"(*sync/atomic.Uint32).Store":               atomicStore,
		"(*sync/atomic.Int64).Store":                atomicStore,
		"(*sync/atomic.Uint64).Store":               atomicStore,
		"(*sync/atomic.Int32).Add":                  atomicAdd,
		"(*sync/atomic.Uint32).Add":                 atomicAdd,
		"(*sync/atomic.Int64).Add":                  atomicAdd,
		"(*sync/atomic.Uint64).Add":                 atomicAdd,
		"(*sync/atomic.Bool).CompareAndSwap":        atomicCAS,
		"(*sync/atomic.Bool).Swap":                  atomicSwap,
		"(*sync/atomic.Int32).CompareAndSwap":       atomicCAS,
		"(*sync/atomic.Int32).Swap":                 atomicSwap,
		"(*sync/atomic.Uint32).CompareAndSwap":      atomicCAS,
		"(*sync/atomic.Uint32).Swap":                atomicSwap,
		"(*sync/atomic.Int64).CompareAndSwap":       atomicCAS,
		"(*sync/atomic.Int64).Swap":                 atomicSwap,
		"(*sync/atomic.Uint64).CompareAndSwap":      atomicCAS,
		"(*sync/atomic.Uint64).Swap":                atomicSwap,
		"(*sync/atomic.Pointer[T]).CompareAndSwap":  atomicCAS,
		"(*sync/atomic.Pointer[T]).Swap":            atomicSwap,
		"(*sync/atomic.Pointer[T]).Load":            atomicLoad,
		"(*sync/atomic.Pointer[T]).Store":           atomicStore,
		"(*sync/atomic.Value).Load":                 atomicLoad,
		"(*sync/atomic.Value).Store":                atomicStore,
		"sync/atomic.LoadInt32":                     atomicLoad,
		"sync/atomic.LoadInt64":                     atomicLoad,
		"sync/atomic.LoadUint32":                    atomicLoad,
		"sync/atomic.LoadUint64":                    atomicLoad,
		"sync/atomic.StoreInt32":                    atomicStore,
		"sync/atomic.StoreInt64":                    atomicStore,
		"sync/atomic.StoreUint32":                   atomicStore,
		"sync/atomic.StoreUint64":                   atomicStore,
		"sync/atomic.AddInt32":                      atomicAdd,
		"sync/atomic.AddInt64":                      atomicAdd,
		"sync/atomic.AddUint32":                     atomicAdd,
		"sync/atomic.AddUint64":                     atomicAdd,
		"sync/atomic.CompareAndSwapInt32":           atomicCAS,
		"sync/atomic.CompareAndSwapInt64":           atomicCAS,
		"sync/atomic.CompareAndSwapUint32":          atomicCAS,
		"sync/atomic.CompareAndSwapUint64":          atomicCAS,
		"maps.clone":                                mapsClone,
		"internal/runtime/maps.clone":               mapsClone,
		"os.runtime_args":                           nop,
		"internal/godebug.New":                      nop,
		"(*internal/godebug.Setting).Value":         nop,
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"math.Float64bits":                          ident(0),
		"math.Float64frombits":                      ident(0),
	}
}

// atomic values: the value is the last field
func atomicPtr(e *Engine, st *State, v Value, fn *ssa.Function) Ptr {
	p := e.pickAny(st, v).(Ptr)
	if fn.Signature.Recv() == nil {
		return p
	}
	t := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return Ptr{p.id, extend(p.path, pathEl{i: t.NumFields() - 1})}
}

func atomicLoad(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	w := e.loadPtr(st, atomicPtr(e, st, a[0], fn))
	v, scalar := w.(*Term)
	if !scalar {
		return w, false
	}
	if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return e.b.Not(e.b.Eq(v, e.b.Const(v.W, 0))), false
	}
	return v, false
}

// mapsClone copies the map in an interface
func mapsClone(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	i := e.pickAny(st, a[0]).(Iface)
	m := e.pickAny(st, i.v).(MapRef)
	if m.id == 0 {
		return i, false
	}
	n := e.newMap(st)
	old := st.obj(e, m.id).mp
	md := &MapData{ents: append([]mapEntry(nil), old.ents...), ix: map[string]int{}}
	for k, v := range old.ix {
		md.ix[k] = v
	}
	st.mut(n.id).mp = md
	return Iface{typ: i.typ, v: n}, false
}

// asTarget stores a value in the variable target points to, if its type allows
func asTarget(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	er := e.pickAny(st, a[0]).(Iface)
	tg := e.pickAny(st, a[1]).(Iface)
	pt, ok := tg.typ.(*types.Pointer)
	if !ok {
		e.unsupported("errors.As target")
	}
	p := e.pickAny(st, tg.v).(Ptr)
	t := pt.Elem()
	if it, ok := t.Underlying().(*types.Interface); ok {
		if !types.Implements(er.typ, it) {
			return e.b.False, false
		}
		e.storePtr(st, p, e.b.True, er)
		return e.b.True, false
	}
	if !types.Identical(er.typ, t) {
		return e.b.False, false
	}
	e.storePtr(st, p, e.b.True, er.v)
	return e.b.True, false
}

func quietStore(e *Engine, st *State, p Ptr, v Value) {
	wm := st.watermark
	st.watermark = 0
	e.storePtr(st, p, e.b.True, v)
	st.watermark = wm
}

// atomicWord turns a value into what an atomic holds
func atomicWord(e *Engine, st *State, p Ptr, v Value) Value {
	t, ok := v.(*Term)
	if !ok || t.W != 0 {
		return v
	}
	w := e.loadPtr(st, p).(*Term).W
	return e.b.Ite(t, e.b.Const(w, 1), e.b.Const(w, 0))
}

func atomicAdd(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	p := atomicPtr(e, st, a[0], fn)
	v := e.b.Bin(OpAdd, e.loadPtr(st, p).(*Term), a[1].(*Term))
	quietStore(e, st, p, v)
	return v, false
}

func atomicSwap(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	old, _ := atomicLoad(e, st, fn, a, dst)
	p := atomicPtr(e, st, a[0], fn)
	quietStore(e, st, p, atomicWord(e, st, p, a[1]))
	return old, false
}

func atomicCAS(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	p := atomicPtr(e, st, a[0], fn)
	old := e.loadPtr(st, p)
	if e.branch(st, e.eqVal(st, old, atomicWord(e, st, p, a[1]))) {
		quietStore(e, st, p, atomicWord(e, st, p, a[2]))
		return e.b.True, false
	}
	return e.b.False, false
}

const (
	lockFree = iota
	lockExcl
	lockShared
	lockTry
)

// lockOp takes and gives back locks; there is one thread, so that waiting for
// a lock that is held would go on for ever.
func lockOp(kind int) intrinsic {
	return func(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
		p := e.pickAny(st, a[0]).(Ptr)
		key := fmt.Sprint(p.id)
		for _, x := range p.path {
			key += "." + fmt.Sprint(x.i)
		}
		held := st.locks[key]
		set := func(n int) {
			m := map[string]int{}
			for k, v := range st.locks {
				m[k] = v
			}
			m[key] = n
			if n == 0 {
				delete(m, key)
			}
			st.locks = m
		}
		switch kind {
		case lockFree:
			if held < 0 {
				held = 1
			}
			if held > 0 {
				set(held - 1)
			}
		case lockTry:
			if held != 0 {
				return e.b.False, false
			}
			set(-1)
			return e.b.True, false
		default:
			if held < 0 || held > 0 && kind == lockExcl {
				v, m := e.check(st, nil, true)
				if v == Sat {
					e.violation(st, "nontermination", "waits for a lock that is never given back", m)
				}
				panic(killPath{"deadlock"})
			}
			if kind == lockExcl {
				set(-1)
			} else {
				set(held + 1)
			}
		}
		return nil, false
	}
}

func atomicStore(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	p := atomicPtr(e, st, a[0], fn)
	quietStore(e, st, p, atomicWord(e, st, p, a[1]))
	return nil, false
}

func makeNoZero(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	var res []Alt
	for _, l := range e.intAlts(st, a[0].(*Term)) {
		if l.v > 1<<20 {
			e.unsupported("slice too large")
		}
		n := growCap(0, int(l.v), 1)
		els := make([]Value, n)
		z := e.b.Const(8, 0)
		for i := range els {
			els[i] = z
		}
		res = append(res, Alt{l.g, SliceV{id: e.allocArr(st, els), len: int(l.v), cap: n}})
	}
	return e.mergeMany(res), false
}

func bytesEqual(e *Engine, st *State, fn *ssa.Function, a []Value, dst int) (Value, bool) {
	r := e.liftSt(st, a[0], func(_ *Term, x Value) Value {
		return e.liftSt(st, a[1], func(_ *Term, y Value) Value {
			p, q := e.bytesOf(st, x.(SliceV)), e.bytesOf(st, y.(SliceV))
			if len(p) != len(q) {
				return e.b.False
			}
			r := e.b.True
			for i := range p {
				r = e.b.And(r, e.b.Eq(p[i], q[i]))
			}
			return r
		})
	})
	return r, false
}

func (e *Engine) kindOf(i Iface) int {
	if i.typ == nil {
		return 0
	}
	ms := func(name string) bool {
		progMu.Lock()
		defer progMu.Unlock()
		s := e.prog.MethodSets.MethodSet(i.typ).Lookup(nil, name)
		if s == nil {
			return false
		}
		sg := s.Obj().Type().(*types.Signature)
		return sg.Params().Len() == 0 && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type())
	}
	if ms("Error") {
		return 5
	}
	if ms("String") {
		return 6
	}
	if b, ok := i.typ.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return 1
		case b.Info()&types.IsString != 0:
			return 4
		case b.Info()&types.IsUnsigned != 0:
			return 3
		case b.Info()&types.IsInteger != 0:
			return 2
		}
	}
	if isByteSlice(i.typ) {
		return 7
	}
	return 8
}

// lazySafe: formatting later gives the same text as formatting now
func (e *Engine) lazySafe(st *State, args Value) bool {
	if e.mergeLevel > 0 {
		return true
	}
	s, ok := args.(SliceV)
	if !ok {
		return false
	}
	ok = true
	var chk func(v Value)
	chk = func(v Value) {
		if u, isu := v.(UnionV); isu {
			for _, a := range u.alts {
				chk(a.v)
			}
			return
		}
		switch e.kindOf(v.(Iface)) {
		case 0, 1, 2, 3, 4:
		case 5:
			if n := v.(Iface).typ.String(); n != "*errors.errorString" && n != "*"+modelsPath+".fmtError" {
				ok = false
			}
		default:
			ok = false
		}
	}
	for _, v := range e.sliceElems(st, s) {
		chk(v)
	}
	return ok
}

// reachObjs visits the objects reachable from v
func (e *Engine) reachObjs(st *State, v Value, f func(id int) bool) {
	var obj func(id int)
	var val func(v Value)
	obj = func(id int) {
		if id == 0 || !f(id) {
			return
		}
		o := st.obj(e, id)
		if o.isArr {
			for _, x := range o.elems {
				val(x)
			}
		}
		if o.mp != nil {
			for _, en := range o.mp.ents {
				val(en.k)
				val(en.v)
			}
		}
		if o.val != nil {
			val(o.val)
		}
	}
	val = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			obj(x.id)
		case SliceV:
			obj(x.id)
		case MapRef:
			obj(x.id)
		case Iface:
			if x.typ != nil {
				val(x.v)
			}
		case FuncV:
			for _, y := range x.env {
				val(y)
			}
		case StructV:
			for _, y := range x {
				val(y)
			}
		case ArrayV:
			for _, y := range x {
				val(y)
			}
		case TupleV:
			for _, y := range x {
				val(y)
			}
		case UnionV:
			for _, a := range x.alts {
				val(a.v)
			}
		}
	}
	val(v)
}

// orderChoice picks which remaining map entry comes next: a symbolic choice
func (e *Engine) orderChoice(st *State, n int, id, step int) int {
	// the variable must be the same when the instruction is re-executed
	name := fmt.Sprintf("~order.%d.%d.%d", len(st.frames), st.top().inst, step)
	v := e.b.Var(name, 8)
	found := false
	for _, in := range st.inputs {
		if in.name == name {
			found = true
		}
	}
	if !found {
		st.input(name, "order", v)
	}
	e.assume(st, e.b.InSet(v, upTo(n)))
	for i := 0; i < n-1; i++ {
		var s Set256
		s.add(byte(i))
		if e.branch(st, e.b.InSet(v, s)) {
			return i
		}
	}
	return n - 1
}

func (e *Engine) frozenWrite(st *State, id int) {
	what := "an object shared between calls"
	if n, ok := st.frozen[id]; ok {
		what = n
	}
	pos := ""
	if t := e.trace(st); len(t) > 0 {
		pos = strings.TrimSpace(t[0])
	}
	m := st.model
	if m == nil || e.mergeLevel > 0 {
		v, mm := e.check(st, nil, true)
		if v != Sat {
			return
		}
		m = mm
	}
	e.violation(st, "write", "write to "+what+" in "+pos, m)
}

// assert decides pc ⇒ c
func (e *Engine) assert(st *State, c *Term, msg string) {
	e.stats.Asserts++
	switch e.quick(st, c) {
	case 1:
		e.stats.AssertsTriv++
		return
	}
	nc := e.b.Not(c)
	if st.model != nil && e.mergeLevel == 0 && e.b.Eval(c, st.model) == 0 {
		e.violation(st, "assert", msg, st.model)
		// go on where it holds
		v, m := e.check(st, c, true)
		if v != Sat {
			panic(killPath{"assert"})
		}
		e.addPC(st, c, false)
		st.model = m
		return
	}
	e.stats.AssertQ++
	v, m := e.check(st, nc, true)
	switch v {
	case Unsat:
		e.addPC(st, c, true)
	case Sat:
		e.violation(st, "assert", msg, m)
		e.addPC(st, c, false)
		if st.model != nil && e.b.Eval(c, st.model) != 1 {
			st.model = nil
		}
		if e.mergeLevel == 0 {
			e.ensureModel(st)
		}
	default:
		e.stats.Unknown++
		e.incomplete(st, "solver gave no answer on an assertion: "+msg)
		e.addPC(st, c, false)
		st.model = nil
	}
}

func (e *Engine) sample(st *State, label string, m *Model) {
	if len(e.samples) >= 6 {
		return
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %v: ", label, e.opts.Shards)
	for i, in := range st.inputs {
		if i > 24 {
			sb.WriteString(" …")
			break
		}
		fmt.Fprintf(&sb, "%s=%d ", in.name, e.b.Eval(in.t, m))
	}
	e.samples = append(e.samples, sb.String())
}

// ---- observations compared with native runs

type obsV struct {
	label string
	v     Value
}

type pathSample struct {
	values map[string]uint64
	obs    []string
}

func (e *Engine) concreteOf(v Value, m *Model) Value {
	for {
		u, ok := v.(UnionV)
		if !ok {
			return v
		}
		v = nil
		for _, a := range u.alts {
			if e.b.Eval(a.g, m) == 1 {
				v = a.v
				break
			}
		}
	}
}

func (e *Engine) renderObs(o obsV, m *Model) string {
	i, ok := e.concreteOf(o.v, m).(Iface)
	if !ok {
		return "obs " + o.label + " ?"
	}
	if i.typ == nil {
		return "obs " + o.label + " nil"
	}
	switch x := e.concreteOf(i.v, m).(type) {
	case *Term:
		u := e.b.Eval(x, m)
		if x.W == 0 {
			return fmt.Sprintf("obs %s %v", o.label, u == 1)
		}
		if _, sg, _ := scalarW(i.typ); sg {
			return fmt.Sprintf("obs %s %d", o.label, int64(u<<(64-x.W))>>(64-x.W))
		}
		return fmt.Sprintf("obs %s %d", o.label, u)
	case Str:
		b := []byte(x.s)
		if x.t != nil {
			b = b[:0]
			for _, t := range x.t {
				b = append(b, byte(e.b.Eval(t, m)))
			}
		}
		return fmt.Sprintf("obs %s %q", o.label, b)
	}
	return "obs " + o.label + " ?"
}

// samplePath keeps a few finished paths (reservoir sampling) for native runs
func (e *Engine) samplePath(st *State) {
	if st.model == nil || len(st.observ) == 0 {
		return
	}
	const keep = 4
	e.nsample++
	k := e.nsample - 1
	if k >= keep {
		h := uint64(e.nsample) * 0x9E3779B97F4A7C15
		h ^= h >> 29
		k = int(h % uint64(e.nsample))
		if k >= keep {
			return
		}
	}
	ps := pathSample{values: map[string]uint64{}}
	for _, in := range st.inputs {
		ps.values[in.name] = e.b.Eval(in.t, st.model)
	}
	for _, o := range st.observ {
		ps.obs = append(ps.obs, e.renderObs(o, st.model))
	}
	if k < len(e.psamples) {
		e.psamples[k] = ps
	} else {
		e.psamples = append(e.psamples, ps)
	}
}
