package main

// Intrinsics: harness API (package vx), model primitives (package vxm) and
// library functions that are executed outside the interpreter.

import (
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"go/types"
	"math/bits"
	"reflect"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	yaml "gopkg.in/yaml.v2"
)

type fallbackT struct{}

// fallback tells callFn to interpret the real function after all.
var fallback Value = fallbackT{}

const vxP = modPath + "/internal/vx."
const vmP = modPath + "/internal/vxm."

var intrinsics map[string]func(m *Machine, a []Value) Value
var globalInit = map[string]func(m *Machine, t types.Type) Value{}

func (m *Machine) cstr(v Value) string {
	s := v.(*Str)
	if !s.conc() {
		m.unsup("symbolic string where a concrete one is needed")
	}
	return s.s
}

func (m *Machine) addNondet(name, kind string, ts []*Term, base uint64) *Nondet {
	m.counts[name]++
	m.nondets = append(m.nondets, Nondet{name: name, kind: kind, ts: ts, base: base})
	return &m.nondets[len(m.nondets)-1]
}

func (m *Machine) freshBytes(n int) []*Term {
	out := make([]*Term, n)
	// 64-bit words so that block comparisons stay word sized
	for i := 0; i < n; {
		if n-i >= 8 {
			w := m.tb.Var(64, 0, mask(64), nil)
			for k := 0; k < 8; k++ {
				out[i+k] = m.tb.Extract(w, uint64(56-8*k), 8)
			}
			i += 8
			continue
		}
		out[i] = m.tb.Var(8, 0, 255, nil)
		i++
	}
	return out
}

func (m *Machine) errIface(msg string) Iface {
	t := m.eng.modelPkg.Type("modelError").Type()
	return Iface{t: t, v: mkStr(msg)}
}

func (m *Machine) boolArgs(v Value) []*Term {
	s := v.(SliceV)
	if s.arr == nil {
		return nil
	}
	n := m.concInt(s.len)
	out := make([]*Term, n)
	for i := range out {
		out[i] = s.arr.get(s.off + i).(*Term)
	}
	return out
}

func ifaceSlice(m *Machine, v Value) []Iface {
	s := v.(SliceV)
	if s.arr == nil {
		return nil
	}
	n := m.concInt(s.len)
	out := make([]Iface, n)
	for i := range out {
		out[i] = s.arr.get(s.off + i).(Iface)
	}
	return out
}

func init() {
	intrinsics = map[string]func(m *Machine, a []Value) Value{
		// ---- harness API ----
		vxP + "Byte": func(m *Machine, a []Value) Value {
			t := m.tb.Var(8, 0, 255, nil)
			m.addNondet(m.cstr(a[0]), "byte", []*Term{t}, 0)
			return t
		},
		vxP + "U32": func(m *Machine, a []Value) Value {
			t := m.tb.Var(32, 0, mask(32), nil)
			m.addNondet(m.cstr(a[0]), "u32", []*Term{t}, 0)
			return t
		},
		vxP + "U64": func(m *Machine, a []Value) Value {
			t := m.tb.Var(64, 0, mask(64), nil)
			m.addNondet(m.cstr(a[0]), "u64", []*Term{t}, 0)
			return t
		},
		vxP + "Bytes": func(m *Machine, a []Value) Value {
			n := m.concInt(a[1].(*Term))
			ts := make([]*Term, n)
			for i := range ts {
				ts[i] = m.tb.Var(8, 0, 255, nil)
			}
			m.addNondet(m.cstr(a[0]), "bytes", ts, 0)
			return m.termsSlice(ts)
		},
		vxP + "Words": func(m *Machine, a []Value) Value {
			n := m.concInt(a[1].(*Term))
			ts := m.freshBytes(n)
			m.addNondet(m.cstr(a[0]), "bytes", ts, 0)
			return m.termsSlice(ts)
		},
		vxP + "Key": func(m *Machine, a []Value) Value {
			n := m.concInt(a[1].(*Term))
			ts := m.freshBytes(n)
			m.addNondet(m.cstr(a[0]), "key", ts, 0)
			return m.termsSlice(ts)
		},
		vxP + "Bool": func(m *Machine, a []Value) Value {
			t := m.tb.Var(1, 0, 1, nil)
			m.addNondet(m.cstr(a[0]), "bool", []*Term{t}, 0)
			return m.tb.Eq(t, K(1, 1))
		},
		vxP + "Int": func(m *Machine, a []Value) Value {
			lo, hi := m.concInt(a[1].(*Term)), m.concInt(a[2].(*Term))
			if hi < lo {
				panic(&pathEnd{kind: endAssume})
			}
			t := m.tb.Var(64, 0, uint64(hi-lo), nil)
			m.addNondet(m.cstr(a[0]), "int", []*Term{t}, uint64(int64(lo)))
			return m.tb.Add(t, I64(lo))
		},
		vxP + "Choose": func(m *Machine, a []Value) Value {
			n := m.concInt(a[1].(*Term))
			k := m.choose(n)
			m.addNondet(m.cstr(a[0]), "choose", nil, uint64(k))
			return I64(k)
		},
		vxP + "Conc": func(m *Machine, a []Value) Value {
			return K(64, m.concretize(a[0].(*Term), 4096))
		},
		vxP + "Assume": func(m *Machine, a []Value) Value { m.assume(a[0].(*Term)); return nil },
		vxP + "Assert": func(m *Machine, a []Value) Value {
			m.assertProp(a[0].(*Term), m.cstr(a[1]))
			return nil
		},
		vxP + "Reach": func(m *Machine, a []Value) Value { m.reached[m.cstr(a[0])] = true; return nil },
		vxP + "Tamper": func(m *Machine, a []Value) Value {
			orig := m.sliceTerms(a[1].(SliceV))
			n := m.concInt(a[2].(*Term))
			ts := m.freshBytes(n)
			nd := m.addNondet(m.cstr(a[0]), "tamper", ts, 0)
			nd.orig = orig
			return m.termsSlice(ts)
		},
		vxP + "Thorough": func(m *Machine, a []Value) Value { return KB(m.eng.opt.tier == "thorough") },
		vxP + "Native":   func(m *Machine, a []Value) Value { return tFalse },
		vxP + "And": func(m *Machine, a []Value) Value {
			r := tTrue
			for _, t := range m.boolArgs(a[0]) {
				r = m.tb.And(r, t)
			}
			return r
		},
		vxP + "Or": func(m *Machine, a []Value) Value {
			r := tFalse
			for _, t := range m.boolArgs(a[0]) {
				r = m.tb.Or(r, t)
			}
			return r
		},
		vxP + "Implies": func(m *Machine, a []Value) Value {
			return m.tb.Or(m.tb.Not(a[0].(*Term)), a[1].(*Term))
		},
		vxP + "Eq": func(m *Machine, a []Value) Value {
			x, y := m.sliceTerms(a[0].(SliceV)), m.sliceTerms(a[1].(SliceV))
			if len(x) != len(y) {
				return tFalse
			}
			return m.tb.BytesEq(x, y)
		},
		vxP + "EqStr": func(m *Machine, a []Value) Value { return m.strEq(a[0].(*Str), a[1].(*Str)) },
		vmP + "iteByte": func(m *Machine, a []Value) Value {
			return m.tb.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		vxP + "IteByte": func(m *Machine, a []Value) Value {
			return m.tb.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		vxP + "IntText": func(m *Machine, a []Value) Value {
			t := a[0].(*Term)
			if t.op == OConst {
				return mkStr(fmt.Sprint(int64(t.val)))
			}
			return mkStr(m.newTok([]*Term{t}, "int", 6))
		},
		vxP + "Log": func(m *Machine, a []Value) Value { return nil },

		// ---- model primitives ----
		vmP + "oracle": func(m *Machine, a []Value) Value {
			dom := m.cstr(a[0])
			n, fl := m.concInt(a[1].(*Term)), m.concInt(a[2].(*Term))
			var parts [][]*Term
			ps := a[3].(SliceV)
			if ps.arr != nil {
				k := m.concInt(ps.len)
				for i := 0; i < k; i++ {
					parts = append(parts, m.sliceTerms(ps.arr.get(ps.off+i).(SliceV)))
				}
			}
			return m.termsSlice(m.Oracle(dom, n, fl, parts))
		},
		vmP + "same": func(m *Machine, a []Value) Value {
			x, y := m.sliceTerms(a[0].(SliceV)), m.sliceTerms(a[1].(SliceV))
			if len(x) != len(y) {
				return tFalse
			}
			for i := range x {
				if m.tb.norm(x[i]) != m.tb.norm(y[i]) {
					return tFalse
				}
			}
			return tTrue
		},
		// a number that is the same for the same bytes (until more is known about them)
		vmP + "fpr": func(m *Machine, a []Value) Value {
			h := uint64(14695981039346656037)
			for _, t := range m.sliceTerms(a[0].(SliceV)) {
				t = m.tb.norm(t)
				v := uint64(t.id)<<1 | 1
				if t.op == OConst {
					v = t.val << 1
				}
				h = (h ^ v) * 1099511628211
				h ^= h >> 29
			}
			return K(64, h)
		},
		vmP + "eq": func(m *Machine, a []Value) Value {
			x, y := m.sliceTerms(a[0].(SliceV)), m.sliceTerms(a[1].(SliceV))
			if len(x) != len(y) {
				return tFalse
			}
			return m.tb.BytesEq(x, y)
		},
		vmP + "and2":   func(m *Machine, a []Value) Value { return m.tb.And(a[0].(*Term), a[1].(*Term)) },
		vmP + "or2":    func(m *Machine, a []Value) Value { return m.tb.Or(a[0].(*Term), a[1].(*Term)) },
		vmP + "assume": func(m *Machine, a []Value) Value { m.assume(a[0].(*Term)); return nil },
		vmP + "unsup":  func(m *Machine, a []Value) Value { m.unsup("model: %s", m.cstr(a[0])); return nil },
		vmP + "conc":   func(m *Machine, a []Value) Value { return K(64, m.concretize(a[0].(*Term), m.eng.opt.concLimit)) },
		vmP + "concB":  func(m *Machine, a []Value) Value { return KB(m.branch(a[0].(*Term))) },
		vmP + "choose": func(m *Machine, a []Value) Value { return I64(m.choose(m.concInt(a[0].(*Term)))) },
		vmP + "isConst": func(m *Machine, a []Value) Value {
			_, ok := concBytes(m.sliceTerms(a[0].(SliceV)))
			return KB(ok)
		},
		vmP + "montBE": func(m *Machine, a []Value) Value {
			y := m.sliceTerms(a[0].(SliceV))
			return m.termsSlice(m.mont(y))
		},
		vmP + "sprintf": func(m *Machine, a []Value) Value {
			return m.sprintf(a[0].(*Str), ifaceSlice(m, a[1]))
		},
		vmP + "sprint": func(m *Machine, a []Value) Value {
			r := emptyStr
			for i, x := range ifaceSlice(m, a[0]) {
				if i > 0 && a[1].(*Term).val != 0 {
					r = strCat(r, mkStr(" "))
				}
				r = strCat(r, m.fmtOne(x, 'v', "%v"))
			}
			return r
		},
		vmP + "comparable": func(m *Machine, a []Value) Value {
			i := a[0].(Iface)
			return KB(i.t == nil || types.Comparable(i.t))
		},
		vmP + "event": func(m *Machine, a []Value) Value {
			m.events = append(m.events, m.cstr(a[0]))
			return nil
		},
		vmP + "resetGlobals": func(m *Machine, a []Value) Value {
			for g := range m.globals {
				if p := g.Pkg; p != nil {
					pp := p.Pkg.Path()
					if strings.HasPrefix(pp, modPath) && !strings.Contains(pp, "/internal/vx") || strings.HasPrefix(pp, "github.com/opencoff/") && !strings.HasPrefix(pp, modPath) {
						delete(m.globals, g)
					}
				}
			}
			return nil
		},
		vmP + "runMain": func(m *Machine, a []Value) Value {
			fn := m.eng.mainPkg.Func("main")
			m.inTool++
			d, n := m.depth, len(m.stack)
			code := func() (c *Term) {
				defer func() {
					if r := recover(); r != nil {
						switch x := r.(type) {
						case *exitPanic:
							c = x.code
						default:
							panic(r)
						}
						m.depth, m.stack = d, m.stack[:n]
					}
				}()
				m.callFn(fn, nil, nil, nil)
				return K(64, 0)
			}()
			m.inTool--
			return code
		},
		vmP + "faultArm": func(m *Machine, a []Value) Value {
			m.addNondet("fault", "fault", nil, 0)
			return nil
		},
		vmP + "faultFired": func(m *Machine, a []Value) Value {
			for i := len(m.nondets) - 1; i >= 0; i-- {
				if m.nondets[i].kind == "fault" {
					m.nondets[i].lit = fmt.Sprintf("%s:%d", m.cstr(a[0]), m.concInt(a[1].(*Term)))
					break
				}
			}
			return nil
		},
		vmP + "exit": func(m *Machine, a []Value) Value { panic(&exitPanic{code: a[0].(*Term)}) },

		// ---- library ----
		"errors.As": func(m *Machine, a []Value) Value { return m.errorsAs(a[0].(Iface), a[1].(Iface)) },
		"bytes.Equal": func(m *Machine, a []Value) Value {
			x, y := a[0].(SliceV), a[1].(SliceV)
			if !m.branch(m.tb.Eq(x.len, y.len)) {
				return tFalse
			}
			return m.tb.BytesEq(m.sliceTerms(x), m.sliceTerms(y))
		},
		"bytes.Compare":                  bytesCompare,
		"internal/bytealg.Compare":       bytesCompare,
		"internal/bytealg.CompareString": strCompare,
		"strings.Compare":                strCompare,
		"cmp.Compare":                    fallbackFn,
		"crypto/subtle.ConstantTimeCompare": func(m *Machine, a []Value) Value {
			x, y := a[0].(SliceV), a[1].(SliceV)
			if !m.branch(m.tb.Eq(x.len, y.len)) {
				return I64(0)
			}
			c := m.tb.BytesEq(m.sliceTerms(x), m.sliceTerms(y))
			return m.tb.Ite(c, I64(1), I64(0))
		},
		"internal/bytealg.IndexByte": func(m *Machine, a []Value) Value {
			return m.indexByte(m.sliceTerms(a[0].(SliceV)), a[1].(*Term))
		},
		"internal/bytealg.IndexByteString": func(m *Machine, a []Value) Value {
			return m.indexByte(a[0].(*Str).Bytes(), a[1].(*Term))
		},
		"internal/bytealg.LastIndexByte": func(m *Machine, a []Value) Value {
			return m.lastIndexByte(m.sliceTerms(a[0].(SliceV)), a[1].(*Term))
		},
		"internal/bytealg.LastIndexByteString": func(m *Machine, a []Value) Value {
			return m.lastIndexByte(a[0].(*Str).Bytes(), a[1].(*Term))
		},
		"internal/bytealg.Count": func(m *Machine, a []Value) Value {
			return m.countByte(m.sliceTerms(a[0].(SliceV)), a[1].(*Term))
		},
		"internal/bytealg.CountString": func(m *Machine, a []Value) Value {
			return m.countByte(a[0].(*Str).Bytes(), a[1].(*Term))
		},
		"bytes.Index": func(m *Machine, a []Value) Value {
			return m.index(m.sliceTerms(a[0].(SliceV)), m.sliceTerms(a[1].(SliceV)))
		},
		"strings.Index": func(m *Machine, a []Value) Value {
			return m.index(a[0].(*Str).Bytes(), a[1].(*Str).Bytes())
		},
		"internal/stringslite.Index": func(m *Machine, a []Value) Value {
			return m.index(a[0].(*Str).Bytes(), a[1].(*Str).Bytes())
		},
		"internal/bytealg.MakeNoZero": func(m *Machine, a []Value) Value {
			return m.makeSlice(byteT, a[0].(*Term), a[0].(*Term))
		},
		"internal/abi.NoEscape":                     func(m *Machine, a []Value) Value { return a[0] },
		"internal/abi.Escape":                       func(m *Machine, a []Value) Value { return a[0] },
		"strings.noescape":                          func(m *Machine, a []Value) Value { return a[0] },
		"(*strings.Builder).copyCheck":              func(m *Machine, a []Value) Value { return nil },
		"internal/godebug.New":                      func(m *Machine, a []Value) Value { return Ptr{} },
		"(*internal/godebug.Setting).Value":         func(m *Machine, a []Value) Value { return emptyStr },
		"(*internal/godebug.Setting).IncNonDefault": func(m *Machine, a []Value) Value { return nil },
		"runtime.KeepAlive":                         func(m *Machine, a []Value) Value { return nil },
		"runtime.SetFinalizer":                      func(m *Machine, a []Value) Value { return nil },
		"runtime.GC":                                func(m *Machine, a []Value) Value { return nil },
		"math/bits.Len64":                           func(m *Machine, a []Value) Value { return m.bitsLen(a[0].(*Term)) },
		"math/bits.Len32":                           func(m *Machine, a []Value) Value { return m.bitsLen(a[0].(*Term)) },
		"math/bits.Len":                             func(m *Machine, a []Value) Value { return m.bitsLen(a[0].(*Term)) },
		"math/bits.Mul64":                           fallbackFn,

		"(*encoding/base64.Encoding).EncodeToString": b64Encode,
		"(*encoding/base64.Encoding).DecodeString":   b64Decode,
		"(*encoding/base64.Encoding).Encode":         b64EncodeTo,
		"(*encoding/base64.Encoding).Decode":         b64DecodeTo,
		"encoding/pem.Decode":                        pemDecode,
		"encoding/pem.EncodeToMemory":                pemEncode,
		"gopkg.in/yaml.v2.Marshal":                   yamlMarshal,
		"gopkg.in/yaml.v2.Unmarshal":                 yamlUnmarshal,
		"gopkg.in/yaml.v2.UnmarshalStrict":           yamlUnmarshal,
		"golang.org/x/crypto/ssh.Unmarshal":          sshUnmarshal,

		"regexp.MustCompile": func(m *Machine, a []Value) Value {
			return Ptr{base: &natRegexp{regexp.MustCompile(m.cstr(a[0]))}}
		},
		"(*regexp.Regexp).Split": regexpSplit,
		"(*regexp.Regexp).MatchString": func(m *Machine, a []Value) Value {
			return KB(a[0].(Ptr).base.(*natRegexp).re.MatchString(m.cstr(a[1])))
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		"internal/reflectlite.TypeOf": func(m *Machine, a []Value) Value { m.unsup("reflectlite"); return nil },
	}
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		n := n
		intrinsics["sync/atomic.Load"+n] = func(m *Machine, a []Value) Value { return m.load(a[0].(Ptr)) }
		intrinsics["sync/atomic.Store"+n] = func(m *Machine, a []Value) Value { m.store(a[0].(Ptr), a[1]); return nil }
		intrinsics["sync/atomic.Add"+n] = func(m *Machine, a []Value) Value {
			v := m.tb.Add(m.load(a[0].(Ptr)).(*Term), a[1].(*Term))
			m.store(a[0].(Ptr), v)
			return v
		}
		intrinsics["sync/atomic.Swap"+n] = func(m *Machine, a []Value) Value {
			v := m.load(a[0].(Ptr))
			m.store(a[0].(Ptr), a[1])
			return v
		}
		intrinsics["sync/atomic.CompareAndSwap"+n] = func(m *Machine, a []Value) Value {
			v := m.load(a[0].(Ptr)).(*Term)
			if m.branch(m.tb.Eq(v, a[1].(*Term))) {
				m.store(a[0].(Ptr), a[2])
				return tTrue
			}
			return tFalse
		}
	}
	intrinsics["sync/atomic.LoadPointer"] = func(m *Machine, a []Value) Value { return m.load(a[0].(Ptr)) }
	intrinsics["sync/atomic.StorePointer"] = func(m *Machine, a []Value) Value { m.store(a[0].(Ptr), a[1]); return nil }
	intrinsics["sync/atomic.CompareAndSwapPointer"] = func(m *Machine, a []Value) Value {
		if ptrEq(m.load(a[0].(Ptr)).(Ptr), a[1].(Ptr)) {
			m.store(a[0].(Ptr), a[2])
			return tTrue
		}
		return tFalse
	}
	nop := func(m *Machine, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock"} {
		intrinsics[n] = nop
	}
	intrinsics["(*sync.Mutex).TryLock"] = func(m *Machine, a []Value) Value { return tTrue }
	intrinsics["(*sync.Pool).Get"] = func(m *Machine, a []Value) Value {
		s := derefStruct(m, a[0].(Ptr))
		f, _ := s.f[len(s.f)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return m.callClosure(f, nil, nil)
	}
	bigInit()
}

func fallbackFn(m *Machine, a []Value) Value { return fallback }

type natRegexp struct{ re *regexp.Regexp }

func bytesCompare(m *Machine, a []Value) Value {
	x, y := m.sliceTerms(a[0].(SliceV)), m.sliceTerms(a[1].(SliceV))
	return m.compare(x, y)
}

func strCompare(m *Machine, a []Value) Value {
	return m.compare(a[0].(*Str).Bytes(), a[1].(*Str).Bytes())
}

func (m *Machine) compare(x, y []*Term) Value {
	eq := tFalse
	if len(x) == len(y) {
		eq = m.tb.BytesEq(x, y)
	}
	return m.tb.Ite(eq, I64(0), m.tb.Ite(m.bytesLess(x, y), I64(-1), I64(1)))
}

func (m *Machine) indexByte(x []*Term, c *Term) Value {
	for i, t := range x {
		if m.branch(m.tb.Eq(t, c)) {
			return I64(i)
		}
	}
	return I64(-1)
}

func (m *Machine) lastIndexByte(x []*Term, c *Term) Value {
	for i := len(x) - 1; i >= 0; i-- {
		if m.branch(m.tb.Eq(x[i], c)) {
			return I64(i)
		}
	}
	return I64(-1)
}

func (m *Machine) countByte(x []*Term, c *Term) Value {
	r := I64(0)
	for _, t := range x {
		r = m.tb.Add(r, m.tb.Ite(m.tb.Eq(t, c), I64(1), I64(0)))
	}
	return r
}

func (m *Machine) index(x, y []*Term) Value {
	if xb, ok := concBytes(x); ok {
		if yb, ok := concBytes(y); ok {
			return I64(strings.Index(string(xb), string(yb)))
		}
	}
	for i := 0; i+len(y) <= len(x); i++ {
		if m.branch(m.tb.BytesEq(x[i:i+len(y)], y)) {
			return I64(i)
		}
	}
	return I64(-1)
}

func (m *Machine) bitsLen(t *Term) Value {
	if t.op == OConst {
		return I64(bits.Len64(t.val))
	}
	r := I64(0)
	for i := 0; i < int(t.w); i++ {
		if bits.Len64(t.umax) <= i {
			break
		}
		r = m.tb.Ite(m.tb.Ult(t, K(t.w, 1<<uint(i))), r, I64(i+1))
	}
	return r
}

// ---- tokens ----

func (m *Machine) newTok(b []*Term, enc string, n int) string {
	key := enc + "|" + m.partKey(b)
	for i, t := range m.toks {
		if t.enc+"|"+m.partKey(t.bytes) == key {
			return m.toks[i].text
		}
	}
	r := string(rune(0xE000 + len(m.toks)))
	for len(r) < n {
		r += "A"
	}
	m.toks = append(m.toks, token{bytes: append([]*Term(nil), b...), enc: enc, text: r})
	return r
}

// findTok returns the token if s is exactly one token.
func (m *Machine) findTok(s string) *token {
	for i, r := range s {
		if i == 0 && r >= 0xE000 && int(r-0xE000) < len(m.toks) {
			t := &m.toks[r-0xE000]
			if t.text == s {
				return t
			}
		}
		break
	}
	return nil
}

// expand turns a string with base64 tokens into its characters.
func (m *Machine) expand(s string) []*Term {
	var out []*Term
	for len(s) > 0 {
		var r rune
		for _, r = range s {
			break
		}
		if r >= 0xE000 && int(r-0xE000) < len(m.toks) {
			t := &m.toks[r-0xE000]
			ch := m.tokChars(t)
			n := 3
			for n < len(s) && n < len(ch) && s[n] == 'A' {
				n++
			}
			out = append(out, ch[:n]...)
			s = s[n:]
			continue
		}
		out = append(out, K(8, uint64(s[0])))
		s = s[1:]
	}
	return out
}

// expandTerms does the same in a string that is partly symbolic.
func (m *Machine) expandTerms(b []*Term) []*Term {
	has := false
	for _, t := range b {
		if t.op == OConst && t.val == 0xEE {
			has = true
		}
	}
	if !has {
		return b
	}
	var out []*Term
	for i := 0; i < len(b); {
		j := i
		var run []byte
		for j < len(b) && b[j].op == OConst {
			run = append(run, byte(b[j].val))
			j++
		}
		if j == i {
			out = append(out, b[i])
			i++
			continue
		}
		out = append(out, m.expand(string(run))...)
		i = j
	}
	return out
}

func (m *Machine) tokChars(t *token) []*Term {
	if !strings.HasPrefix(t.enc, "b64:") {
		m.unsup("character view of a %s token", t.enc)
	}
	alpha := t.enc[4:68]
	pad := t.enc[68:]
	tb := m.tb
	enc6 := func(v *Term) *Term {
		// v: 8-bit value < 64
		if v.op == OConst {
			return K(8, uint64(alpha[v.val]))
		}
		var build func(lo, hi int) *Term
		build = func(lo, hi int) *Term {
			if lo == hi {
				return K(8, uint64(alpha[lo]))
			}
			md := (lo + hi) / 2
			return tb.Ite(tb.Ult(v, K(8, uint64(md+1))), build(lo, md), build(md+1, hi))
		}
		return build(0, 63)
	}
	z6 := func(x *Term, lo uint64, w uint8) *Term { return tb.ZExt(tb.Extract(x, lo, w), 8) }
	var out []*Term
	b := t.bytes
	for i := 0; i < len(b); i += 3 {
		n := len(b) - i
		g := func(k int) *Term {
			if i+k < len(b) {
				return b[i+k]
			}
			return K(8, 0)
		}
		b0, b1, b2 := g(0), g(1), g(2)
		cs := []*Term{z6(b0, 2, 6),
			tb.BOr(tb.Shl(z6(b0, 0, 2), K(8, 4)), z6(b1, 4, 4)),
			tb.BOr(tb.Shl(z6(b1, 0, 4), K(8, 2)), z6(b2, 6, 2)),
			z6(b2, 0, 6)}
		for k := 0; k < 4; k++ {
			if k <= n {
				out = append(out, enc6(cs[k]))
			} else if pad != "" {
				out = append(out, K(8, uint64(pad[0])))
			}
		}
	}
	return out
}

func (m *Machine) tokEq(a, b string) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	ta, tb := m.findTok(a), m.findTok(b)
	if ta != nil && tb != nil && ta.enc == tb.enc {
		if len(ta.bytes) != len(tb.bytes) {
			return tFalse
		}
		return m.tb.BytesEq(ta.bytes, tb.bytes)
	}
	x, y := m.expand(a), m.expand(b)
	if len(x) != len(y) {
		return tFalse
	}
	return m.tb.BytesEq(x, y)
}

func b64Kind(m *Machine, p Value) (string, *base64.Encoding, bool) {
	s := derefStruct(m, p.(Ptr))
	arr := s.f[0].(*ArrObj)
	var al []byte
	for i := 0; i < 64; i++ {
		t := arr.get(i).(*Term)
		if t.op != OConst {
			return "", nil, false
		}
		al = append(al, byte(t.val))
	}
	pad := int32(s.f[2].(*Term).val)
	strict := s.f[3].(*Term).val != 0
	enc := base64.NewEncoding(string(al)).WithPadding(rune(pad))
	if strict {
		enc = enc.Strict()
	}
	k := "b64:" + string(al)
	if pad >= 0 {
		k += string(rune(pad))
	}
	return k, enc, true
}

func b64Encode(m *Machine, a []Value) Value {
	k, enc, ok := b64Kind(m, a[0])
	if !ok {
		return fallback
	}
	b := m.sliceTerms(a[1].(SliceV))
	if cb, ok := concBytes(b); ok {
		return mkStr(enc.EncodeToString(cb))
	}
	return mkStr(m.newTok(b, k, enc.EncodedLen(len(b))))
}

func b64Decode(m *Machine, a []Value) Value {
	k, enc, ok := b64Kind(m, a[0])
	if !ok {
		return fallback
	}
	s := a[1].(*Str)
	if !s.conc() {
		a[1] = strOf(m.expandTerms(s.b))
		return fallback
	}
	if !hasTok(s.s) {
		b, err := enc.DecodeString(s.s)
		e := Iface{}
		if err != nil {
			e = m.errIface(err.Error())
		}
		return Tuple{spare(m.concSlice(b), enc.DecodedLen(len(s.s))), e}
	}
	if t := m.findTok(s.s); t != nil && t.enc == k {
		return Tuple{spare(m.termsSlice(t.bytes), enc.DecodedLen(len(s.s))), Iface{}}
	}
	// mixed text: decode the characters with the real code
	a[1] = strOf(m.expand(s.s))
	return fallback
}

// b64EncodeTo models Encode(dst, src).
func b64EncodeTo(m *Machine, a []Value) Value {
	k, enc, ok := b64Kind(m, a[0])
	dst := a[1].(SliceV)
	b := m.sliceTerms(a[2].(SliceV))
	n := enc.EncodedLen(len(b))
	if _, conc := concBytes(b); !ok || conc || m.concInt(dst.len) < n || n < 3 {
		return fallback
	}
	for i, c := range []byte(m.newTok(b, k, n)) {
		dst.arr.set(dst.off+i, K(8, uint64(c)))
	}
	return nil
}

// b64DecodeTo models Decode(dst, src).
func b64DecodeTo(m *Machine, a []Value) Value {
	k, _, ok := b64Kind(m, a[0])
	if !ok {
		return fallback
	}
	dst := a[1].(SliceV)
	ts := m.sliceTerms(a[2].(SliceV))
	if cb, conc := concBytes(ts); conc {
		if !hasTok(string(cb)) {
			return fallback
		}
		if t := m.findTok(string(cb)); t != nil && t.enc == k && m.concInt(dst.len) >= len(t.bytes) {
			for i, x := range t.bytes {
				dst.arr.set(dst.off+i, x)
			}
			return Tuple{I64(len(t.bytes)), Iface{}}
		}
	}
	if ex := m.expandTerms(ts); len(ex) == 0 || &ex[0] != &ts[0] {
		a[2] = m.termsSlice(ex)
	}
	return fallback
}

// spare gives a slice the zeroed room behind its length that the library leaves.
func spare(s SliceV, n int) SliceV {
	l := len(s.arr.data)
	for i := l; i < n; i++ {
		s.arr.data = append(s.arr.data, K(8, 0))
	}
	if n > l {
		s.arr.n = I64(n)
		s.cap = s.arr.n
	}
	return s
}

func pemEncode(m *Machine, a []Value) Value {
	st := derefStruct(m, a[0].(Ptr))
	typ := m.cstr(st.f[0])
	hdr := map[string]string{}
	if mv := st.f[1].(*MapV); mv != nil {
		for _, e := range mv.ents {
			hdr[m.cstr(e.k)] = m.cstr(e.v)
		}
	}
	b := m.sliceTerms(st.f[2].(SliceV))
	if cb, ok := concBytes(b); ok {
		return m.concSlice(pem.EncodeToMemory(&pem.Block{Type: typ, Headers: hdr, Bytes: cb}))
	}
	if len(hdr) > 0 {
		m.unsup("pem headers with symbolic body")
	}
	tok := m.newTok(b, "pem", base64.StdEncoding.EncodedLen(len(b)))
	return m.concSlice([]byte("-----BEGIN " + typ + "-----\n" + tok + "\n-----END " + typ + "-----\n"))
}

func pemDecode(m *Machine, a []Value) Value {
	in := a[0].(SliceV)
	ts := m.sliceTerms(in)
	cb, ok := concBytes(ts)
	if !ok {
		m.unsup("pem.Decode of raw symbolic text")
	}
	bt := m.eng.pkgs["encoding/pem"].Type("Block").Type()
	mk := func(typ string, hdr map[string]string, b SliceV) Value {
		st := zeroVal(bt).(*StructObj)
		st.f[0] = mkStr(typ)
		mv := newMap(bt.Underlying().(*types.Struct).Field(1).Type().Underlying().(*types.Map))
		var ks []string
		for k := range hdr {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.mapSet(mv, mkStr(k), mkStr(hdr[k]))
		}
		st.f[1] = mv
		st.f[2] = b
		return Ptr{base: &Cell{v: st}}
	}
	txt := string(cb)
	if !hasTok(txt) {
		b, rest := pem.Decode(cb)
		if b == nil {
			return Tuple{Ptr{}, a[0]}
		}
		return Tuple{mk(b.Type, b.Headers, m.concSlice(b.Bytes)), m.concSlice(rest)}
	}
	// one token body: replace it by a valid base64 text of the same bytes length and decode natively
	for i := range m.toks {
		t := &m.toks[i]
		if (t.enc == "pem" || strings.HasPrefix(t.enc, "b64:ABC")) && strings.Contains(txt, t.text) {
			fake := base64.StdEncoding.EncodeToString(make([]byte, len(t.bytes)))
			b, rest := pem.Decode([]byte(strings.Replace(txt, t.text, fake, 1)))
			if b == nil || hasTok(string(rest)) || len(b.Bytes) != len(t.bytes) {
				return Tuple{Ptr{}, a[0]}
			}
			return Tuple{mk(b.Type, b.Headers, m.termsSlice(t.bytes)), m.concSlice(rest)}
		}
	}
	m.unsup("pem.Decode with foreign token")
	return nil
}

// ---- yaml ----

func (m *Machine) yamlStruct(t types.Type) (*types.Struct, reflect.Type, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	var fs []reflect.StructField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		var rt reflect.Type
		if isString(f.Type()) {
			rt = reflect.TypeOf("")
		} else if w, sg := width(f.Type()); w == 0 {
			rt = reflect.TypeOf(false)
		} else if w != 255 {
			switch {
			case sg && w == 64:
				rt = reflect.TypeOf(int64(0))
			case sg && w == 32:
				rt = reflect.TypeOf(int32(0))
			case w == 64:
				rt = reflect.TypeOf(uint64(0))
			case w == 32:
				rt = reflect.TypeOf(uint32(0))
			default:
				return nil, nil, false
			}
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				rt = reflect.TypeOf(int(0))
			}
		} else {
			return nil, nil, false
		}
		fs = append(fs, reflect.StructField{Name: f.Name(), Type: rt, Tag: reflect.StructTag(st.Tag(i))})
	}
	return st, reflect.StructOf(fs), true
}

func yamlMarshal(m *Machine, a []Value) Value {
	iv := a[0].(Iface)
	t := iv.t
	var so *StructObj
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		so = derefStruct(m, iv.v.(Ptr))
	} else if s, ok := iv.v.(*StructObj); ok {
		so = s
	}
	st, rt, ok := m.yamlStruct(t)
	if !ok || so == nil {
		m.unsup("yaml.Marshal of %s", iv.t)
	}
	rv := reflect.New(rt).Elem()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		fv := rv.FieldByName(f.Name())
		switch x := so.f[i].(type) {
		case *Str:
			fv.SetString(m.cstr(x))
		case *Term:
			c := m.concretize(x, m.eng.opt.concLimit)
			switch {
			case x.w == 0:
				fv.SetBool(c != 0)
			case fv.CanInt():
				fv.SetInt(sx(c, x.w))
			default:
				fv.SetUint(c)
			}
		}
	}
	b, err := yaml.Marshal(rv.Interface())
	if err != nil {
		return Tuple{nilSlice(), m.errIface(err.Error())}
	}
	return Tuple{m.concSlice(b), Iface{}}
}

func yamlUnmarshal(m *Machine, a []Value) Value {
	in, ok := concBytes(m.sliceTerms(a[0].(SliceV)))
	if !ok {
		m.unsup("yaml.Unmarshal of raw symbolic text")
	}
	iv := a[1].(Iface)
	pt, ok := iv.t.Underlying().(*types.Pointer)
	if !ok {
		m.unsup("yaml.Unmarshal into %s", iv.t)
	}
	st, rt, ok := m.yamlStruct(pt.Elem())
	if !ok {
		m.unsup("yaml.Unmarshal into %s", iv.t)
	}
	so := derefStruct(m, iv.v.(Ptr))
	// integer tokens: decode into a loosely typed copy
	intTok := false
	for _, t := range m.toks {
		if t.enc == "int" && strings.Contains(string(in), t.text) {
			intTok = true
		}
	}
	if intTok {
		var fs []reflect.StructField
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if f.Type.Kind() != reflect.String {
				f.Type = reflect.TypeOf((*interface{})(nil)).Elem()
			}
			fs = append(fs, f)
		}
		rt = reflect.StructOf(fs)
	}
	rv := reflect.New(rt)
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("yaml panic: %v", r)
			}
		}()
		err = yaml.Unmarshal(in, rv.Interface())
	}()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		fv := rv.Elem().FieldByName(f.Name())
		w, _ := width(f.Type())
		switch {
		case fv.Kind() == reflect.String:
			so.f[i] = mkStr(fv.String())
		case fv.Kind() == reflect.Interface:
			switch x := fv.Interface().(type) {
			case int:
				so.f[i] = K(w, uint64(x))
			case string:
				if t := m.findTok(x); t != nil && t.enc == "int" {
					so.f[i] = m.tb.Extract(m.tb.ZExt(t.bytes[0], 64), 0, w)
				} else {
					err = fmt.Errorf("yaml: cannot unmarshal !!str into int")
				}
			case nil:
			default:
				m.unsup("yaml integer field from %T", x)
			}
		case fv.CanInt():
			so.f[i] = K(w, uint64(fv.Int()))
		case fv.CanUint():
			so.f[i] = K(w, fv.Uint())
		case fv.Kind() == reflect.Bool:
			so.f[i] = KB(fv.Bool())
		}
	}
	if err != nil {
		return m.errIface(err.Error())
	}
	return Iface{}
}

// ---- ssh wire ----

func sshUnmarshal(m *Machine, a []Value) Value {
	tb := m.tb
	data := a[0].(SliceV)
	iv := a[1].(Iface)
	pt := iv.t.Underlying().(*types.Pointer)
	st := pt.Elem().Underlying().(*types.Struct)
	so := derefStruct(m, iv.v.(Ptr))
	short := func() Value { return m.errIface("ssh: unmarshal error: short read") }
	n := m.concInt(data.len)
	ts := m.sliceTerms(data)
	pos := 0
	if n == 0 && st.NumFields() > 0 {
		return short()
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		tag := reflect.StructTag(st.Tag(i)).Get("ssh")
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				l, rest, ok := m.sshString(ts, pos)
				if !ok {
					return short()
				}
				so.f[i] = strOf(ts[pos+4 : pos+4+l])
				pos = rest
				continue
			}
			switch u.Kind() {
			case types.Bool:
				if pos >= n {
					return short()
				}
				so.f[i] = tb.Not(tb.Eq(ts[pos], K(8, 0)))
				pos++
				continue
			case types.Uint32:
				if n-pos < 4 {
					return short()
				}
				so.f[i] = tb.concatN(append([]*Term(nil), ts[pos:pos+4]...))
				pos += 4
				continue
			case types.Uint64:
				if n-pos < 8 {
					return short()
				}
				so.f[i] = tb.concatN(append([]*Term(nil), ts[pos:pos+8]...))
				pos += 8
				continue
			case types.Uint8:
				if pos >= n {
					return short()
				}
				so.f[i] = ts[pos]
				pos++
				continue
			}
		case *types.Slice:
			if tag == "rest" {
				so.f[i] = m.termsSlice(ts[pos:])
				pos = n
				continue
			}
			l, rest, ok := m.sshString(ts, pos)
			if !ok {
				return short()
			}
			// aliases the input, like the library
			so.f[i] = SliceV{arr: data.arr, off: data.off + pos + 4, len: I64(l), cap: tb.Sub(data.cap, I64(pos+4))}
			pos = rest
			continue
		case *types.Array:
			l := int(u.Len())
			if n-pos < l {
				return short()
			}
			ao := &ArrObj{et: u.Elem(), n: I64(l)}
			for k := 0; k < l; k++ {
				ao.set(k, ts[pos+k])
			}
			so.f[i] = ao
			pos += l
			continue
		}
		m.unsup("ssh.Unmarshal field %s", ft)
	}
	if pos != n {
		return m.errIface("ssh: parse error: trailing data")
	}
	return Iface{}
}

func (m *Machine) sshString(ts []*Term, pos int) (int, int, bool) {
	if len(ts)-pos < 4 {
		return 0, 0, false
	}
	l := m.tb.concatN(append([]*Term(nil), ts[pos:pos+4]...))
	avail := len(ts) - pos - 4
	if m.branch(m.tb.Ult(K(32, uint64(avail)), l)) {
		return 0, 0, false
	}
	k := int(m.concretize(l, m.eng.opt.concLimit))
	return k, pos + 4 + k, true
}

// ---- regexp ----

func regexpSplit(m *Machine, a []Value) Value {
	re := a[0].(Ptr).base.(*natRegexp).re
	s := a[1].(*Str)
	n := m.concInt(a[2].(*Term))
	var parts []*Str
	if s.conc() {
		for _, x := range re.Split(s.s, n) {
			parts = append(parts, mkStr(x))
		}
	} else if class, plus := byteClass(re.String()); class != nil && n != 0 {
		b := s.Bytes()
		for _, x := range class {
			if x > ' ' {
				b = m.expandTerms(b)
				break
			}
		}
		start := 0
		for i := 0; i < len(b); {
			sp := func(k int) bool {
				c := tFalse
				for _, x := range class {
					c = m.tb.Or(c, m.tb.Eq(b[k], K(8, uint64(x))))
				}
				return m.branch(c)
			}
			if n > 0 && len(parts) == n-1 {
				break
			}
			if !sp(i) {
				i++
				continue
			}
			j := i + 1
			for plus && j < len(b) && sp(j) {
				j++
			}
			parts = append(parts, strOf(b[start:i]))
			start, i = j, j
		}
		parts = append(parts, strOf(b[start:]))
	} else {
		m.unsup("regexp %s on symbolic text", re)
	}
	ao := &ArrObj{et: types.Typ[types.String], n: I64(len(parts))}
	for i, p := range parts {
		ao.set(i, p)
	}
	return SliceV{arr: ao, len: ao.n, cap: ao.n}
}

// byteClass returns the ASCII characters of a regular expression that is one
// (small) character class, possibly repeated.
func byteClass(re string) (class []byte, plus bool) {
	x, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return nil, false
	}
	x = x.Simplify()
	if x.Op == syntax.OpPlus {
		plus, x = true, x.Sub[0]
	}
	var rs []rune
	switch x.Op {
	case syntax.OpCharClass:
		rs = x.Rune
	case syntax.OpLiteral:
		if len(x.Rune) != 1 || x.Flags&syntax.FoldCase != 0 {
			return nil, false
		}
		rs = []rune{x.Rune[0], x.Rune[0]}
	default:
		return nil, false
	}
	for i := 0; i < len(rs); i += 2 {
		if rs[i+1] >= 0x80 || len(class) > 16 {
			return nil, false
		}
		for r := rs[i]; r <= rs[i+1]; r++ {
			class = append(class, byte(r))
		}
	}
	return class, plus
}

func sortSlice(m *Machine, a []Value) Value {
	iv := a[0].(Iface)
	s := iv.v.(SliceV)
	less := a[1].(*Closure)
	n := m.concInt(s.len)
	// insertion sort (stable)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if !m.branch(m.callClosure(less, []Value{I64(j), I64(j - 1)}, nil).(*Term)) {
				break
			}
			x, y := copyVal(s.arr.get(s.off+j)), copyVal(s.arr.get(s.off+j-1))
			s.arr.set(s.off+j, y)
			s.arr.set(s.off+j-1, x)
		}
	}
	return nil
}

// ---- errors / fmt ----

func (m *Machine) errorsAs(err, target Iface) Value {
	if target.t == nil {
		m.plainPanic("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		m.plainPanic("errors: target must be a non-nil pointer")
	}
	et := pt.Elem()
	for err.t != nil {
		match := false
		if types.IsInterface(et) {
			match = m.eng.implements(err.t, et)
		} else {
			match = types.Identical(err.t, et)
		}
		if match {
			if types.IsInterface(et) {
				m.store(target.v.(Ptr), err)
			} else {
				m.store(target.v.(Ptr), err.v)
			}
			return tTrue
		}
		fn := m.eng.methodByName(err.t, "Unwrap")
		if fn == nil {
			return tFalse
		}
		r := m.callFn(fn, []Value{err.v}, nil, nil)
		ni, ok := r.(Iface)
		if !ok {
			m.unsup("errors.As through multi-error")
		}
		err = ni
	}
	return tFalse
}

func (m *Machine) sprintf(f *Str, args []Iface) *Str {
	format := m.cstr(f)
	out := emptyStr
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = strCat(out, mkStr(format[i:]))
			break
		}
		out = strCat(out, mkStr(format[i:i+j]))
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[k]) >= 0 {
			if format[k] == '*' || format[k] == '[' {
				m.unsup("format %q", format)
			}
			k++
		}
		if k >= len(format) {
			out = strCat(out, mkStr("%!(NOVERB)"))
			break
		}
		verb := format[k]
		spec := format[i : k+1]
		i = k + 1
		if verb == '%' {
			out = strCat(out, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			out = strCat(out, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = strCat(out, m.fmtOne(args[ai], verb, spec))
		ai++
	}
	if ai < len(args) {
		out = strCat(out, mkStr("%!(EXTRA)"))
	}
	return out
}

func (m *Machine) fmtOne(iv Iface, verb byte, spec string) *Str {
	if iv.t == nil {
		return mkStr(fmt.Sprintf(spec, nil))
	}
	if verb == 'T' {
		return mkStr(iv.t.String())
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' || verb == 'x' {
		if verb == 'w' {
			spec = strings.Replace(spec, "w", "v", 1)
		}
		for _, mn := range []string{"Error", "String"} {
			if fn := m.eng.methodByName(iv.t, mn); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				if p, ok := iv.v.(Ptr); ok && p.isNil() {
					return mkStr("<nil>")
				}
				r := m.callFn(fn, []Value{iv.v}, nil, nil).(*Str)
				if r.conc() {
					return mkStr(fmt.Sprintf(spec, r.s))
				}
				return r
			}
		}
	}
	hex := func(b []*Term) *Str { return strOf(m.hexText(b, verb == 'X')) }
	switch x := iv.v.(type) {
	case *Str:
		if x.conc() {
			return mkStr(fmt.Sprintf(spec, x.s))
		}
		switch {
		case verb == 'x' || verb == 'X':
			return hex(m.expandTerms(x.Bytes()))
		case verb == 'q' || strings.Contains(spec, "#"):
			// not escaped, but as injective
			return strCat(strCat(mkStr("\""), x), mkStr("\""))
		}
		return x
	case *Term:
		w, sg := width(iv.t)
		if x.op != OConst {
			if verb == 'c' && w <= 32 {
				return strOf([]*Term{m.tb.Extract(x, 0, 8)})
			}
			return m.opaqueText(iv.t, x)
		}
		switch {
		case w == 0:
			return mkStr(fmt.Sprintf(spec, x.val != 0))
		case sg && w == 32:
			return mkStr(fmt.Sprintf(spec, int32(x.val)))
		case sg:
			return mkStr(fmt.Sprintf(spec, sx(x.val, w)))
		case w == 8:
			return mkStr(fmt.Sprintf(spec, uint8(x.val)))
		}
		return mkStr(fmt.Sprintf(spec, x.val))
	case float64:
		return mkStr(fmt.Sprintf(spec, x))
	case SliceV:
		if w, _ := width(iv.t.Underlying().(*types.Slice).Elem()); w == 8 && x.len.op == OConst {
			if cb, ok := concBytes(m.sliceTerms(x)); ok {
				return mkStr(fmt.Sprintf(spec, cb))
			}
			switch verb {
			case 's':
				return m.sliceStr(x)
			case 'q':
				return strCat(strCat(mkStr("\""), m.sliceStr(x)), mkStr("\""))
			case 'x', 'X':
				return hex(m.sliceTerms(x))
			}
		}
	case *ArrObj:
		if w, _ := width(x.et); w == 8 && (verb == 'x' || verb == 'X') {
			n := m.concInt(x.n)
			b := make([]*Term, n)
			for i := range b {
				b[i] = x.get(i).(*Term)
			}
			return hex(b)
		}
	case Ptr:
		if pt, ok := iv.t.Underlying().(*types.Pointer); ok && !x.isNil() {
			switch pt.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return strCat(mkStr("&"), m.opaqueText(pt.Elem(), m.load(x)))
			}
		}
		return mkStr("<" + iv.t.String() + ">")
	}
	return m.opaqueText(iv.t, iv.v)
}

// hexText is the hexadecimal text of bytes (not of base64 tokens).
func (m *Machine) hexText(b []*Term, upper bool) []*Term {
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	var out []*Term
	for _, t := range b {
		for lo := uint64(4); ; lo -= 4 {
			n := m.tb.ZExt(m.tb.Extract(t, lo, 4), 8)
			out = append(out, m.tb.Ite(m.tb.Ult(n, K(8, 10)), m.tb.Add(n, K(8, '0')), m.tb.Add(n, K(8, a))))
			if lo == 0 {
				break
			}
		}
	}
	return out
}

// opaqueText stands for the text fmt makes of a value: not that text, but
// one that different values do not share.
func (m *Machine) opaqueText(t types.Type, v Value) *Str {
	out := mkStr("<")
	n := 0
	var rec func(t types.Type, v Value)
	rec = func(t types.Type, v Value) {
		if n++; n > 4096 {
			return
		}
		switch x := v.(type) {
		case *Term:
			if x.op == OConst {
				out = strCat(out, mkStr(fmt.Sprintf("%x", x.val)))
				return
			}
			if x.w == 0 {
				out = strCat(out, strOf([]*Term{m.tb.Ite(x, K(8, '1'), K(8, '0'))}))
				return
			}
			var b []*Term
			for lo := int(x.w) - 8; lo >= 0; lo -= 8 {
				b = append(b, m.tb.Extract(x, uint64(lo), 8))
			}
			out = strCat(out, strOf(m.hexText(b, false)))
		case *Str:
			out = strCat(out, x)
		case Iface:
			if x.t != nil {
				rec(x.t, x.v)
			}
		case *StructObj:
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			out = strCat(out, mkStr("{"))
			for i, f := range x.f {
				if i > 0 {
					out = strCat(out, mkStr(" "))
				}
				rec(st.Field(i).Type(), f)
			}
			out = strCat(out, mkStr("}"))
		case *ArrObj:
			if x.n.op == OConst && x.n.val < 1024 {
				out = strCat(out, mkStr("["))
				for i := 0; i < int(x.n.val); i++ {
					rec(x.et, x.get(i))
					out = strCat(out, mkStr(" "))
				}
				out = strCat(out, mkStr("]"))
			}
		case SliceV:
			st, ok := t.Underlying().(*types.Slice)
			if ok && x.len.op == OConst && x.len.val < 1024 {
				out = strCat(out, mkStr("["))
				for i := 0; i < int(x.len.val); i++ {
					rec(st.Elem(), x.arr.get(x.off+i))
					out = strCat(out, mkStr(" "))
				}
				out = strCat(out, mkStr("]"))
			}
		default:
			out = strCat(out, mkStr(t.String()))
		}
	}
	rec(t, v)
	return strCat(out, mkStr(">"))
}

var _ = ssa.BuilderMode(0)
