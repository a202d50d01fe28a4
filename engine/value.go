package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Cell struct{ v Value }

type StructObj struct{ f []Value }

// ArrObj is Go array storage. data is lazily extended; nil entries are zero.
type ArrObj struct {
	et   types.Type
	data []Value
	n    *Term // 64-bit length
}

type Ptr struct {
	base interface{} // *Cell, *StructObj, *ArrObj, or native object
	idx  int
	sidx *Term // symbolic index in ArrObj
}

type SliceV struct {
	arr      *ArrObj
	off      int
	len, cap *Term
}

type Str struct {
	s string
	b []*Term // non-nil => symbolic
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(m *Machine, args []Value) Value
	nam string
}

type Tuple []Value

type mapEnt struct {
	k, v Value
	dead bool
}

type MapV struct {
	t    *types.Map
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int
	live int
}

type RangeIter struct {
	m    *MapV
	keys []*mapEnt
	pos  int
	str  *Str
}

type bigOpaque struct{} // placeholder

var emptyStr = &Str{}

func mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) At(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return K(8, uint64(s.s[i]))
}

func (s *Str) Bytes() []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = K(8, uint64(s.s[i]))
	}
	return out
}

func (s *Str) conc() bool { return s.b == nil }

func strOf(b []*Term) *Str {
	conc := true
	for _, t := range b {
		if t.op != OConst {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.val)
		}
		return mkStr(string(bs))
	}
	return &Str{b: b}
}

func (s *Str) sub(lo, hi int) *Str {
	if s.b != nil {
		return strOf(s.b[lo:hi])
	}
	return mkStr(s.s[lo:hi])
}

func I64(v int) *Term      { return K(64, uint64(int64(v))) }
func isConst(t *Term) bool { return t.op == OConst }

func (a *ArrObj) get(i int) Value {
	if i < len(a.data) {
		if v := a.data[i]; v != nil {
			return v
		}
	}
	z := zeroVal(a.et)
	switch z.(type) {
	case *StructObj, *ArrObj:
		a.set(i, z)
	}
	return z
}

func (a *ArrObj) set(i int, v Value) {
	for len(a.data) <= i {
		if cap(a.data) > len(a.data) {
			k := i + 1
			if k > cap(a.data) {
				k = cap(a.data)
			}
			old := len(a.data)
			a.data = a.data[:k]
			clear(a.data[old:])
			continue
		}
		nc := 2*cap(a.data) + 8
		if nc < i+1 {
			nc = i + 1
		}
		nd := make([]Value, len(a.data), nc)
		copy(nd, a.data)
		a.data = nd
	}
	a.data[i] = v
}

// ---- types ----

func width(t types.Type) (uint8, bool) { // width, signed ; 0 for bool
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 255, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 255, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func zeroVal(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _ := width(u); w != 255 {
			return K(w, 0)
		}
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if u.Info()&types.IsComplex != 0 {
			return complex(0, 0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{len: K(64, 0), cap: K(64, 0)}
	case *types.Struct:
		s := &StructObj{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &ArrObj{et: u.Elem(), n: K(64, uint64(u.Len()))}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zeroVal(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zeroVal(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
	}
	panic(&pathEnd{kind: endUnsup, msg: fmt.Sprintf("zero value of %s", t)})
}

type ChanV struct {
	buf []Value
	cap int
	cls bool
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructObj:
		n := &StructObj{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			n.f[i] = copyVal(e)
		}
		return n
	case *ArrObj:
		n := &ArrObj{et: x.et, n: x.n, data: make([]Value, len(x.data))}
		for i, e := range x.data {
			if e != nil {
				n.data[i] = copyVal(e)
			}
		}
		return n
	}
	return v
}

// assign copies v into the aggregate dst in place.
func assignInto(dst, v Value) bool {
	switch d := dst.(type) {
	case *StructObj:
		s, ok := v.(*StructObj)
		if !ok {
			return false
		}
		if d == s {
			return true
		}
		for i := range d.f {
			if !assignInto(d.f[i], s.f[i]) {
				d.f[i] = copyVal(s.f[i])
			}
		}
		return true
	case *ArrObj:
		s, ok := v.(*ArrObj)
		if !ok {
			return false
		}
		if d == s {
			return true
		}
		n := len(s.data)
		if len(d.data) > n {
			n = len(d.data)
		}
		for i := 0; i < n; i++ {
			sv := s.get(i)
			if i < len(d.data) && d.data[i] != nil && assignInto(d.data[i], sv) {
				continue
			}
			d.set(i, copyVal(sv))
		}
		return true
	}
	return false
}

func (p Ptr) isNil() bool { return p.base == nil }

func ptrEq(a, b Ptr) bool {
	return a.base == b.base && a.idx == b.idx && a.sidx == b.sidx
}

func typeStr(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return t.String()
}

func hasTok(s string) bool { return strings.IndexByte(s, 0xEE) >= 0 }
