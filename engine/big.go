package main

// math/big.Int: concrete values and rational functions of one symbolic
// 255-bit value modulo a concrete prime.

import (
	"fmt"
	"go/types"
	"math/big"
)

type poly []*big.Int // coefficients, low first

type bigVal struct {
	c        *big.Int // concrete
	y        []*Term  // big-endian bytes of the symbolic argument
	num, den poly
	red      *big.Int // modulus it was reduced by (nil: not reduced)
}

type bigState struct {
	m map[*StructObj]*bigVal
}

func (m *Machine) bigGet(p Value) *bigVal {
	if m.bigs == nil {
		m.bigs = &bigState{m: map[*StructObj]*bigVal{}}
	}
	s := derefStruct(m, p.(Ptr))
	v := m.bigs.m[s]
	if v == nil {
		v = &bigVal{c: new(big.Int)}
		m.bigs.m[s] = v
	}
	return v
}

func (m *Machine) bigSet(p Value, v *bigVal) Value {
	m.bigGet(p)
	m.bigs.m[derefStruct(m, p.(Ptr))] = v
	return p
}

func (m *Machine) bigNew() Ptr {
	t := m.eng.pkgs["math/big"].Type("Int").Type()
	return Ptr{base: &Cell{v: zeroVal(t)}}
}

func pConst(c *big.Int) poly { return poly{c} }
func (p poly) trim() poly {
	for len(p) > 0 && p[len(p)-1].Sign() == 0 {
		p = p[:len(p)-1]
	}
	return p
}
func pAdd(a, b poly, sub bool) poly {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(poly, n)
	for i := range r {
		r[i] = new(big.Int)
		if i < len(a) {
			r[i].Add(r[i], a[i])
		}
		if i < len(b) {
			if sub {
				r[i].Sub(r[i], b[i])
			} else {
				r[i].Add(r[i], b[i])
			}
		}
	}
	return r.trim()
}
func pMul(a, b poly) poly {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make(poly, len(a)+len(b)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range a {
		for j := range b {
			r[i+j].Add(r[i+j], new(big.Int).Mul(a[i], b[j]))
		}
	}
	return r.trim()
}

func (v *bigVal) rat() (poly, poly) {
	if v.c != nil {
		return pConst(v.c).trim(), pConst(big.NewInt(1))
	}
	return v.num, v.den
}

func (m *Machine) bigBin(a, b *bigVal, op byte) *bigVal {
	if a.c != nil && b.c != nil {
		r := new(big.Int)
		switch op {
		case '+':
			r.Add(a.c, b.c)
		case '-':
			r.Sub(a.c, b.c)
		case '*':
			r.Mul(a.c, b.c)
		}
		return &bigVal{c: r}
	}
	y := a.y
	if y == nil {
		y = b.y
	}
	if a.y != nil && b.y != nil && m.partKey(a.y) != m.partKey(b.y) {
		m.unsup("big.Int expression over two symbolic values")
	}
	an, ad := a.rat()
	bn, bd := b.rat()
	r := &bigVal{y: y}
	switch op {
	case '+', '-':
		r.num = pAdd(pMul(an, bd), pMul(bn, ad), op == '-')
		r.den = pMul(ad, bd)
	case '*':
		r.num, r.den = pMul(an, bn), pMul(ad, bd)
	}
	return r
}

func (v *bigVal) key(p *big.Int) string {
	n := make(poly, len(v.num))
	d := make(poly, len(v.den))
	for i := range n {
		n[i] = new(big.Int).Mod(v.num[i], p)
	}
	for i := range d {
		d[i] = new(big.Int).Mod(v.den[i], p)
	}
	n, d = n.trim(), d.trim()
	// cancel common linear factors only when both share a constant multiple
	if len(d) > 0 {
		inv := new(big.Int).ModInverse(d[len(d)-1], p)
		for i := range n {
			n[i].Mul(n[i], inv).Mod(n[i], p)
		}
		for i := range d {
			d[i].Mul(d[i], inv).Mod(d[i], p)
		}
	}
	return fmt.Sprintf("%v/%v mod %v", n, d, p)
}

var p25519, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
var montKey = (&bigVal{num: poly{big.NewInt(1), big.NewInt(1)}, den: poly{big.NewInt(1), big.NewInt(-1)}}).key(p25519)

// mont is the big-endian encoding of (1+y)/(1-y) mod p for little-endian y.
func (m *Machine) mont(yLE []*Term) []*Term {
	y := make([]*Term, len(yLE))
	for i := range y {
		y[len(y)-1-i] = yLE[i]
	}
	return m.montOracle(y, montKey)
}

func (m *Machine) montOracle(y []*Term, key string) []*Term {
	out := m.Oracle("mont:"+key, 32, ofInj|ofMont, [][]*Term{y})
	out[0] = m.tb.BAnd(out[0], K(8, 0x7f))
	return out
}

// bigBytes gives the 32-byte big-endian encoding of a reduced value.
func (m *Machine) bigBytes(v *bigVal) []*Term {
	if v.c != nil {
		b := v.c.Bytes()
		out := make([]*Term, len(b))
		for i := range b {
			out[i] = K(8, uint64(b[i]))
		}
		return out
	}
	if v.red == nil {
		if len(v.num) == 2 && len(v.den) == 1 && v.num[0].Sign() == 0 && v.num[1].Cmp(big.NewInt(1)) == 0 && v.den[0].Cmp(big.NewInt(1)) == 0 {
			return v.y
		}
		// an unreduced product: wider than 32 bytes
		return m.Oracle("bigraw:"+fmt.Sprint(v.num, v.den), 64, ofInj, [][]*Term{v.y})
	}
	return m.montOracle(v.y, v.key(v.red))
}

func bigInit() {
	pre := "(*math/big.Int)."
	intrinsics["math/big.NewInt"] = func(m *Machine, a []Value) Value {
		p := m.bigNew()
		return m.bigSet(p, &bigVal{c: big.NewInt(int64(m.concInt(a[0].(*Term))))})
	}
	intrinsics[pre+"SetInt64"] = func(m *Machine, a []Value) Value {
		return m.bigSet(a[0], &bigVal{c: big.NewInt(int64(m.concInt(a[1].(*Term))))})
	}
	intrinsics[pre+"Set"] = func(m *Machine, a []Value) Value {
		return m.bigSet(a[0], m.bigGet(a[1]))
	}
	intrinsics[pre+"SetString"] = func(m *Machine, a []Value) Value {
		c, ok := new(big.Int).SetString(m.cstr(a[1]), m.concInt(a[2].(*Term)))
		if !ok {
			return Tuple{Ptr{}, tFalse}
		}
		return Tuple{m.bigSet(a[0], &bigVal{c: c}), tTrue}
	}
	intrinsics[pre+"SetBytes"] = func(m *Machine, a []Value) Value {
		ts := m.sliceTerms(a[1].(SliceV))
		if cb, ok := concBytes(ts); ok {
			return m.bigSet(a[0], &bigVal{c: new(big.Int).SetBytes(cb)})
		}
		return m.bigSet(a[0], &bigVal{y: append([]*Term(nil), ts...), num: poly{big.NewInt(0), big.NewInt(1)}, den: poly{big.NewInt(1)}})
	}
	for n, op := range map[string]byte{"Add": '+', "Sub": '-', "Mul": '*'} {
		op := op
		intrinsics[pre+n] = func(m *Machine, a []Value) Value {
			return m.bigSet(a[0], m.bigBin(m.bigGet(a[1]), m.bigGet(a[2]), op))
		}
	}
	intrinsics[pre+"ModInverse"] = func(m *Machine, a []Value) Value {
		v, n := m.bigGet(a[1]), m.bigGet(a[2])
		if n.c == nil {
			m.unsup("symbolic modulus")
		}
		if v.c != nil {
			r := new(big.Int).ModInverse(v.c, n.c)
			if r == nil {
				return Ptr{}
			}
			return m.bigSet(a[0], &bigVal{c: r})
		}
		// the value 0 has no inverse (y = 1); excluded, see DESIGN
		return m.bigSet(a[0], &bigVal{y: v.y, num: v.den, den: v.num, red: n.c})
	}
	mod := func(m *Machine, a []Value) Value {
		v, n := m.bigGet(a[1]), m.bigGet(a[2])
		if n.c == nil {
			m.unsup("symbolic modulus")
		}
		if v.c != nil {
			return m.bigSet(a[0], &bigVal{c: new(big.Int).Mod(v.c, n.c)})
		}
		return m.bigSet(a[0], &bigVal{y: v.y, num: v.num, den: v.den, red: n.c})
	}
	intrinsics[pre+"Mod"] = mod
	intrinsics[pre+"Neg"] = func(m *Machine, a []Value) Value {
		return m.bigSet(a[0], m.bigBin(&bigVal{c: new(big.Int)}, m.bigGet(a[1]), '-'))
	}
	intrinsics[pre+"Bytes"] = func(m *Machine, a []Value) Value {
		b := m.bigBytes(m.bigGet(a[0]))
		i := 0
		for i < len(b) && b[i].op != OConst && i < 7 && m.branch(m.tb.Eq(b[i], K(8, 0))) {
			i++
		}
		return m.termsSlice(b[i:])
	}
	intrinsics[pre+"FillBytes"] = func(m *Machine, a []Value) Value {
		b := m.bigBytes(m.bigGet(a[0]))
		d := a[1].(SliceV)
		n := m.concInt(d.len)
		if len(b) > n {
			m.plainPanic("math/big: buffer too small to fit value")
		}
		for i := 0; i < n; i++ {
			var t *Term = K(8, 0)
			if k := i - (n - len(b)); k >= 0 {
				t = b[k]
			}
			d.arr.set(d.off+i, t)
		}
		return d
	}
	intrinsics[pre+"BitLen"] = func(m *Machine, a []Value) Value {
		v := m.bigGet(a[0])
		if v.c == nil {
			m.unsup("BitLen of symbolic big.Int")
		}
		return I64(v.c.BitLen())
	}
	intrinsics[pre+"Sign"] = func(m *Machine, a []Value) Value {
		v := m.bigGet(a[0])
		if v.c == nil {
			m.unsup("Sign of symbolic big.Int")
		}
		return I64(v.c.Sign())
	}
	intrinsics[pre+"Cmp"] = func(m *Machine, a []Value) Value {
		v, w := m.bigGet(a[0]), m.bigGet(a[1])
		if v.c == nil || w.c == nil {
			m.unsup("Cmp of symbolic big.Int")
		}
		return I64(v.c.Cmp(w.c))
	}
	_ = types.Typ
}
