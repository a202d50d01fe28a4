package main

// Hash-consed bit-vector/bool terms with an aggressive simplifier.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // bv,bv -> bool
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
	OBXor
	OAdd
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OConcat  // a=hi b=lo
	OExtract // val = lo; width w
	OSExt
	OIte
)

// Term: w==0 means bool.
type Term struct {
	op         Op
	w          uint8
	id         int32
	a, b, c    *Term
	val        uint64 // const value, extract lo, var index
	umin, umax uint64
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
}

type VarInfo struct {
	w    uint8
	orac *OracleCall
}

type TB struct {
	tab   map[tkey]*Term
	n     int32
	vars  []*Term
	vinfo []VarInfo
	xors  int
}

func NewTB() *TB {
	return &TB{tab: make(map[tkey]*Term, 1024), n: 1}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

var smallConst [65][]*Term
var tTrue, tFalse *Term

func init() {
	for w := 1; w <= 64; w++ {
		n := 258
		if w < 8 {
			n = 1 << w
		}
		smallConst[w] = make([]*Term, n)
		for i := range smallConst[w] {
			v := uint64(i)
			smallConst[w][i] = &Term{op: OConst, w: uint8(w), val: v, umin: v, umax: v}
		}
	}
	tTrue = &Term{op: OConst, w: 0, val: 1, umin: 1, umax: 1}
	tFalse = &Term{op: OConst, w: 0, val: 0}
}

// K makes a constant (not tied to a builder).
func K(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tTrue
		}
		return tFalse
	}
	v &= mask(w)
	if v < uint64(len(smallConst[w])) {
		return smallConst[w][v]
	}
	return &Term{op: OConst, w: w, val: v, umin: v, umax: v}
}

func KB(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isC() bool { return t.op == OConst }
func (t *Term) isZero() bool {
	return t.op == OConst && t.val == 0
}

// canonical child pointer for hash consing
func (tb *TB) norm(t *Term) *Term {
	if t == nil || t.op != OConst {
		return t
	}
	if t.w == 0 {
		return t
	}
	if t.val < uint64(len(smallConst[t.w])) {
		return smallConst[t.w][t.val]
	}
	k := tkey{op: OConst, w: t.w, val: t.val}
	if r, ok := tb.tab[k]; ok {
		return r
	}
	tb.tab[k] = t
	return t
}

func (tb *TB) mk(op Op, w uint8, a, b, c *Term, val uint64, lo, hi uint64) *Term {
	a, b, c = tb.norm(a), tb.norm(b), tb.norm(c)
	k := tkey{op, w, a, b, c, val}
	if r, ok := tb.tab[k]; ok {
		return r
	}
	tb.n++
	t := &Term{op: op, w: w, id: tb.n, a: a, b: b, c: c, val: val, umin: lo, umax: hi}
	tb.tab[k] = t
	return t
}

func (tb *TB) Var(w uint8, lo, hi uint64, orac *OracleCall) *Term {
	tb.n++
	t := &Term{op: OVar, w: w, id: tb.n, val: uint64(len(tb.vars)), umin: lo, umax: hi}
	if w == 0 {
		t.umin, t.umax = 0, 1
	}
	tb.vars = append(tb.vars, t)
	tb.vinfo = append(tb.vinfo, VarInfo{w, orac})
	return t
}

// ---------- bool ----------

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return KB(a.val == 0)
	case ONot:
		return a.a
	}
	return tb.mk(ONot, 0, a, nil, nil, 0, 0, 1)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tFalse
	}
	return tb.mk(OAnd, 0, a, b, nil, 0, 0, 1)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val != 0 {
			return tTrue
		}
		return b
	}
	if b.op == OConst {
		if b.val != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tTrue
	}
	return tb.mk(OOr, 0, a, b, nil, 0, 0, 1)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.op == OConst && b.op == OConst && a.val == b.val {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val != 0 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	// ite(c, ite(c,x,y), z) -> ite(c,x,z)
	if a.op == OIte && a.a == c {
		return tb.Ite(c, a.b, b)
	}
	if b.op == OIte && b.a == c {
		return tb.Ite(c, a, b.c)
	}
	lo, hi := a.umin, a.umax
	if b.umin < lo {
		lo = b.umin
	}
	if b.umax > hi {
		hi = b.umax
	}
	return tb.mk(OIte, a.w, c, a, b, 0, lo, hi)
}

// ---------- concat / extract ----------

func pieces(t *Term, out []*Term) []*Term {
	for t.op == OConcat {
		out = pieces(t.a, out)
		t = t.b
	}
	return append(out, t)
}

func (tb *TB) Concat(hi, lo *Term) *Term {
	ps := pieces(hi, nil)
	ps = pieces(lo, ps)
	return tb.concatN(ps)
}

// concatN: MSB first
func (tb *TB) concatN(ps []*Term) *Term {
	out := make([]*Term, 0, len(ps))
	for _, p := range ps {
		if p.op == OConcat {
			for _, q := range pieces(p, nil) {
				out = tb.catPush(out, q)
			}
			continue
		}
		out = tb.catPush(out, p)
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		p := out[i]
		w := p.w + r.w
		r = tb.mk(OConcat, w, p, r, nil, 0, p.umin<<r.w|r.umin, p.umax<<r.w|r.umax)
	}
	return r
}

func (tb *TB) catPush(out []*Term, p *Term) []*Term {
	if n := len(out); n > 0 {
		q := out[n-1]
		if q.op == OConst && p.op == OConst {
			out[n-1] = K(q.w+p.w, q.val<<p.w|p.val)
			return out
		}
		// adjacent extracts
		qb, ql := q, uint64(0)
		if q.op == OExtract {
			qb, ql = q.a, q.val
		}
		pb, pl := p, uint64(0)
		if p.op == OExtract {
			pb, pl = p.a, p.val
		}
		if qb == pb && (q.op == OExtract) && ql == pl+uint64(p.w) {
			out[n-1] = tb.Extract(qb, pl, q.w+p.w)
			return out
		}
	}
	return append(out, p)
}

// Extract w bits starting at lo.
func (tb *TB) Extract(t *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return K(w, t.val>>lo)
	case OExtract:
		return tb.Extract(t.a, t.val+lo, w)
	case OConcat:
		ps := pieces(t, nil)
		// walk from LSB
		var sel []*Term
		pos := uint64(0)
		end := lo + uint64(w)
		for i := len(ps) - 1; i >= 0; i-- {
			p := ps[i]
			ps0, ps1 := pos, pos+uint64(p.w)
			pos = ps1
			if ps1 <= lo || ps0 >= end {
				continue
			}
			a, b := ps0, ps1
			if a < lo {
				a = lo
			}
			if b > end {
				b = end
			}
			sel = append(sel, tb.Extract(p, a-ps0, uint8(b-a)))
		}
		for i, j := 0, len(sel)-1; i < j; i, j = i+1, j-1 {
			sel[i], sel[j] = sel[j], sel[i]
		}
		return tb.concatN(sel)
	case OBNot:
		return tb.BNot(tb.Extract(t.a, lo, w))
	case OBAnd, OBOr, OBXor:
		return tb.bitop(t.op, tb.Extract(t.a, lo, w), tb.Extract(t.b, lo, w))
	case OIte:
		return tb.Ite(t.a, tb.Extract(t.b, lo, w), tb.Extract(t.c, lo, w))
	case OAdd:
		if lo == 0 {
			return tb.Add(tb.Extract(t.a, 0, w), tb.Extract(t.b, 0, w))
		}
	case OMul:
		if lo == 0 {
			return tb.Mul(tb.Extract(t.a, 0, w), tb.Extract(t.b, 0, w))
		}
	case OSExt:
		iw := uint64(t.a.w)
		if lo+uint64(w) <= iw {
			return tb.Extract(t.a, lo, w)
		}
		if lo == 0 {
			return tb.SExt(t.a, w)
		}
	}
	// value fits below lo => zero
	if lo < 64 && t.umax>>lo == 0 {
		return K(w, 0)
	}
	lo0, hi0 := uint64(0), mask(w)
	if lo == 0 && t.umax <= mask(w) {
		lo0, hi0 = t.umin, t.umax
	} else if t.umax>>lo <= mask(w) {
		lo0, hi0 = t.umin>>lo, t.umax>>lo
	}
	return tb.mk(OExtract, w, t, nil, nil, lo, lo0, hi0)
}

func (tb *TB) ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tb.Extract(t, 0, w)
	}
	if t.op == OConst {
		return K(w, t.val)
	}
	return tb.Concat(K(w-t.w, 0), t)
}

func (tb *TB) SExt(t *Term, w uint8) *Term {
	if w <= t.w {
		return tb.Extract(t, 0, w)
	}
	if t.op == OConst {
		return K(w, uint64(sx(t.val, t.w)))
	}
	if t.umax < 1<<(t.w-1) {
		return tb.ZExt(t, w)
	}
	return tb.mk(OSExt, w, t, nil, nil, 0, 0, mask(w))
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

// ---------- bitwise ----------

func (tb *TB) BNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return K(a.w, ^a.val)
	case OBNot:
		return a.a
	case OConcat:
		ps := pieces(a, nil)
		out := make([]*Term, len(ps))
		for i, p := range ps {
			out[i] = tb.BNot(p)
		}
		return tb.concatN(out)
	}
	return tb.mk(OBNot, a.w, a, nil, nil, 0, ^a.umax&mask(a.w), ^a.umin&mask(a.w))
}

func (tb *TB) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		switch op {
		case OBAnd:
			return K(w, a.val&b.val)
		case OBOr:
			return K(w, a.val|b.val)
		default:
			return K(w, a.val^b.val)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		switch op {
		case OBXor:
			return K(w, 0)
		default:
			return a
		}
	}
	if b.op == OConst {
		if b.val == 0 {
			if op == OBAnd {
				return b
			}
			return a
		}
		if b.val == mask(w) {
			switch op {
			case OBAnd:
				return a
			case OBOr:
				return b
			case OBXor:
				return tb.BNot(a)
			}
		}
		if op == OBXor {
			if a.op == OBXor && a.b.op == OConst {
				return tb.bitop(OBXor, a.a, K(w, a.b.val^b.val))
			}
		}
	}
	// split at boundaries
	split := a.op == OConcat || b.op == OConcat
	if b.op == OConst && op != OBXor {
		split = true
	}
	if split {
		bs := tb.bounds(a, b, op != OBXor)
		if len(bs) > 2 {
			var out []*Term
			for i := len(bs) - 1; i > 0; i-- {
				lo, hi := bs[i-1], bs[i]
				out = append(out, tb.bitop(op, tb.Extract(a, lo, uint8(hi-lo)), tb.Extract(b, lo, uint8(hi-lo))))
			}
			return tb.concatN(out)
		}
	}
	if op == OBXor {
		// cancellation
		if a.op == OBXor {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OBXor {
			if b.a == a {
				return b.b
			}
			if b.b == a {
				return b.a
			}
		}
		// flatten fully when both/one xor: sort & cancel
		if a.op == OBXor || b.op == OBXor {
			return tb.xorN(a, b)
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	lo, hi := uint64(0), mask(w)
	switch op {
	case OBAnd:
		hi = min(a.umax, b.umax)
	case OBOr:
		lo = max(a.umin, b.umin)
		hi = hiBits(a.umax | b.umax)
	case OBXor:
		hi = hiBits(a.umax | b.umax)
	}
	return tb.mk(op, w, a, b, nil, 0, lo, hi&mask(w))
}

func hiBits(v uint64) uint64 {
	n := bits.Len64(v)
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<n - 1
}

func xorLeaves(t *Term, out []*Term) []*Term {
	for t.op == OBXor {
		out = xorLeaves(t.b, out)
		t = t.a
	}
	return append(out, t)
}

func (tb *TB) xorN(a, b *Term) *Term {
	ls := xorLeaves(a, nil)
	ls = xorLeaves(b, ls)
	cnt := map[*Term]int{}
	var k uint64
	var ord []*Term
	for _, l := range ls {
		if l.op == OConst {
			k ^= l.val
			continue
		}
		if cnt[l] == 0 {
			ord = append(ord, l)
		}
		cnt[l]++
	}
	var r *Term
	// deterministic order by id
	for i := 1; i < len(ord); i++ {
		for j := i; j > 0 && ord[j-1].id > ord[j].id; j-- {
			ord[j-1], ord[j] = ord[j], ord[j-1]
		}
	}
	w := a.w
	for _, l := range ord {
		if cnt[l]%2 == 0 {
			continue
		}
		if r == nil {
			r = l
		} else {
			r = tb.mk(OBXor, w, r, l, nil, 0, 0, mask(w))
		}
	}
	if r == nil {
		return K(w, k)
	}
	if k != 0 {
		r = tb.mk(OBXor, w, r, K(w, k), nil, 0, 0, mask(w))
	}
	return r
}

// bounds: union of piece boundaries (LSB based), including const runs if runs.
func (tb *TB) bounds(a, b *Term, runs bool) []uint64 {
	var set uint64 // bit i => boundary at i (1..63)
	add := func(t *Term) {
		if t.op == OConcat {
			ps := pieces(t, nil)
			pos := uint64(0)
			for i := len(ps) - 1; i >= 0; i-- {
				p := ps[i]
				if p.op == OConst && runs {
					for j := uint64(1); j < uint64(p.w); j++ {
						if (p.val>>j)&1 != (p.val>>(j-1))&1 {
							set |= 1 << (pos + j)
						}
					}
				}
				pos += uint64(p.w)
				if pos < 64 {
					set |= 1 << pos
				}
			}
		} else if t.op == OConst && runs {
			for j := uint64(1); j < uint64(t.w); j++ {
				if (t.val>>j)&1 != (t.val>>(j-1))&1 {
					set |= 1 << j
				}
			}
		}
	}
	add(a)
	add(b)
	out := []uint64{0}
	for i := uint64(1); i < uint64(a.w); i++ {
		if set>>i&1 == 1 {
			out = append(out, i)
		}
	}
	return append(out, uint64(a.w))
}

func (tb *TB) BAnd(a, b *Term) *Term { return tb.bitop(OBAnd, a, b) }
func (tb *TB) BOr(a, b *Term) *Term  { return tb.bitop(OBOr, a, b) }
func (tb *TB) BXor(a, b *Term) *Term { return tb.bitop(OBXor, a, b) }

// ---------- arithmetic ----------

func (tb *TB) Add(a, b *Term) *Term {
	w := a.w
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return K(w, a.val+b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return tb.Add(a.a, K(w, a.b.val+b.val))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return tb.Ite(a.a, tb.Add(a.b, b), tb.Add(a.c, b))
		}
	}
	// x + (-x)
	if a.op == OMul && a.b.op == OConst && a.b.val == mask(w) && a.a == b {
		return K(w, 0)
	}
	if b.op == OMul && b.b.op == OConst && b.b.val == mask(w) && b.a == a {
		return K(w, 0)
	}
	// (x + y) + (-y), (x+c) + y*-1 where y = x
	if nb := tb.negOf(b); nb != nil {
		if a.op == OAdd {
			if a.a == nb {
				return a.b
			}
			if a.b == nb {
				return a.a
			}
		}
	}
	if na := tb.negOf(a); na != nil {
		if b.op == OAdd {
			if b.a == na {
				return b.b
			}
			if b.b == na {
				return b.a
			}
		}
	}
	// lift constants to the right: (x+c)+y -> (x+y)+c
	if b.op != OConst {
		if a.op == OAdd && a.b.op == OConst {
			return tb.Add(tb.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.op == OConst {
			return tb.Add(tb.Add(a, b.a), b.b)
		}
		// disjoint concat lanes: treat as or when no overlap
		if a.op == OConcat || b.op == OConcat {
			if tb.disjoint(a, b) {
				return tb.BOr(a, b)
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	lo, hi := uint64(0), mask(w)
	if s, c := bits.Add64(a.umax, b.umax, 0); c == 0 && s <= mask(w) {
		lo, hi = a.umin+b.umin, s
	} else if b.op == OConst && a.umin >= (mask(w)-b.val+1) {
		// always wraps: subtraction
		lo = (a.umin + b.val) & mask(w)
		hi = (a.umax + b.val) & mask(w)
	}
	return tb.mk(OAdd, w, a, b, nil, 0, lo, hi)
}

func (tb *TB) negOf(t *Term) *Term {
	if t.op == OMul && t.b.op == OConst && t.b.val == mask(t.w) {
		return t.a
	}
	return nil
}

func (tb *TB) disjoint(a, b *Term) bool {
	bs := tb.bounds(a, b, false)
	for i := 1; i < len(bs); i++ {
		lo, w := bs[i-1], uint8(bs[i]-bs[i-1])
		if !tb.Extract(a, lo, w).isZero() && !tb.Extract(b, lo, w).isZero() {
			return false
		}
	}
	return true
}

func (tb *TB) Neg(a *Term) *Term { return tb.Mul(a, K(a.w, mask(a.w))) }

func (tb *TB) Sub(a, b *Term) *Term {
	if a == b {
		return K(a.w, 0)
	}
	if a.op == OConst && b.op == OConst {
		return K(a.w, a.val-b.val)
	}
	if b.op == OConst {
		return tb.Add(a, K(a.w, -b.val))
	}
	r := tb.Add(a, tb.Neg(b))
	if r.op == OAdd && a.umin >= b.umax && r.umin == 0 && r.umax == mask(a.w) {
		// tighten range (fresh node only)
		r.umin = a.umin - b.umax
		r.umax = a.umax - b.umin
	}
	return r
}

func (tb *TB) Mul(a, b *Term) *Term {
	w := a.w
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return K(w, a.val*b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tb.Shl(a, K(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OMul && a.b.op == OConst {
			return tb.Mul(a.a, K(w, a.b.val*b.val))
		}
		if a.op == OAdd && a.b.op == OConst {
			return tb.Add(tb.Mul(a.a, b), K(w, a.b.val*b.val))
		}
		if a.op == OAdd && b.val == mask(w) {
			return tb.Add(tb.Mul(a.a, b), tb.Mul(a.b, b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	lo, hi := uint64(0), mask(w)
	if h, l := bits.Mul64(a.umax, b.umax); h == 0 && l <= mask(w) {
		lo, hi = a.umin*b.umin, l
	}
	return tb.mk(OMul, w, a, b, nil, 0, lo, hi)
}

func (tb *TB) Udiv(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return K(a.w, a.val/b.val)
		}
		if b.val&(b.val-1) == 0 {
			return tb.Lshr(a, K(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		return tb.mk(OUdiv, a.w, a, b, nil, 0, a.umin/b.val, a.umax/b.val)
	}
	return tb.mk(OUdiv, a.w, a, b, nil, 0, 0, mask(a.w))
}

func (tb *TB) Urem(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return K(a.w, a.val%b.val)
		}
		if a.umax < b.val {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tb.BAnd(a, K(a.w, b.val-1))
		}
		return tb.mk(OUrem, a.w, a, b, nil, 0, 0, b.val-1)
	}
	return tb.mk(OUrem, a.w, a, b, nil, 0, 0, mask(a.w))
}

func (tb *TB) Sdiv(a, b *Term) *Term {
	h := uint64(1) << (a.w - 1)
	if a.umax < h && b.umax < h {
		return tb.Udiv(a, b)
	}
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return K(a.w, uint64(-x))
		}
		return K(a.w, uint64(x/y))
	}
	return tb.mk(OSdiv, a.w, a, b, nil, 0, 0, mask(a.w))
}

func (tb *TB) Srem(a, b *Term) *Term {
	h := uint64(1) << (a.w - 1)
	if a.umax < h && b.umax < h {
		return tb.Urem(a, b)
	}
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return K(a.w, 0)
		}
		return K(a.w, uint64(x%y))
	}
	return tb.mk(OSrem, a.w, a, b, nil, 0, 0, mask(a.w))
}

// shifts: b has same width as a
func (tb *TB) Shl(a, b *Term) *Term {
	w := a.w
	if b.op == OConst {
		k := b.val
		if k >= uint64(w) {
			return K(w, 0)
		}
		if k == 0 {
			return a
		}
		return tb.Concat(tb.Extract(a, 0, w-uint8(k)), K(uint8(k), 0))
	}
	if a.isZero() {
		return a
	}
	return tb.mk(OShl, w, a, b, nil, 0, 0, mask(w))
}

func (tb *TB) Lshr(a, b *Term) *Term {
	w := a.w
	if b.op == OConst {
		k := b.val
		if k >= uint64(w) {
			return K(w, 0)
		}
		if k == 0 {
			return a
		}
		return tb.Concat(K(uint8(k), 0), tb.Extract(a, k, w-uint8(k)))
	}
	if a.isZero() {
		return a
	}
	return tb.mk(OLshr, w, a, b, nil, 0, 0, a.umax)
}

func (tb *TB) Ashr(a, b *Term) *Term {
	w := a.w
	if a.umax < 1<<(w-1) {
		return tb.Lshr(a, b)
	}
	if b.op == OConst {
		k := b.val
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		if k == 0 {
			return a
		}
		return tb.SExt(tb.Extract(a, k, w-uint8(k)), w)
	}
	return tb.mk(OAshr, w, a, b, nil, 0, 0, mask(w))
}

// ---------- comparisons ----------

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if a.op == OConst {
				return KB(a.val == b.val)
			}
			if b.val != 0 {
				return a
			}
			return tb.Not(a)
		}
		return tb.Ite(a, b, tb.Not(b))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.op == OConst {
		return KB(a.val == b.val)
	}
	if a.umax < b.umin || b.umax < a.umin {
		return tFalse
	}
	if a.op == OConcat || b.op == OConcat {
		bs := tb.bounds(a, b, false)
		r := tTrue
		for i := len(bs) - 1; i > 0; i-- {
			lo, w := bs[i-1], uint8(bs[i]-bs[i-1])
			e := tb.Eq(tb.Extract(a, lo, w), tb.Extract(b, lo, w))
			if e == tFalse {
				return tFalse
			}
			r = tb.And(r, e)
		}
		return r
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return tb.Eq(a.a, K(a.w, b.val-a.b.val))
			}
		case OBXor:
			if a.b.op == OConst {
				return tb.Eq(a.a, K(a.w, b.val^a.b.val))
			}
			if b.val == 0 {
				return tb.Eq(a.a, a.b)
			}
		case OBNot:
			return tb.Eq(a.a, K(a.w, ^b.val))
		}
	}
	if a.op == OBXor || b.op == OBXor {
		if a.op == OBXor && b.op == OBXor || (a.op == OBXor && (a.a == b || a.b == b)) || (b.op == OBXor && (b.a == a || b.b == a)) {
			x := tb.BXor(a, b)
			if x.op == OConst {
				return KB(x.val == 0)
			}
			if x.op == OBXor {
				na, nb := x.a, x.b
				if !(na == a && nb == b) && !(na == b && nb == a) {
					if na.op != OBXor {
						return tb.Eq(na, nb)
					}
				}
			} else {
				return tb.Eq(x, K(x.w, 0))
			}
		}
	}
	if a.op == OAdd && b.op == OAdd && a.b.op == OConst && b.b.op == OConst {
		return tb.Eq(a.a, tb.Add(b.a, K(a.w, b.b.val-a.b.val)))
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, 0, a, b, nil, 0, 0, 1)
}

func leadZero(t *Term) uint8 {
	if t.op == OConst {
		return t.w - uint8(bits.Len64(t.val))
	}
	if t.op == OConcat && t.a.isZero() {
		return t.a.w
	}
	return t.w - uint8(bits.Len64(t.umax))
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return KB(a.val < b.val)
	}
	if a == b {
		return tFalse
	}
	if a.umax < b.umin {
		return tTrue
	}
	if a.umin >= b.umax {
		return tFalse
	}
	if z := min(leadZero(a), leadZero(b)); z > 0 && z < a.w {
		if (a.op == OConst || a.op == OConcat) && (b.op == OConst || b.op == OConcat) {
			return tb.Ult(tb.Extract(a, 0, a.w-z), tb.Extract(b, 0, a.w-z))
		}
	}
	if b.op == OConst && b.val == 1 {
		return tb.Eq(a, K(a.w, 0))
	}
	if a.op == OConst && a.val == 0 {
		return tb.Not(tb.Eq(b, K(b.w, 0)))
	}
	// a+c1 < c2 with no wrap
	if b.op == OConst && a.op == OAdd && a.b.op == OConst {
		if s := a.a.umax + a.b.val; s >= a.b.val && s <= mask(a.w) {
			if b.val <= a.b.val {
				return tFalse
			}
			return tb.Ult(a.a, K(a.w, b.val-a.b.val))
		}
	}
	if a.op == OConst && b.op == OAdd && b.b.op == OConst {
		if s := b.a.umax + b.b.val; s >= b.b.val && s <= mask(a.w) {
			if a.val < b.b.val {
				return tTrue
			}
			return tb.Ult(K(a.w, a.val-b.b.val), b.a)
		}
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst && b.op == OConst {
		return tb.Ite(a.a, tb.Ult(a.b, b), tb.Ult(a.c, b))
	}
	if b.op == OIte && b.b.op == OConst && b.c.op == OConst && a.op == OConst {
		return tb.Ite(b.a, tb.Ult(a, b.b), tb.Ult(a, b.c))
	}
	return tb.mk(OUlt, 0, a, b, nil, 0, 0, 1)
}

func (tb *TB) Ule(a, b *Term) *Term { return tb.Not(tb.Ult(b, a)) }

func (tb *TB) Slt(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return KB(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if a == b {
		return tFalse
	}
	h := uint64(1) << (a.w - 1)
	an, bn := a.umin >= h, b.umin >= h // surely negative
	ap, bp := a.umax < h, b.umax < h   // surely non negative
	switch {
	case ap && bp, an && bn:
		return tb.Ult(a, b)
	case ap && bn:
		return tFalse
	case an && bp:
		return tTrue
	}
	if b.isZero() {
		return tb.Eq(tb.Extract(a, uint64(a.w-1), 1), K(1, 1))
	}
	return tb.mk(OSlt, 0, a, b, nil, 0, 0, 1)
}

func (tb *TB) Sle(a, b *Term) *Term { return tb.Not(tb.Slt(b, a)) }

// BytesEq over equal-length byte vectors, grouped to words where possible.
func (tb *TB) BytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	for i := range a {
		if a[i].op == OConst && b[i].op == OConst && a[i].val != b[i].val {
			return tFalse
		}
	}
	r := tTrue
	i := 0
	for i < len(a) {
		if a[i] == b[i] {
			i++
			continue
		}
		// greedy group of contiguous extracts from the same base on both sides
		n := 1
		for i+n < len(a) && n < 8 {
			if !contig(a[i+n-1], a[i+n]) || !contig(b[i+n-1], b[i+n]) {
				break
			}
			n++
		}
		var e *Term
		if n == 1 {
			e = tb.Eq(a[i], b[i])
		} else {
			e = tb.Eq(tb.concatN(a[i:i+n]), tb.concatN(b[i:i+n]))
		}
		if e == tFalse {
			return tFalse
		}
		r = tb.And(r, e)
		i += n
	}
	return r
}

func contig(p, q *Term) bool {
	if p.op == OConst && q.op == OConst {
		return true
	}
	return p.op == OExtract && q.op == OExtract && p.a == q.a && p.val == q.val+uint64(q.w)
}

// ---------- evaluation ----------

type Model map[uint32]uint64 // var index -> value

type evaler struct {
	tb   *TB
	m    Model
	ov   Model // overrides m
	memo map[*Term]uint64
}

func (m *Machine) evalerOf(mod Model) *evaler {
	return &evaler{tb: m.tb, m: mod, memo: map[*Term]uint64{}}
}

// variable gives the value of a variable; variables without a value get the
// lowest one of their range, oracle outputs a pseudo-random one.
func (e *evaler) variable(t *Term) uint64 {
	ix := uint32(t.val)
	if e.ov != nil {
		if v, ok := e.ov[ix]; ok {
			return v
		}
	}
	if v, ok := e.m[ix]; ok {
		return v
	}
	if e.tb.vinfo[ix].orac == nil || t.w == 0 {
		return t.umin
	}
	z := uint64(ix+1) * 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z = (z ^ (z >> 31)) & mask(t.w)
	if z < t.umin || z > t.umax {
		if r := t.umax - t.umin; r != mask(64) {
			z = t.umin + z%(r+1)
		}
	}
	return z
}

func (e *evaler) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.variable(t)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var v uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	m := mask(t.w)
	switch t.op {
	case ONot:
		v = 1 - e.eval(t.a)
	case OAnd:
		v = e.eval(t.a)
		if v != 0 {
			v = e.eval(t.b)
		}
	case OOr:
		v = e.eval(t.a)
		if v == 0 {
			v = e.eval(t.b)
		}
	case OEq:
		v = b2u(e.eval(t.a) == e.eval(t.b))
	case OUlt:
		v = b2u(e.eval(t.a) < e.eval(t.b))
	case OSlt:
		v = b2u(sx(e.eval(t.a), t.a.w) < sx(e.eval(t.b), t.b.w))
	case OBNot:
		v = ^e.eval(t.a) & m
	case OBAnd:
		v = e.eval(t.a) & e.eval(t.b)
	case OBOr:
		v = e.eval(t.a) | e.eval(t.b)
	case OBXor:
		v = e.eval(t.a) ^ e.eval(t.b)
	case OAdd:
		v = (e.eval(t.a) + e.eval(t.b)) & m
	case OMul:
		v = (e.eval(t.a) * e.eval(t.b)) & m
	case OUdiv:
		x, y := e.eval(t.a), e.eval(t.b)
		if y == 0 {
			v = m
		} else {
			v = x / y
		}
	case OUrem:
		x, y := e.eval(t.a), e.eval(t.b)
		if y == 0 {
			v = x
		} else {
			v = x % y
		}
	case OSdiv:
		x, y := sx(e.eval(t.a), t.w), sx(e.eval(t.b), t.w)
		switch {
		case y == 0:
			if x < 0 {
				v = 1
			} else {
				v = m
			}
		case y == -1:
			v = uint64(-x) & m
		default:
			v = uint64(x/y) & m
		}
	case OSrem:
		x, y := sx(e.eval(t.a), t.w), sx(e.eval(t.b), t.w)
		switch {
		case y == 0:
			v = uint64(x) & m
		case y == -1:
			v = 0
		default:
			v = uint64(x%y) & m
		}
	case OShl:
		x, y := e.eval(t.a), e.eval(t.b)
		if y < uint64(t.w) {
			v = x << y & m
		}
	case OLshr:
		x, y := e.eval(t.a), e.eval(t.b)
		if y < uint64(t.w) {
			v = x >> y
		}
	case OAshr:
		x, y := sx(e.eval(t.a), t.w), e.eval(t.b)
		if y >= uint64(t.w) {
			y = uint64(t.w) - 1
		}
		v = uint64(x>>y) & m
	case OConcat:
		v = e.eval(t.a)<<t.b.w | e.eval(t.b)
	case OExtract:
		v = e.eval(t.a) >> t.val & m
	case OSExt:
		v = uint64(sx(e.eval(t.a), t.a.w)) & m
	case OIte:
		if e.eval(t.a) != 0 {
			v = e.eval(t.b)
		} else {
			v = e.eval(t.c)
		}
	default:
		panic(fmt.Sprint("eval op ", t.op))
	}
	e.memo[t] = v
	return v
}

// collectVars adds var indices of t
func collectVars(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || t.op == OConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		f(t)
		return
	}
	collectVars(t.a, seen, f)
	collectVars(t.b, seen, f)
	collectVars(t.c, seen, f)
}
