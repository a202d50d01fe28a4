package main

// SSA -> closures compiler and executor.

import (
	"fmt"
	"go/constant"
	gotoken "go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	m         *Machine
	fn        *ssa.Function
	code      *code
	regs      []Value
	prev      int
	blk       int
	ret       Value
	done      bool
	defers    []func()
	panicking *goPanic
	owner     *frame // set when this frame is a deferred call run by owner
}

type instrF func(fr *frame)
type cblock struct {
	phis  []phiC
	ins   []instrF
	term  func(fr *frame) int
	npred []int
}
type phiC struct {
	dst  int
	edge []opnd
}
type code struct {
	fn       *ssa.Function
	blocks   []cblock
	nregs    int
	params   []int
	frees    []int
	hasDefer bool
	recov    int
}

type opnd struct {
	slot int
	c    Value
	g    *ssa.Global
}

func (o *opnd) get(fr *frame) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.g != nil {
		return Ptr{base: fr.m.globalCell(o.g)}
	}
	return o.c
}

var codeCache sync.Map // *ssa.Function -> *code

type compiler struct {
	slots map[ssa.Value]int
	fn    *ssa.Function
	c     *code
}

func (cp *compiler) slot(v ssa.Value) int {
	if s, ok := cp.slots[v]; ok {
		return s
	}
	s := len(cp.slots)
	cp.slots[v] = s
	return s
}

func (cp *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, c: constVal(x)}
	case *ssa.Global:
		return opnd{slot: -1, g: x}
	case *ssa.Function:
		return opnd{slot: -1, c: &Closure{fn: x}}
	case *ssa.Builtin:
		return opnd{slot: -1, c: x}
	}
	return opnd{slot: cp.slot(v)}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if w, _ := width(t); w != 255 {
		if w == 0 {
			return KB(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return K(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return K(w, u)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic("const " + c.String())
}

func compileFn(fn *ssa.Function) *code {
	if c, ok := codeCache.Load(fn); ok {
		return c.(*code)
	}
	c := &code{fn: fn, recov: -1}
	cp := &compiler{slots: map[ssa.Value]int{}, fn: fn, c: c}
	for _, p := range fn.Params {
		c.params = append(c.params, cp.slot(p))
	}
	for _, p := range fn.FreeVars {
		c.frees = append(c.frees, cp.slot(p))
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &c.blocks[i]
		for _, p := range b.Preds {
			cb.npred = append(cb.npred, p.Index)
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				ph := phiC{dst: cp.slot(x)}
				for _, e := range x.Edges {
					ph.edge = append(ph.edge, cp.op(e))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump:
				t := b.Succs[0].Index
				cb.term = func(fr *frame) int { return t }
			case *ssa.If:
				t, f := b.Succs[0].Index, b.Succs[1].Index
				cd := cp.op(x.Cond)
				cb.term = func(fr *frame) int {
					if fr.m.branch(cd.get(fr).(*Term)) {
						return t
					}
					return f
				}
			case *ssa.Return:
				var ops []opnd
				for _, r := range x.Results {
					ops = append(ops, cp.op(r))
				}
				cb.term = func(fr *frame) int {
					switch len(ops) {
					case 0:
						fr.ret = nil
					case 1:
						fr.ret = ops[0].get(fr)
					default:
						t := make(Tuple, len(ops))
						for i := range ops {
							t[i] = ops[i].get(fr)
						}
						fr.ret = t
					}
					fr.done = true
					return -1
				}
			case *ssa.Panic:
				o := cp.op(x.X)
				pos := x.Pos()
				cb.term = func(fr *frame) int {
					v := o.get(fr).(Iface)
					panic(&goPanic{val: v, msg: fr.m.panicText(v), where: fr.m.eng.posStr(pos, fr.fn)})
				}
			default:
				if _, ok := ins.(*ssa.Defer); ok {
					c.hasDefer = true
				}
				if f := cp.instr(ins); f != nil {
					cb.ins = append(cb.ins, f)
				}
			}
		}
	}
	c.nregs = len(cp.slots)
	if v, ok := codeCache.LoadOrStore(fn, c); ok {
		return v.(*code)
	}
	return c
}

// ---- calling ----

func (m *Machine) callFn(fn *ssa.Function, args []Value, env []Value, owner *frame) Value {
	if h := m.eng.lookupIntr(fn); h != nil {
		if h.nat != nil {
			r := h.nat(m, args)
			if r != fallback {
				return r
			}
		} else {
			fn = h.fn
		}
	}
	if fn.Blocks == nil {
		m.unsup("no body: %s", fn)
	}
	if m.eng.trackFn(fn) {
		m.eng.encoded(fn)
	}
	m.depth++
	if m.depth > 400 {
		// recursion bound: report as limit
		panic(&pathEnd{kind: endLimit, msg: "call depth limit in " + fn.String()})
	}
	m.stack = append(m.stack, fn)
	c := compileFn(fn)
	fr := &frame{m: m, fn: fn, code: c, regs: make([]Value, c.nregs), prev: -1, owner: owner}
	for i, s := range c.params {
		fr.regs[s] = args[i]
	}
	for i, s := range c.frees {
		fr.regs[s] = env[i]
	}
	if !c.hasDefer {
		fr.run(0)
	} else {
		fr.runProtected()
	}
	m.depth--
	m.stack = m.stack[:len(m.stack)-1]
	return fr.ret
}

func (fr *frame) run(blk int) {
	c := fr.code
	m := fr.m
	for {
		b := &c.blocks[blk]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.npred {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].edge[pi].get(fr)
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = b.phis[i].edge[pi].get(fr)
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		for _, f := range b.ins {
			f(fr)
		}
		m.steps += int64(len(b.ins)) + 1
		if m.steps > m.maxSteps {
			panic(&pathEnd{kind: endLimit, msg: "step limit in " + fr.fn.String()})
		}
		fr.blk = blk
		nx := b.term(fr)
		if nx < 0 {
			return
		}
		fr.prev = blk
		blk = nx
	}
}

func (fr *frame) protect(f func()) (gp *goPanic) {
	m := fr.m
	d, n := m.depth, len(m.stack)
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(*goPanic); ok {
				gp = g
				m.depth = d
				m.stack = m.stack[:n]
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (fr *frame) runProtected() {
	gp := fr.protect(func() { fr.run(0) })
	if gp == nil {
		return
	}
	fr.panicking = gp
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if g2 := fr.protect(d); g2 != nil {
			fr.panicking = g2
		}
	}
	if fr.panicking != nil {
		g := fr.panicking
		panic(g)
	}
	if fr.code.recov >= 0 {
		fr.prev = -1
		if g := fr.protect(func() { fr.run(fr.code.recov) }); g != nil {
			panic(g)
		}
		return
	}
	sig := fr.fn.Signature.Results()
	if sig.Len() > 0 {
		fr.ret = zeroVal(sig)
	}
}

func (m *Machine) callVal(f Value, args []Value) Value {
	cl, _ := f.(*Closure)
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return m.callClosure(cl, args, nil)
}

func (m *Machine) callClosure(cl *Closure, args []Value, owner *frame) Value {
	if cl.nat != nil {
		return cl.nat(m, args)
	}
	return m.callFn(cl.fn, args, cl.env, owner)
}

// invoke calls method nm on interface value.
func (m *Machine) invoke(iv Iface, meth *types.Func, args []Value, owner *frame) Value {
	if iv.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := m.eng.method(iv.t, meth)
	if fn == nil {
		m.unsup("no method %s on %s", meth.Name(), iv.t)
	}
	return m.callFn(fn, append([]Value{iv.v}, args...), nil, owner)
}

// callMethod looks a method up by name.
func (m *Machine) callMethod(iv Iface, name string, args ...Value) Value {
	if iv.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := m.eng.methodByName(iv.t, name)
	if fn == nil {
		m.unsup("no method %s on %s", name, iv.t)
	}
	return m.callFn(fn, append([]Value{iv.v}, args...), nil, nil)
}

func (m *Machine) rtPanic(f string, a ...interface{}) {
	msg := "runtime error: " + fmt.Sprintf(f, a...)
	w := ""
	if n := len(m.stack); n > 0 {
		w = m.stack[n-1].String()
	}
	panic(&goPanic{val: m.eng.rtError(msg), msg: msg, where: w, rt: true})
}

func (m *Machine) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(*Str); ok {
		if s.conc() {
			return s.s
		}
		return "<symbolic string>"
	}
	return typeStr(v.t)
}

type callC struct {
	fn     *ssa.Function
	val    opnd
	args   []opnd
	invoke *types.Func
	bi     *ssa.Builtin
	common *ssa.CallCommon
}

func (cp *compiler) call(c *ssa.CallCommon) *callC {
	cc := &callC{common: c}
	for _, a := range c.Args {
		cc.args = append(cc.args, cp.op(a))
	}
	if c.IsInvoke() {
		cc.invoke = c.Method
		cc.val = cp.op(c.Value)
		return cc
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		cc.fn = v
	case *ssa.Builtin:
		cc.bi = v
	default:
		cc.val = cp.op(v)
	}
	return cc
}

// prep evaluates operands and returns a thunk.
func (cc *callC) prep(fr *frame) func(owner *frame) Value {
	m := fr.m
	args := make([]Value, len(cc.args))
	for i := range cc.args {
		args[i] = cc.args[i].get(fr)
	}
	switch {
	case cc.invoke != nil:
		iv := cc.val.get(fr).(Iface)
		return func(o *frame) Value { return m.invoke(iv, cc.invoke, args, o) }
	case cc.fn != nil:
		return func(o *frame) Value { return m.callFn(cc.fn, args, nil, o) }
	case cc.bi != nil:
		return func(o *frame) Value { return m.builtin(fr, cc, args, o) }
	}
	cl, _ := cc.val.get(fr).(*Closure)
	return func(o *frame) Value {
		if cl == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callClosure(cl, args, o)
	}
}

func (cc *callC) do(fr *frame) Value {
	m := fr.m
	args := make([]Value, len(cc.args))
	for i := range cc.args {
		args[i] = cc.args[i].get(fr)
	}
	switch {
	case cc.fn != nil:
		return m.callFn(cc.fn, args, nil, nil)
	case cc.invoke != nil:
		return m.invoke(cc.val.get(fr).(Iface), cc.invoke, args, nil)
	case cc.bi != nil:
		return m.builtin(fr, cc, args, nil)
	}
	cl, _ := cc.val.get(fr).(*Closure)
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return m.callClosure(cl, args, nil)
}

// ---- memory ----

func (m *Machine) load(p Ptr) Value {
	switch b := p.base.(type) {
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *Cell:
		return copyVal(b.v)
	case *StructObj:
		if p.idx < 0 {
			return copyVal(b)
		}
		return copyVal(b.f[p.idx])
	case *ArrObj:
		if p.idx == -2 {
			return copyVal(b)
		}
		if p.sidx != nil {
			return m.selectArr(b, p.idx, p.sidx)
		}
		return copyVal(b.get(p.idx))
	case *view:
		return b.load(m)
	}
	m.unsup("load from %T", p.base)
	return nil
}

func (m *Machine) store(p Ptr, v Value) {
	switch b := p.base.(type) {
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *Cell:
		if !assignInto(b.v, v) {
			b.v = copyVal(v)
		}
		return
	case *StructObj:
		if !assignInto(b.f[p.idx], v) {
			b.f[p.idx] = copyVal(v)
		}
		return
	case *ArrObj:
		if p.idx == -2 {
			assignInto(b, v)
			return
		}
		if p.sidx != nil {
			m.storeSym(b, p.idx, p.sidx, v)
			return
		}
		if p.idx < len(b.data) && b.data[p.idx] != nil && assignInto(b.data[p.idx], v) {
			return
		}
		b.set(p.idx, copyVal(v))
		return
	case *view:
		b.store(m, v)
		return
	}
	m.unsup("store to %T", p.base)
}

// view is a reinterpreting pointer (unsafe casts between byte arrays and words).
type view struct {
	arr *ArrObj
	off int
	n   int
	w   uint8
}

func (v *view) load(m *Machine) Value {
	// little endian
	ps := make([]*Term, v.n)
	for i := 0; i < v.n; i++ {
		ps[v.n-1-i] = v.arr.get(v.off + i).(*Term)
	}
	return m.tb.concatN(ps)
}
func (v *view) store(m *Machine, x Value) {
	t := x.(*Term)
	for i := 0; i < v.n; i++ {
		v.arr.set(v.off+i, m.tb.Extract(t, uint64(8*i), 8))
	}
}

const selLimit = 300

// selectArr reads a[off+idx] with symbolic idx (already bounds checked).
func (m *Machine) selectArr(a *ArrObj, off int, idx *Term) Value {
	lo, hi := int(idx.umin), idx.umax
	if hi > uint64(selLimit+lo) {
		i := int(m.concretize(idx, m.eng.opt.concLimit))
		return copyVal(a.get(off + i))
	}
	if _, ok := a.get(off + lo).(*Term); !ok {
		i := int(m.concretize(idx, m.eng.opt.concLimit))
		return copyVal(a.get(off + i))
	}
	n := int(hi)
	if a.n.op == OConst {
		if mx := int(a.n.val) - off - 1; n > mx {
			n = mx
		}
	}
	// balanced tree on index
	var build func(l, h int) *Term
	build = func(l, h int) *Term {
		if l == h {
			return a.get(off + l).(*Term)
		}
		same := true
		x := a.get(off + l)
		for i := l + 1; i <= h; i++ {
			if a.get(off+i) != x {
				same = false
				break
			}
		}
		if same {
			return x.(*Term)
		}
		md := (l + h) / 2
		return m.tb.Ite(m.tb.Ult(idx, K(64, uint64(md+1))), build(l, md), build(md+1, h))
	}
	return build(lo, n)
}

func (m *Machine) storeSym(a *ArrObj, off int, idx *Term, v Value) {
	lo, hi := int(idx.umin), idx.umax
	t, ok := v.(*Term)
	if !ok || hi > uint64(selLimit+lo) {
		i := int(m.concretize(idx, m.eng.opt.concLimit))
		a.set(off+i, copyVal(v))
		return
	}
	n := int(hi)
	if a.n.op == OConst {
		if mx := int(a.n.val) - off - 1; n > mx {
			n = mx
		}
	}
	for i := lo; i <= n; i++ {
		a.set(off+i, m.tb.Ite(m.tb.Eq(idx, K(64, uint64(i))), t, a.get(off+i).(*Term)))
	}
}

// idx64 converts an index operand to 64 bits.
func (m *Machine) idx64(v Value, t types.Type) *Term {
	x := v.(*Term)
	w, signed := width(t)
	if w == 64 {
		return x
	}
	if signed {
		return m.tb.SExt(x, 64)
	}
	return m.tb.ZExt(x, 64)
}

func (m *Machine) checkIdx(i, n *Term) {
	c := m.tb.Ult(i, n)
	if !m.branch(c) {
		m.rtPanic("index out of range")
	}
}

func (m *Machine) elemPtr(arr *ArrObj, off int, i *Term) Ptr {
	if i.op == OConst {
		return Ptr{base: arr, idx: off + int(i.val)}
	}
	if w, _ := width(arr.et); w == 255 || i.umax > uint64(selLimit)+i.umin {
		return Ptr{base: arr, idx: off + int(m.concretize(i, m.eng.opt.concLimit))}
	}
	return Ptr{base: arr, idx: off, sidx: i}
}

func derefArr(m *Machine, p Ptr) *ArrObj {
	switch b := p.base.(type) {
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *Cell:
		if a, ok := b.v.(*ArrObj); ok {
			return a
		}
	case *StructObj:
		if a, ok := b.f[p.idx].(*ArrObj); ok {
			return a
		}
	case *ArrObj:
		if p.idx == -2 {
			return b
		}
		if a, ok := b.get(p.idx).(*ArrObj); ok {
			return a
		}
	}
	m.unsup("derefArr %T", p.base)
	return nil
}

func derefStruct(m *Machine, p Ptr) *StructObj {
	switch b := p.base.(type) {
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *Cell:
		if a, ok := b.v.(*StructObj); ok {
			return a
		}
	case *StructObj:
		if p.idx < 0 {
			return b
		}
		if a, ok := b.f[p.idx].(*StructObj); ok {
			return a
		}
	case *ArrObj:
		if p.sidx != nil {
			p.idx += int(m.concretize(p.sidx, m.eng.opt.concLimit))
		}
		if a, ok := b.get(p.idx).(*StructObj); ok {
			return a
		}
	}
	m.unsup("derefStruct %T", p.base)
	return nil
}

// ---- instructions ----

func (cp *compiler) instr(ins ssa.Instruction) instrF {
	switch x := ins.(type) {
	case *ssa.Alloc:
		d := cp.slot(x)
		et := x.Type().(*types.Pointer).Elem()
		return func(fr *frame) { fr.regs[d] = Ptr{base: &Cell{v: zeroVal(et)}} }
	case *ssa.UnOp:
		return cp.unop(x)
	case *ssa.BinOp:
		d, a, b := cp.slot(x), cp.op(x.X), cp.op(x.Y)
		op, xt, yt := x.Op, x.X.Type(), x.Y.Type()
		return func(fr *frame) { fr.regs[d] = fr.m.binop(op, xt, yt, a.get(fr), b.get(fr)) }
	case *ssa.Call:
		d := cp.slot(x)
		cc := cp.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = cc.do(fr) }
	case *ssa.ChangeInterface:
		d, a := cp.slot(x), cp.op(x.X)
		return func(fr *frame) { fr.regs[d] = a.get(fr) }
	case *ssa.ChangeType:
		d, a := cp.slot(x), cp.op(x.X)
		return func(fr *frame) { fr.regs[d] = a.get(fr) }
	case *ssa.Convert:
		d, a := cp.slot(x), cp.op(x.X)
		ft, tt := x.X.Type(), x.Type()
		return func(fr *frame) { fr.regs[d] = fr.m.convert(a.get(fr), ft, tt) }
	case *ssa.MultiConvert:
		d, a := cp.slot(x), cp.op(x.X)
		ft, tt := x.X.Type(), x.Type()
		return func(fr *frame) { fr.regs[d] = fr.m.convert(a.get(fr), ft, tt) }
	case *ssa.SliceToArrayPointer:
		d, a := cp.slot(x), cp.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			m := fr.m
			s := a.get(fr).(SliceV)
			if m.branch(m.tb.Ult(s.len, K(64, uint64(n)))) {
				m.rtPanic("cannot convert slice to array pointer: length too short")
			}
			if s.arr == nil {
				fr.regs[d] = Ptr{}
				return
			}
			if s.off == 0 && s.arr.n.op == OConst && s.arr.n.val == uint64(n) {
				fr.regs[d] = Ptr{base: s.arr, idx: -2}
				return
			}
			// copy-out view: unsupported aliasing; make a copy (read-only uses)
			na := &ArrObj{et: s.arr.et, n: K(64, uint64(n))}
			for i := 0; i < int(n); i++ {
				na.set(i, s.arr.get(s.off+i))
			}
			fr.regs[d] = Ptr{base: na, idx: -2}
		}
	case *ssa.MakeInterface:
		d, a := cp.slot(x), cp.op(x.X)
		t := x.X.Type()
		return func(fr *frame) { fr.regs[d] = Iface{t: t, v: a.get(fr)} }
	case *ssa.MakeClosure:
		d := cp.slot(x)
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, cp.op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeMap:
		d := cp.slot(x)
		mt := x.Type().Underlying().(*types.Map)
		return func(fr *frame) { fr.regs[d] = newMap(mt) }
	case *ssa.MakeChan:
		d, a := cp.slot(x), cp.op(x.Size)
		return func(fr *frame) { fr.regs[d] = &ChanV{cap: int(fr.m.concInt(a.get(fr).(*Term)))} }
	case *ssa.MakeSlice:
		d, l, c := cp.slot(x), cp.op(x.Len), cp.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lt, ct := x.Len.Type(), x.Cap.Type()
		return func(fr *frame) {
			m := fr.m
			fr.regs[d] = m.makeSlice(et, m.idx64(l.get(fr), lt), m.idx64(c.get(fr), ct))
		}
	case *ssa.Slice:
		d, a := cp.slot(x), cp.op(x.X)
		var lo, hi, mx *opnd
		var lt, ht, mt types.Type
		if x.Low != nil {
			o := cp.op(x.Low)
			lo, lt = &o, x.Low.Type()
		}
		if x.High != nil {
			o := cp.op(x.High)
			hi, ht = &o, x.High.Type()
		}
		if x.Max != nil {
			o := cp.op(x.Max)
			mx, mt = &o, x.Max.Type()
		}
		return func(fr *frame) {
			m := fr.m
			var l, h, c *Term
			if lo != nil {
				l = m.idx64(lo.get(fr), lt)
			}
			if hi != nil {
				h = m.idx64(hi.get(fr), ht)
			}
			if mx != nil {
				c = m.idx64(mx.get(fr), mt)
			}
			fr.regs[d] = m.sliceOp(a.get(fr), l, h, c)
		}
	case *ssa.Field:
		d, a := cp.slot(x), cp.op(x.X)
		f := x.Field
		return func(fr *frame) { fr.regs[d] = a.get(fr).(*StructObj).f[f] }
	case *ssa.FieldAddr:
		d, a := cp.slot(x), cp.op(x.X)
		f := x.Field
		return func(fr *frame) {
			s := derefStruct(fr.m, a.get(fr).(Ptr))
			fr.regs[d] = Ptr{base: s, idx: f}
		}
	case *ssa.Index:
		d, a, i := cp.slot(x), cp.op(x.X), cp.op(x.Index)
		it := x.Index.Type()
		return func(fr *frame) {
			m := fr.m
			ix := m.idx64(i.get(fr), it)
			switch v := a.get(fr).(type) {
			case *ArrObj:
				m.checkIdx(ix, v.n)
				fr.regs[d] = m.load(m.elemPtr(v, 0, ix))
			case *Str:
				fr.regs[d] = m.strIndex(v, ix)
			default:
				m.unsup("index %T", v)
			}
		}
	case *ssa.IndexAddr:
		d, a, i := cp.slot(x), cp.op(x.X), cp.op(x.Index)
		it := x.Index.Type()
		return func(fr *frame) {
			m := fr.m
			ix := m.idx64(i.get(fr), it)
			switch v := a.get(fr).(type) {
			case SliceV:
				m.checkIdx(ix, v.len)
				fr.regs[d] = m.elemPtr(v.arr, v.off, ix)
			case Ptr:
				arr := derefArr(m, v)
				m.checkIdx(ix, arr.n)
				fr.regs[d] = m.elemPtr(arr, 0, ix)
			default:
				m.unsup("indexaddr %T", v)
			}
		}
	case *ssa.Lookup:
		d, a, i := cp.slot(x), cp.op(x.X), cp.op(x.Index)
		it := x.Index.Type()
		ok := x.CommaOk
		xt := x.X.Type()
		return func(fr *frame) {
			m := fr.m
			switch v := a.get(fr).(type) {
			case *Str:
				fr.regs[d] = m.strIndex(v, m.idx64(i.get(fr), it))
			case *MapV:
				e := m.mapFind(v, i.get(fr))
				var val Value
				if e != nil {
					val = copyVal(e.v)
				} else {
					val = zeroVal(xt.Underlying().(*types.Map).Elem())
				}
				if ok {
					fr.regs[d] = Tuple{val, KB(e != nil)}
				} else {
					fr.regs[d] = val
				}
			}
		}
	case *ssa.Extract:
		d, a := cp.slot(x), cp.op(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.regs[d] = a.get(fr).(Tuple)[i] }
	case *ssa.Store:
		a, v := cp.op(x.Addr), cp.op(x.Val)
		return func(fr *frame) { fr.m.store(a.get(fr).(Ptr), v.get(fr)) }
	case *ssa.MapUpdate:
		a, k, v := cp.op(x.Map), cp.op(x.Key), cp.op(x.Value)
		return func(fr *frame) {
			mv := a.get(fr).(*MapV)
			if mv == nil {
				fr.m.plainPanic("assignment to entry in nil map")
			}
			fr.m.mapSet(mv, k.get(fr), copyVal(v.get(fr)))
		}
	case *ssa.Range:
		d, a := cp.slot(x), cp.op(x.X)
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case *MapV:
				it := &RangeIter{m: v}
				if v != nil {
					it.keys = append(it.keys, v.ents...)
				}
				fr.regs[d] = it
			case *Str:
				fr.regs[d] = &RangeIter{str: v}
			}
		}
	case *ssa.Next:
		d, a := cp.slot(x), cp.op(x.Iter)
		mt := x.Type().(*types.Tuple)
		return func(fr *frame) { fr.regs[d] = fr.m.next(a.get(fr).(*RangeIter), mt) }
	case *ssa.TypeAssert:
		return cp.typeAssert(x)
	case *ssa.Defer:
		cc := cp.call(&x.Call)
		return func(fr *frame) {
			th := cc.prep(fr)
			fr.defers = append(fr.defers, func() { th(fr) })
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				d()
			}
		}
	case *ssa.Go:
		return func(fr *frame) { fr.m.unsup("goroutine") }
	case *ssa.Send:
		a, v := cp.op(x.Chan), cp.op(x.X)
		return func(fr *frame) {
			ch := a.get(fr).(*ChanV)
			if ch == nil || len(ch.buf) >= ch.cap {
				fr.m.unsup("blocking channel send")
			}
			ch.buf = append(ch.buf, v.get(fr))
		}
	case *ssa.Select:
		return func(fr *frame) { fr.m.unsup("select") }
	}
	s := fmt.Sprintf("%T", ins)
	return func(fr *frame) { fr.m.unsup("instr %s", s) }
}

func (m *Machine) plainPanic(msg string) {
	w := ""
	if n := len(m.stack); n > 0 {
		w = m.stack[n-1].String()
	}
	panic(&goPanic{val: Iface{t: types.Typ[types.String], v: mkStr(msg)}, msg: msg, where: w})
}

func (m *Machine) makeSlice(et types.Type, l, c *Term) SliceV {
	tb := m.tb
	// runtime: panics if len out of range (element size folded in)
	sz := uint64(sizeof(et))
	if sz == 0 {
		sz = 1
	}
	maxn := uint64(1<<47) / sz
	if m.branch(tb.Ult(K(64, maxn), l)) {
		m.rtPanic("makeslice: len out of range")
	}
	if l != c {
		if m.branch(tb.Ult(K(64, maxn), c)) || m.branch(tb.Ult(c, l)) {
			m.rtPanic("makeslice: cap out of range")
		}
	}
	big := uint64(m.eng.opt.memLimit) / sz
	if m.branch(tb.Ult(K(64, big), c)) {
		panic(&goPanic{val: m.eng.rtError("out of memory"), msg: "fatal error: runtime: out of memory (allocation above the model's memory limit)", where: m.where(), rt: true})
	}
	return SliceV{arr: &ArrObj{et: et, n: c}, len: l, cap: c}
}

func sizeof(t types.Type) int64 {
	defer func() { recover() }()
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// sliceOp implements x[lo:hi:max].
func (m *Machine) sliceOp(v Value, lo, hi, mx *Term) Value {
	tb := m.tb
	zero := K(64, 0)
	switch s := v.(type) {
	case *Str:
		n := I64(s.Len())
		if lo == nil {
			lo = zero
		}
		if hi == nil {
			hi = n
		}
		if !m.branch(tb.Ule(hi, n)) || !m.branch(tb.Ule(lo, hi)) {
			m.rtPanic("slice bounds out of range")
		}
		l, h := m.concInt(lo), m.concInt(hi)
		return s.sub(l, h)
	case SliceV:
		if lo == nil {
			lo = zero
		}
		c := s.cap
		if mx != nil {
			if !m.branch(tb.Ule(mx, c)) {
				m.rtPanic("slice bounds out of range")
			}
			c = mx
		}
		if hi == nil {
			hi = s.len
		} else if !m.branch(tb.Ule(hi, c)) {
			m.rtPanic("slice bounds out of range [:hi] with capacity")
		}
		if !m.branch(tb.Ule(lo, hi)) {
			m.rtPanic("slice bounds out of range")
		}
		l := m.concInt(lo)
		lt := I64(l)
		if s.arr == nil {
			return s
		}
		return SliceV{arr: s.arr, off: s.off + l, len: tb.Sub(hi, lt), cap: tb.Sub(c, lt)}
	case Ptr:
		arr := derefArr(m, s)
		return m.sliceOp(SliceV{arr: arr, len: arr.n, cap: arr.n}, lo, hi, mx)
	}
	m.unsup("slice of %T", v)
	return nil
}

func (m *Machine) strIndex(s *Str, ix *Term) Value {
	m.checkIdx(ix, I64(s.Len()))
	if ix.op == OConst {
		return s.At(int(ix.val))
	}
	b := s.Bytes()
	a := &ArrObj{et: types.Typ[types.Uint8], n: I64(len(b))}
	for i := range b {
		a.set(i, b[i])
	}
	return m.selectArr(a, 0, ix)
}

func (cp *compiler) unop(x *ssa.UnOp) instrF {
	d, a := cp.slot(x), cp.op(x.X)
	switch x.Op {
	case gotoken.MUL:
		return func(fr *frame) { fr.regs[d] = fr.m.load(a.get(fr).(Ptr)) }
	case gotoken.NOT:
		return func(fr *frame) { fr.regs[d] = fr.m.tb.Not(a.get(fr).(*Term)) }
	case gotoken.SUB:
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case *Term:
				fr.regs[d] = fr.m.tb.Neg(v)
			case float64:
				fr.regs[d] = -v
			}
		}
	case gotoken.XOR:
		return func(fr *frame) { fr.regs[d] = fr.m.tb.BNot(a.get(fr).(*Term)) }
	case gotoken.ARROW:
		ok := x.CommaOk
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			ch := a.get(fr).(*ChanV)
			if ch == nil || (len(ch.buf) == 0 && !ch.cls) {
				fr.m.unsup("blocking channel receive")
			}
			var v Value
			got := false
			if len(ch.buf) > 0 {
				v = ch.buf[0]
				ch.buf = ch.buf[1:]
				got = true
			} else {
				v = zeroVal(et)
			}
			if ok {
				fr.regs[d] = Tuple{v, KB(got)}
			} else {
				fr.regs[d] = v
			}
		}
	}
	return func(fr *frame) { fr.m.unsup("unop %s", x.Op) }
}

func (m *Machine) binop(op gotoken.Token, xt, yt types.Type, a, b Value) Value {
	tb := m.tb
	switch op {
	case gotoken.EQL:
		return m.eqVal(xt, a, b)
	case gotoken.NEQ:
		return tb.Not(m.eqVal(xt, a, b))
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		w, signed := width(xt)
		if w == 0 {
			switch op {
			case gotoken.AND:
				return tb.And(x, y)
			case gotoken.OR:
				return tb.Or(x, y)
			}
		}
		switch op {
		case gotoken.ADD:
			return tb.Add(x, y)
		case gotoken.SUB:
			return tb.Sub(x, y)
		case gotoken.MUL:
			return tb.Mul(x, y)
		case gotoken.QUO, gotoken.REM:
			if m.branch(tb.Eq(y, K(w, 0))) {
				m.rtPanic("integer divide by zero")
			}
			if signed {
				if op == gotoken.QUO {
					return tb.Sdiv(x, y)
				}
				return tb.Srem(x, y)
			}
			if op == gotoken.QUO {
				return tb.Udiv(x, y)
			}
			return tb.Urem(x, y)
		case gotoken.AND:
			return tb.BAnd(x, y)
		case gotoken.OR:
			return tb.BOr(x, y)
		case gotoken.XOR:
			return tb.BXor(x, y)
		case gotoken.AND_NOT:
			return tb.BAnd(x, tb.BNot(y))
		case gotoken.SHL, gotoken.SHR:
			yw, ysigned := width(yt)
			if ysigned {
				if m.branch(tb.Slt(y, K(yw, 0))) {
					m.rtPanic("negative shift amount")
				}
			}
			// normalise count to width w, saturating
			var c *Term
			if y.op == OConst {
				v := y.val
				if v > 64 {
					v = 64
				}
				if v >= uint64(w) {
					if op == gotoken.SHR && signed {
						return tb.Ashr(x, K(w, uint64(w)-1))
					}
					return K(w, 0)
				}
				c = K(w, v)
			} else if yw <= w {
				c = tb.ZExt(y, w)
			} else {
				over := tb.Not(tb.Ult(y, K(yw, uint64(w))))
				c = tb.Ite(over, K(w, uint64(w)), tb.Extract(y, 0, w))
				if w < 8 {
					m.unsup("narrow shift")
				}
			}
			if op == gotoken.SHL {
				return tb.Shl(x, c)
			}
			if signed {
				return tb.Ashr(x, c)
			}
			return tb.Lshr(x, c)
		case gotoken.LSS:
			if signed {
				return tb.Slt(x, y)
			}
			return tb.Ult(x, y)
		case gotoken.LEQ:
			if signed {
				return tb.Sle(x, y)
			}
			return tb.Ule(x, y)
		case gotoken.GTR:
			if signed {
				return tb.Slt(y, x)
			}
			return tb.Ult(y, x)
		case gotoken.GEQ:
			if signed {
				return tb.Sle(y, x)
			}
			return tb.Ule(y, x)
		}
	case *Str:
		y := b.(*Str)
		switch op {
		case gotoken.ADD:
			return strCat(x, y)
		case gotoken.LSS:
			return m.strLess(x, y)
		case gotoken.GTR:
			return m.strLess(y, x)
		case gotoken.LEQ:
			return tb.Not(m.strLess(y, x))
		case gotoken.GEQ:
			return tb.Not(m.strLess(x, y))
		}
	case float64:
		y := b.(float64)
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case gotoken.ADD:
			return r(x + y)
		case gotoken.SUB:
			return r(x - y)
		case gotoken.MUL:
			return r(x * y)
		case gotoken.QUO:
			return r(x / y)
		case gotoken.LSS:
			return KB(x < y)
		case gotoken.LEQ:
			return KB(x <= y)
		case gotoken.GTR:
			return KB(x > y)
		case gotoken.GEQ:
			return KB(x >= y)
		}
	}
	m.unsup("binop %s on %T", op, a)
	return nil
}

func strCat(a, b *Str) *Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.conc() && b.conc() {
		return mkStr(a.s + b.s)
	}
	return &Str{b: append(append([]*Term{}, a.Bytes()...), b.Bytes()...)}
}

func (m *Machine) strLess(a, b *Str) *Term {
	if a.conc() && b.conc() {
		return KB(a.s < b.s)
	}
	return m.bytesLess(a.Bytes(), b.Bytes())
}

func (m *Machine) bytesLess(a, b []*Term) *Term {
	tb := m.tb
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := KB(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = tb.Or(tb.Ult(a[i], b[i]), tb.And(tb.Eq(a[i], b[i]), r))
	}
	return r
}

func (m *Machine) strEq(a, b *Str) *Term {
	if a.conc() && b.conc() {
		if a.s == b.s {
			return tTrue
		}
		if hasTok(a.s) || hasTok(b.s) {
			return m.tokEq(a.s, b.s)
		}
		return tFalse
	}
	if a.Len() != b.Len() {
		return tFalse
	}
	return m.tb.BytesEq(m.expandTerms(a.Bytes()), m.expandTerms(b.Bytes()))
}

func (m *Machine) eqVal(t types.Type, a, b Value) *Term {
	tb := m.tb
	switch x := a.(type) {
	case *Term:
		return tb.Eq(x, b.(*Term))
	case *Str:
		return m.strEq(x, b.(*Str))
	case float64:
		return KB(x == b.(float64))
	case Ptr:
		return KB(ptrEq(x, b.(Ptr)))
	case SliceV: // comparison with nil
		y := b.(SliceV)
		if y.arr == nil {
			return KB(x.arr == nil)
		}
		if x.arr == nil {
			return KB(y.arr == nil)
		}
		m.unsup("slice compare")
	case *MapV:
		return KB(x == b.(*MapV))
	case *ChanV:
		return KB(x == b.(*ChanV))
	case *Closure:
		y := b.(*Closure)
		return KB(x == y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			m.unsup("iface compare with %T", b)
		}
		if x.t == nil || y.t == nil {
			return KB(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type %s", x.t)
		}
		return m.eqVal(x.t, x.v, y.v)
	case *StructObj:
		y := b.(*StructObj)
		st := t.Underlying().(*types.Struct)
		r := tTrue
		for i := range x.f {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tb.And(r, m.eqVal(st.Field(i).Type(), x.f[i], y.f[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case *ArrObj:
		y := b.(*ArrObj)
		r := tTrue
		n := m.concInt(x.n)
		for i := 0; i < n; i++ {
			r = tb.And(r, m.eqVal(x.et, x.get(i), y.get(i)))
			if r == tFalse {
				return r
			}
		}
		return r
	case nil:
		return KB(b == nil)
	case complex128:
		return KB(x == b.(complex128))
	}
	m.unsup("eq on %T", a)
	return nil
}

func (m *Machine) convert(v Value, ft, tt types.Type) Value {
	fu, tu := ft.Underlying(), tt.Underlying()
	if tw, _ := width(tt); tw != 255 && tw != 0 {
		switch x := v.(type) {
		case *Term:
			fw, fs := width(ft)
			if tw <= fw {
				return m.tb.Extract(x, 0, tw)
			}
			if fs {
				return m.tb.SExt(x, tw)
			}
			return m.tb.ZExt(x, tw)
		case float64:
			_, ts := width(tt)
			if ts {
				return K(tw, uint64(int64(x)))
			}
			if x >= math.MaxInt64 {
				return K(tw, uint64(x))
			}
			return K(tw, uint64(int64(x)))
		case Ptr:
			m.unsup("unsafe pointer to uintptr")
		}
	}
	if isFloat(tt) {
		f32 := tu.(*types.Basic).Kind() == types.Float32
		switch x := v.(type) {
		case *Term:
			fw, fs := width(ft)
			c := m.concretize(x, m.eng.opt.concLimit)
			var f float64
			if fs {
				f = float64(sx(c, fw))
			} else {
				f = float64(c)
			}
			if f32 {
				f = float64(float32(f))
			}
			return f
		case float64:
			if f32 {
				return float64(float32(x))
			}
			return x
		}
	}
	if isString(tt) {
		switch x := v.(type) {
		case *Str:
			return x
		case SliceV:
			et := fu.(*types.Slice).Elem()
			if w, _ := width(et); w == 8 {
				return m.sliceStr(x)
			}
			// runes
			n := m.concInt(x.len)
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteRune(rune(m.concInt(x.arr.get(x.off + i).(*Term))))
			}
			return mkStr(sb.String())
		case *Term:
			return mkStr(string(rune(m.concInt(x))))
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			if w, _ := width(sl.Elem()); w == 8 {
				return m.strSlice(s, sl.Elem())
			}
			if !s.conc() {
				m.unsup("[]rune of symbolic string")
			}
			rs := []rune(s.s)
			a := &ArrObj{et: sl.Elem(), n: I64(len(rs))}
			for i, r := range rs {
				a.set(i, K(32, uint64(uint32(r))))
			}
			return SliceV{arr: a, len: a.n, cap: a.n}
		}
	}
	if p, ok := v.(Ptr); ok {
		return m.castPtr(p, ft, tt)
	}
	if types.Identical(fu, tu) {
		return v
	}
	m.unsup("convert %s -> %s", ft, tt)
	return nil
}

func (m *Machine) castPtr(p Ptr, ft, tt types.Type) Value {
	// unsafe.Pointer conversions keep the pointer; width-changing views of byte arrays supported.
	if tp, ok := tt.Underlying().(*types.Pointer); ok {
		if a, ok := p.base.(*ArrObj); ok && p.idx >= 0 && p.sidx == nil {
			if ew, _ := width(a.et); ew == 8 {
				if w, _ := width(tp.Elem()); w != 255 && w > 8 {
					return Ptr{base: &view{arr: a, off: p.idx, n: int(w / 8), w: w}}
				}
			}
		}
	}
	return p
}

func (m *Machine) sliceTerms(s SliceV) []*Term {
	if s.arr == nil {
		return nil
	}
	n := m.concInt(s.len)
	out := make([]*Term, n)
	for i := range out {
		out[i] = s.arr.get(s.off + i).(*Term)
	}
	return out
}

func (m *Machine) sliceStr(s SliceV) *Str { return strOf(m.sliceTerms(s)) }

var byteT = types.Typ[types.Uint8]

func (m *Machine) strSlice(s *Str, et types.Type) SliceV {
	n := s.Len()
	a := &ArrObj{et: et, n: I64(n), data: make([]Value, n)}
	for i := 0; i < n; i++ {
		a.data[i] = s.At(i)
	}
	return SliceV{arr: a, len: a.n, cap: a.n}
}

func (m *Machine) termsSlice(ts []*Term) SliceV {
	a := &ArrObj{et: byteT, n: I64(len(ts)), data: make([]Value, len(ts))}
	for i, t := range ts {
		a.data[i] = t
	}
	return SliceV{arr: a, len: a.n, cap: a.n}
}

func (m *Machine) concSlice(b []byte) SliceV {
	a := &ArrObj{et: byteT, n: I64(len(b)), data: make([]Value, len(b))}
	for i, t := range b {
		a.data[i] = K(8, uint64(t))
	}
	return SliceV{arr: a, len: a.n, cap: a.n}
}

func nilSlice() SliceV { return SliceV{len: K(64, 0), cap: K(64, 0)} }

// concBytes returns concrete bytes or ok=false.
func concBytes(ts []*Term) ([]byte, bool) {
	out := make([]byte, len(ts))
	for i, t := range ts {
		if t.op != OConst {
			return nil, false
		}
		out[i] = byte(t.val)
	}
	return out, true
}

func (cp *compiler) typeAssert(x *ssa.TypeAssert) instrF {
	d, a := cp.slot(x), cp.op(x.X)
	at := x.AssertedType
	isI := types.IsInterface(at)
	return func(fr *frame) {
		m := fr.m
		iv := a.get(fr).(Iface)
		ok := false
		if iv.t != nil {
			if isI {
				ok = m.eng.implements(iv.t, at)
			} else {
				ok = types.Identical(iv.t, at)
			}
		}
		var v Value
		if ok {
			if isI {
				v = iv
			} else {
				v = copyVal(iv.v)
			}
		}
		if x.CommaOk {
			if !ok {
				v = zeroVal(at)
			}
			fr.regs[d] = Tuple{v, KB(ok)}
			return
		}
		if !ok {
			m.rtPanic("interface conversion: %s is not %s", typeStr(iv.t), at)
		}
		fr.regs[d] = v
	}
}

// ---- maps ----

func newMap(t *types.Map) *MapV { return &MapV{t: t, idx: map[string]*mapEnt{}} }

func keyRepr(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return "", false
		}
		return fmt.Sprintf("i%d", x.val), true
	case *Str:
		if !x.conc() || hasTok(x.s) {
			return "", false
		}
		return "s" + x.s, true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := keyRepr(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case Ptr:
		return fmt.Sprintf("p%p/%d", x.base, x.idx), x.sidx == nil
	case *StructObj:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x.f {
			k, ok := keyRepr(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case *ArrObj:
		var sb strings.Builder
		sb.WriteString("[")
		if x.n.op != OConst {
			return "", false
		}
		for i := 0; i < int(x.n.val); i++ {
			k, ok := keyRepr(x.get(i))
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case float64:
		return fmt.Sprintf("f%v", x), true
	}
	return "", false
}

func (m *Machine) mapFind(mv *MapV, k Value) *mapEnt {
	if mv == nil {
		return nil
	}
	kr, ok := keyRepr(k)
	if ok {
		if e := mv.idx[kr]; e != nil && !e.dead {
			return e
		}
		if mv.nsym == 0 {
			return nil
		}
	}
	for _, e := range mv.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, ok2 := keyRepr(e.k); ok2 {
				continue
			}
		}
		if m.branch(m.eqVal(mv.t.Key(), e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mv *MapV, k, v Value) {
	if e := m.mapFind(mv, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: copyVal(k), v: v}
	mv.ents = append(mv.ents, e)
	mv.live++
	if kr, ok := keyRepr(k); ok {
		mv.idx[kr] = e
	} else {
		mv.nsym++
	}
}

func (m *Machine) mapDel(mv *MapV, k Value) {
	e := m.mapFind(mv, k)
	if e == nil {
		return
	}
	e.dead = true
	mv.live--
	if kr, ok := keyRepr(e.k); ok {
		delete(mv.idx, kr)
	} else {
		mv.nsym--
	}
	for i, x := range mv.ents {
		if x == e {
			mv.ents = append(append([]*mapEnt{}, mv.ents[:i]...), mv.ents[i+1:]...)
			break
		}
	}
}

func (m *Machine) next(it *RangeIter, mt *types.Tuple) Value {
	if it.str != nil {
		s := it.str
		if !s.conc() {
			if it.pos >= s.Len() {
				return Tuple{tFalse, K(64, 0), K(32, 0)}
			}
			// symbolic: assume ASCII by branching
			c := s.At(it.pos)
			if !m.branch(m.tb.Ult(c, K(8, 0x80))) {
				m.unsup("range over symbolic non-ASCII string")
			}
			r := Tuple{tTrue, I64(it.pos), m.tb.ZExt(c, 32)}
			it.pos++
			return r
		}
		if it.pos >= len(s.s) {
			return Tuple{tFalse, K(64, 0), K(32, 0)}
		}
		for i, r := range s.s[it.pos:] {
			_ = i
			n := len(string(r))
			if r == 0xFFFD {
				// decode size properly
				n = runeSize(s.s[it.pos:])
			}
			t := Tuple{tTrue, I64(it.pos), K(32, uint64(uint32(r)))}
			it.pos += n
			return t
		}
	}
	for it.pos < len(it.keys) {
		e := it.keys[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{tTrue, e.k, copyVal(e.v)}
	}
	z := Tuple{tFalse, nil, nil}
	if it.m != nil {
		z[1], z[2] = zeroVal(it.m.t.Key()), zeroVal(it.m.t.Elem())
	} else {
		if t := mt.At(1).Type(); t != nil && t != types.Typ[types.Invalid] {
			z[1] = zeroVal(t)
		}
		if t := mt.At(2).Type(); t != nil && t != types.Typ[types.Invalid] {
			z[2] = zeroVal(t)
		}
	}
	return z
}

func runeSize(s string) int {
	for i := range s {
		if i > 0 {
			return i
		}
	}
	return len(s)
}

// ---- builtins ----

func (m *Machine) builtin(fr *frame, cc *callC, args []Value, owner *frame) Value {
	tb := m.tb
	switch cc.bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return x.len
		case *Str:
			return I64(x.Len())
		case *MapV:
			if x == nil {
				return I64(0)
			}
			return I64(x.live)
		case *ArrObj:
			return x.n
		case Ptr:
			if x.isNil() {
				at := cc.common.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return I64(int(at.Len()))
			}
			return derefArr(m, x).n
		case *ChanV:
			return I64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return x.cap
		case *ArrObj:
			return x.n
		case Ptr:
			return derefArr(m, x).n
		case *ChanV:
			return I64(x.cap)
		}
	case "append":
		s := args[0].(SliceV)
		var et types.Type
		if sl, ok := cc.common.Args[0].Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = byteT
		}
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case *Str:
			b := y.Bytes()
			vs := make([]Value, len(b))
			for i := range b {
				vs[i] = b[i]
			}
			return m.appendV(s, et, vs)
		case SliceV:
			n := m.concInt(y.len)
			vs := make([]Value, n)
			for i := range vs {
				vs[i] = copyVal(y.arr.get(y.off + i))
			}
			if n == 0 {
				return s
			}
			return m.appendV(s, et, vs)
		}
	case "copy":
		d := args[0].(SliceV)
		switch s := args[1].(type) {
		case SliceV:
			return I64(m.copySlice(d, s))
		case *Str:
			return I64(m.copySlice(d, m.strSlice(s, byteT)))
		}
	case "delete":
		if mv := args[0].(*MapV); mv != nil {
			m.mapDel(mv, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.nsym, x.live = nil, map[string]*mapEnt{}, 0, 0
			}
		case SliceV:
			n := m.concInt(x.len)
			for i := 0; i < n; i++ {
				x.arr.set(x.off+i, zeroVal(x.arr.et))
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(&goPanic{val: v, msg: m.panicText(v)})
	case "recover":
		// recover must be called by a deferred function: fr.owner is the panicking frame
		if fr.owner != nil && fr.owner.panicking != nil {
			v := fr.owner.panicking.val
			fr.owner.panicking = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		args[0].(*ChanV).cls = true
		return nil
	case "min", "max":
		r := args[0]
		t := cc.common.Args[0].Type()
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				_, s := width(t)
				y := a.(*Term)
				var lt *Term
				if s {
					lt = tb.Slt(x, y)
				} else {
					lt = tb.Ult(x, y)
				}
				if cc.bi.Name() == "min" {
					r = tb.Ite(lt, x, y)
				} else {
					r = tb.Ite(lt, y, x)
				}
			case float64:
				if cc.bi.Name() == "min" {
					r = math.Min(x, a.(float64))
				} else {
					r = math.Max(x, a.(float64))
				}
			case *Str:
				lt := m.branch(m.strLess(x, a.(*Str)))
				if lt != (cc.bi.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "String": // unsafe.String(ptr, len)
		p := args[0].(Ptr)
		n := m.concInt(m.idx64(args[1], cc.common.Args[1].Type()))
		if n == 0 {
			return emptyStr
		}
		if a, ok := p.base.(*ArrObj); ok {
			ts := make([]*Term, n)
			for i := range ts {
				ts[i] = a.get(p.idx + i).(*Term)
			}
			return strOf(ts)
		}
	case "StringData":
		s := args[0].(*Str)
		sl := m.strSlice(s, byteT)
		return Ptr{base: sl.arr}
	case "SliceData":
		s := args[0].(SliceV)
		if s.arr == nil {
			return Ptr{}
		}
		return Ptr{base: s.arr, idx: s.off}
	case "Slice":
		p := args[0].(Ptr)
		n := m.idx64(args[1], cc.common.Args[1].Type())
		if p.isNil() {
			return nilSlice()
		}
		if a, ok := p.base.(*ArrObj); ok && p.idx >= 0 {
			return SliceV{arr: a, off: p.idx, len: n, cap: n}
		}
	case "ssa:wrapnilchk":
		p := args[0]
		if pp, ok := p.(Ptr); ok && pp.isNil() {
			m.rtPanic("value method called using nil pointer")
		}
		return p
	case "Add":
		p := args[0].(Ptr)
		if a, ok := p.base.(*ArrObj); ok && p.idx >= 0 {
			n := m.concInt(m.idx64(args[1], cc.common.Args[1].Type()))
			sz := int(sizeof(a.et))
			if n%sz == 0 {
				return Ptr{base: a, idx: p.idx + n/sz}
			}
		}
	}
	m.unsup("builtin %s(%T)", cc.bi.Name(), args[0])
	return nil
}

func (m *Machine) appendV(s SliceV, et types.Type, vs []Value) SliceV {
	n := m.concInt(s.len)
	need := n + len(vs)
	if s.arr != nil && m.branch(m.tb.Ule(I64(need), s.cap)) {
		for i, v := range vs {
			s.arr.set(s.off+n+i, v)
		}
		return SliceV{arr: s.arr, off: s.off, len: I64(need), cap: s.cap}
	}
	nc := 2 * n
	if nc < need {
		nc = need
	}
	if nc < 8 && need > 0 {
		nc = 8
	}
	a := &ArrObj{et: et, n: I64(nc), data: make([]Value, need)}
	for i := 0; i < n; i++ {
		a.data[i] = s.arr.get(s.off + i)
	}
	copy(a.data[n:], vs)
	return SliceV{arr: a, len: I64(need), cap: a.n}
}

func (m *Machine) copySlice(d, s SliceV) int {
	tb := m.tb
	var n *Term
	switch {
	case d.len == s.len:
		n = d.len
	default:
		n = tb.Ite(tb.Ult(d.len, s.len), d.len, s.len)
	}
	if d.arr == nil || s.arr == nil {
		return 0
	}
	k := m.concInt(n)
	if k == 0 {
		return 0
	}
	tmp := make([]Value, k)
	for i := range tmp {
		tmp[i] = copyVal(s.arr.get(s.off + i))
	}
	for i, v := range tmp {
		d.arr.set(d.off+i, v)
	}
	return k
}
