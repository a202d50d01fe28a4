package vxh

import (
	"bytes"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// badRd delivers at most step bytes per call and fails with err once off bytes
// are out; with joint the error comes together with the last bytes.
type badRd struct {
	b     []byte
	step  int
	off   int
	err   error
	joint bool
	again bool // delivers the rest after one failure
	pos   int
	fired bool
}

func (r *badRd) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(r.b)
	if r.off >= 0 && r.off < end {
		end = r.off
	}
	if r.again && r.fired {
		end = len(r.b)
		if r.pos >= end {
			return 0, io.EOF
		}
		n := copy(p, r.b[r.pos:])
		r.pos += n
		return n, nil
	}
	if r.pos >= end {
		if r.off >= 0 {
			r.fired = true
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := end - r.pos
	if r.step > 0 && n > r.step {
		n = r.step
	}
	n = copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && r.joint {
		if r.off >= 0 {
			r.fired = true
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

func newEnc(blk int, ssk *sign.PrivateKey, pk *sign.PublicKey) *sign.Encryptor {
	e, err := sign.NewEncryptor(ssk, uint64(blk))
	must(err, "NewEncryptor failed")
	must(e.AddRecipient(pk), "AddRecipient failed")
	return e
}

// complete checks that b is a complete encryption of pt.
func complete(b []byte, sk *sign.PrivateKey, spk *sign.PublicKey, pt []byte) {
	got, _, err := decryptAll(b, sk, spk)
	vx.Assert(err == nil && vx.Eq(got, pt), "success is reported for an incomplete file")
}

// H_C11_read: the input fails after any number of bytes with any error.
//
//vx:bound block sizes 1..3, input of 0..7 bytes failing after 0..all bytes with a plain error, io.ErrUnexpectedEOF or io.ErrClosedPipe, alone or together with the last bytes, delivered in pieces of 1, 2 or any size; with/without sender
func H_C11_read() {
	blk := 1 + vx.Choose("blk", 3)
	n := vx.Choose("n", 2*blk+2)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	_ = sk
	var ssk *sign.PrivateKey
	if vx.Choose("signed", 2) == 1 {
		ssk, _ = mkKey("sender")
	}
	e := newEnc(blk, ssk, pk)
	rd := &badRd{b: pt, step: vx.Choose("step", 3), off: vx.Choose("off", n+1), joint: vx.Choose("joint", 2) == 1}
	rd.err = []error{errTest, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress}[vx.Choose("err", 4)]
	w := &sink{}
	err := e.Encrypt(rd, w)
	vx.Assert(err != nil || !rd.fired, "a failed read is taken for the end of the input")
	vx.Assert(rd.fired, "the input is not read to its end")
	vx.Reach("failed")
}

// H_C11_write: the output fails at any write or at Close, or takes data in small pieces.
//
//vx:bound block sizes 1..3, input of 0..7 bytes, output failing at write 1..12 (taking nothing, half or all of it), failing Close, or taking 5 bytes per write; with/without sender
func H_C11_write() {
	blk := 1 + vx.Choose("blk", 3)
	n := vx.Choose("n", 2*blk+2)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	var ssk *sign.PrivateKey
	var spk *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		ssk, spk = mkKey("sender")
	}
	e := newEnc(blk, ssk, pk)
	w := &sink{}
	switch vx.Choose("how", 5) {
	case 0:
		w.at = 1 + vx.Choose("at", 12)
	case 4:
		w.at = 1 + vx.Choose("at", 12)
		w.full = true
	case 1:
		w.at = 1 + vx.Choose("at", 12)
		w.partial = true
	case 2:
		w.noclose = true
	case 3:
		w.short = true
	}
	err := e.Encrypt(bytes.NewReader(pt), w)
	if w.at > 0 && w.n >= w.at {
		vx.Assert(err != nil, "a failed write is not reported")
		vx.Reach("failed")
		return
	}
	if w.noclose {
		vx.Assert(w.closed == 0 || err != nil, "a failed Close is not reported")
		vx.Reach("close failed")
		return
	}
	must(err, "Encrypt fails without a failure")
	complete(w.b, sk, spk, pt)
	vx.Reach("ok")
}

// H_C11_stream: the same for the encrypting stream.
//
//vx:bound block sizes 1..3, 2 Writes of 0..4 bytes and Close, output failing at write 1..10 for good (taking nothing or all) or once, failing Close, or taking 5 bytes per write; then Write and Close again
func H_C11_stream() {
	blk := 1 + vx.Choose("blk", 3)
	a := vx.Choose("a", 5)
	b := vx.Choose("b", 5)
	pt := vx.Bytes("pt", a+b)
	sk, pk := mkKey("rx")
	e := newEnc(blk, nil, pk)
	w := &sink{}
	how := vx.Choose("how", 5)
	switch how {
	case 0:
		w.at = 1 + vx.Choose("at", 10)
	case 4:
		w.at = 1 + vx.Choose("at", 10)
		w.full = true
	case 1:
		w.once = 1 + vx.Choose("at", 10)
	case 2:
		w.noclose = true
	case 3:
		w.short = true
	}
	once := w.once
	failed := func() bool {
		return w.at > 0 && w.n >= w.at || once > 0 && w.once == 0
	}
	st, err := e.NewStreamWriter(w)
	if err != nil {
		vx.Assert(failed(), "NewStreamWriter fails without a failure")
		vx.Reach("failed at the header")
		return
	}
	vx.Assert(!failed(), "a failed header write is not reported")
	bad := false
	for _, t := range [][]byte{pt[:a], pt[a:]} {
		n, err := st.Write(t)
		vx.Assert((err != nil) == (failed() && (len(t) > 0 || err != nil)), "Write does not report a failed write")
		if err != nil {
			bad = true
		} else {
			vx.Assert(n == len(t), "Write does not report all bytes")
		}
	}
	err = st.Close()
	if failed() {
		vx.Assert(err != nil, "Close reports success for an incomplete file")
		vx.Assert(st.Close() != nil, "Close of a failed stream reports success")
		_, err = st.Write([]byte("x"))
		vx.Assert(err != nil, "a failed stream works again")
		vx.Reach("failed")
		return
	}
	vx.Assert(!bad, "Write fails without a failure")
	if w.noclose {
		vx.Assert(w.closed == 0 || err != nil, "a failed Close is not reported")
		vx.Reach("close failed")
		return
	}
	must(err, "Close fails without a failure")
	complete(w.b, sk, nil, pt)
	vx.Reach("ok")
}
