package sign

import (
	"encoding/binary"

	"github.com/opencoff/sigtool/internal/vx"
)

// White-box harnesses: they use unexported functions, and are left out when
// those no longer exist in this form.

type wbSink struct{ b []byte }

func (w *wbSink) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }
func (w *wbSink) Close() error                { return nil }

func wbEncryptor() (*Encryptor, *wbSink) {
	e, err := NewEncryptor(nil, 8)
	vx.Assert(err == nil, "NewEncryptor failed")
	w := &wbSink{}
	vx.Assert(e.start(w) == nil, "start failed")
	w.b = nil
	return e, w
}

func wbSame(a, b, pa, pb []byte) bool {
	x := make([]byte, 8)
	y := make([]byte, 8)
	for k := 0; k < 8; k++ {
		x[k] = a[k] ^ b[k]
		y[k] = pa[k] ^ pb[k]
	}
	return vx.Eq(x, y)
}

// H_C08_wbblock: the nonce of every 32-bit block number is different.
//
//vx:bound white box: the block encryption step for two arbitrary different 32-bit block numbers, last-block marks and 8-byte texts
func H_C08_wbblock() {
	e, w := wbEncryptor()
	i, j := vx.U32("i"), vx.U32("j")
	vx.Assume(i != j)
	p, q := vx.Bytes("p", 8), vx.Bytes("q", 8)
	if e.encrypt(p, w, i, vx.Choose("eof1", 2) == 1) != nil || len(w.b) < 12 {
		vx.Reach("refused")
		return
	}
	a := append([]byte(nil), w.b...)
	w.b = nil
	if e.encrypt(q, w, j, vx.Choose("eof2", 2) == 1) != nil || len(w.b) < 12 {
		vx.Reach("refused")
		return
	}
	vx.Assert(!wbSame(a[4:12], w.b[4:12], p, q), "two blocks are encrypted with the same key stream")
	vx.Reach("compared")
}

// H_C08_wbwrap: a stream never comes back to an earlier block number.
//
//vx:bound white box: encrypting stream at any 32-bit block number b, then 3 blocks of 8 bytes; none reuses the key stream of block 0
func H_C08_wbwrap() {
	e, err := NewEncryptor(nil, 8)
	vx.Assert(err == nil, "NewEncryptor failed")
	w := &wbSink{}
	st, err := e.NewStreamWriter(w)
	vx.Assert(err == nil, "NewStreamWriter failed")
	w.b = nil
	p := vx.Bytes("p", 9)
	n, err := st.Write(p)
	vx.Assert(err == nil && n == 9, "Write failed")
	a := append([]byte(nil), w.b...)
	w.b = nil
	b := vx.U32("blk")
	vx.Assume(b > 1)
	st.(*encWriter).blk = b
	q := vx.Bytes("q", 24)
	_, err = st.Write(q)
	if err == nil {
		err = st.Close()
	}
	t := append(append([]byte(nil), p[8:]...), q...)
	for i := 0; len(w.b) >= 4+8+16; i++ {
		l := binary.BigEndian.Uint32(w.b) &^ _EOF
		if l >= 8 {
			vx.Assert(!wbSame(a[4:12], w.b[4:12], p, t), "two blocks are encrypted with the same key stream")
		}
		if w.b[0]&0x80 != 0 {
			break
		}
		w.b = w.b[4+l+16:]
		t = t[l:]
	}
	vx.Reach("compared")
}
