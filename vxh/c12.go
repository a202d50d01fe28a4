package vxh

import (
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C12_read: the encrypted input fails or ends at any byte.
//
//vx:bound block size 2, plaintext 0..5 bytes, input cut at any byte (quick: the first 12 and the last 16 bytes of the header and everything after it) by io.EOF or a failure (plain error, io.ErrUnexpectedEOF), alone or with the last bytes, delivered whole or in pieces of 3, for good or once (the rest follows); both read APIs; with/without sender
func H_C12_read() {
	n := vx.Choose("n", 6)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	var ssk *sign.PrivateKey
	var spk *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		ssk, spk = mkKey("sender")
	}
	enc := encrypt(pt, 2, ssk, pk)
	rd := &badRd{b: enc}
	if vx.Thorough() {
		rd.off = vx.Choose("off", len(enc))
	} else {
		hl := hdrLen(enc)
		rd.off = vx.Choose("off", 12+16+len(enc)-hl)
		if rd.off >= 12 {
			rd.off += hl - 16 - 12
		}
	}
	switch vx.Choose("err", 5) {
	case 0:
		rd.err = io.EOF
	case 1:
		rd.err = errTest
	case 2:
		rd.err = io.ErrUnexpectedEOF
	case 3:
		rd.err = io.EOF
		rd.joint = true
		rd.step = 3
	case 4:
		rd.err = errTest
		rd.again = true
	}
	got, err := openRd(rd, sk, spk, vx.Choose("stream", 2) == 1, &sink{})
	vx.Assert(err != nil, "an incomplete input decrypts without error")
	vx.Assert(isPrefix(got, pt), "output is not a prefix of the plaintext")
	vx.Reach("failed")
}

// openRd decrypts rd by either API.
func openRd(rd io.Reader, sk *sign.PrivateKey, spk *sign.PublicKey, stream bool, w *sink) ([]byte, error) {
	d, err := sign.NewDecryptor(rd)
	if err != nil {
		return nil, err
	}
	if err = d.SetPrivateKey(sk, spk); err != nil {
		return nil, err
	}
	if !stream {
		err = d.Decrypt(w)
		return w.b, err
	}
	r, err := d.NewStreamReader()
	if err != nil {
		return nil, err
	}
	var got []byte
	for i := 0; i < 40; i++ {
		b := make([]byte, 2)
		n, err := r.Read(b)
		got = append(got, b[:n]...)
		if err == io.EOF {
			return got, nil
		}
		if err != nil {
			for j := 0; j < 2; j++ {
				n, err2 := r.Read(b)
				vx.Assert(n == 0 && err2 != nil && err2 != io.EOF, "the stream reader continues after a failure")
				vx.Assert(vx.EqStr(err2.Error(), err.Error()), "the stream reader tries again after a failure")
			}
			return got, err
		}
	}
	return got, errTest
}

// H_C12_write: the plaintext output fails at any write or takes data in small pieces.
//
//vx:bound block sizes 1, 2 and 7, plaintext 0..8 bytes, output failing at write 1..9 (taking nothing, half or all) or taking at most 5 bytes per write
func H_C12_write() {
	blk := []int{1, 2, 7}[vx.Choose("blk", 3)]
	n := vx.Choose("n", 9)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	enc := encrypt(pt, blk, nil, pk)
	w := &sink{}
	if vx.Choose("how", 2) == 0 {
		w.short = true
	} else {
		w.at = 1 + vx.Choose("at", 9)
		switch vx.Choose("taken", 3) {
		case 1:
			w.partial = true
		case 2:
			w.full = true
		}
	}
	got, err := openRd(&frag{b: enc}, sk, nil, false, w)
	if w.at > 0 && w.n >= w.at {
		vx.Assert(err != nil, "a failed write is not reported")
		if !w.partial && !w.full {
			vx.Assert(isPrefix(got, pt), "output is not a prefix of the plaintext")
		}
		vx.Reach("failed")
		return
	}
	must(err, "Decrypt fails without a failure")
	vx.Assert(vx.Eq(got, pt), "success is reported for incomplete output")
	vx.Reach("ok")
}
