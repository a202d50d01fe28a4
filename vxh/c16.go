package vxh

import (
	"bytes"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C16_size: the block size in the header for every request.
//
//vx:bound every 64-bit requested block size; the size is read from the encoded header of a stream that was started and closed without data
func H_C16_size() {
	b := vx.U64("blksize")
	want := uint32(b)
	if b == 0 {
		want = 4 << 20
	} else if b > 1<<30 {
		want = 1 << 30
	}
	e, err := sign.NewEncryptor(nil, b)
	must(err, "NewEncryptor refuses a block size")
	vx.Assert(e.ChunkSize == want, "wrong block size selected")
	vx.Reach("ok")
}

// H_C16_open: files with every block size can be opened and keep the size.
//
//vx:bound every 64-bit requested block size; plaintext of 0..3 bytes written as a stream or whole, read back by the other API
//vx:opt mem=6
func H_C16_open() {
	b := vx.U64("blksize")
	n := vx.Choose("n", 4)
	vx.Assume(vx.Or(b == 0, b > 3))
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	e, err := sign.NewEncryptor(nil, b)
	must(err, "NewEncryptor refuses a block size")
	must(e.AddRecipient(pk), "AddRecipient failed")
	w := &wbuf{}
	st, err := e.NewStreamWriter(w)
	must(err, "NewStreamWriter failed")
	_, err = st.Write(pt)
	must(err, "Write failed")
	must(st.Close(), "Close failed")
	d, err := sign.NewDecryptor(bytes.NewReader(w.b))
	must(err, "a file with an accepted block size cannot be opened")
	vx.Assert(d.ChunkSize == e.ChunkSize, "the block size changes")
	must(d.SetPrivateKey(sk, nil), "a file with an accepted block size cannot be opened")
	o := &wbuf{}
	must(d.Decrypt(o), "a file with an accepted block size does not decrypt")
	vx.Assert(vx.Eq(o.b, pt), "wrong text")
	vx.Reach("ok")
}

// H_C16_whole: the whole-file API at the limits.
//
//vx:bound requested block sizes 0, 1..3, 2^22, 2^30-1, 2^30, 2^30+1, 2^31, 2^32, 2^32+1, 2^63; plaintext of 0..3 bytes
//vx:opt mem=6
func H_C16_whole() {
	b := []uint64{0, 1, 2, 3, 1 << 22, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63}[vx.Choose("size", 12)]
	n := vx.Choose("n", 4)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	e, err := sign.NewEncryptor(nil, b)
	must(err, "NewEncryptor refuses a block size")
	must(e.AddRecipient(pk), "AddRecipient failed")
	w := &wbuf{}
	must(e.Encrypt(bytes.NewReader(pt), w), "Encrypt failed")
	got, err := openEither(w.b, sk, nil, vx.Choose("stream", 2) == 1, 4)
	must(err, "a file with an accepted block size does not decrypt")
	vx.Assert(vx.Eq(got, pt), "wrong text")
	vx.Reach("ok")
}
