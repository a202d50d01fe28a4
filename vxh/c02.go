package vxh

import (
	"bytes"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// streamEnc encrypts pt through the stream API with the given cuts.
func streamEnc(pt []byte, cuts []int, blk int, sender *sign.PrivateKey, rx ...*sign.PublicKey) []byte {
	e, err := sign.NewEncryptor(sender, uint64(blk))
	must(err, "NewEncryptor failed")
	for _, pk := range rx {
		must(e.AddRecipient(pk), "AddRecipient failed")
	}
	w := &wbuf{}
	st, err := e.NewStreamWriter(w)
	must(err, "NewStreamWriter failed")
	for _, c := range cuts {
		b := append([]byte(nil), pt[:c]...)
		n, err := st.Write(b)
		must(err, "stream Write failed")
		vx.Assert(n == c, "stream Write does not report all bytes")
		// the caller may reuse its buffer
		for i := range b {
			b[i] = 0x55
		}
		pt = pt[c:]
	}
	vx.Assert(w.closed == 0, "the stream closed its destination early")
	must(st.Close(), "stream Close failed")
	vx.Assert(w.closed == 1, "stream Close does not close the destination once")
	return w.b
}

// readStream reads the stream with buffers of the given sizes (the last one repeats).
func readStream(enc []byte, sk *sign.PrivateKey, spk *sign.PublicKey, sizes []int, total int) []byte {
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	must(err, "NewDecryptor failed")
	must(d.SetPrivateKey(sk, spk), "SetPrivateKey failed")
	rd, err := d.NewStreamReader()
	must(err, "NewStreamReader failed")
	var got []byte
	for i := 0; ; i++ {
		j := i
		if j >= len(sizes) {
			j = len(sizes) - 1
		}
		b := make([]byte, sizes[j])
		n, err := rd.Read(b)
		vx.Assert(n >= 0 && n <= len(b), "stream reader reports an impossible count")
		got = append(got, b[:n]...)
		vx.Assert(len(got) <= total, "stream reader returns too much")
		if err != nil {
			vx.Assert(err == io.EOF, "stream reader ends with an error")
			break
		}
		vx.Assert(n > 0, "stream reader returns no data without an error")
	}
	n, err := rd.Read(make([]byte, 4))
	vx.Assert(n == 0 && err == io.EOF, "stream reader continues after the end")
	return got
}

func cutsOf(name string, total, pieces int) []int {
	var r []int
	left := total
	for i := 0; i < pieces; i++ {
		c := vx.Choose(name, left+1)
		r = append(r, c)
		left -= c
	}
	return append(r, left)
}

// H_C02_stream: stream writer with any cuts, read by either API.
//
//vx:bound block sizes 1..3, plaintext 0..8 bytes, every sequence of up to 3 (thorough 4) Write calls, read buffers of every size 1..blk+1, with/without sender
func H_C02_stream() {
	blk := 1 + vx.Choose("blk", 3)
	max := 2*blk + 3
	n := vx.Choose("len", max)
	pt := vx.Bytes("pt", n)
	pieces := 2
	if vx.Thorough() {
		pieces = 3
	}
	cuts := cutsOf("cut", n, pieces)
	sk, pk := mkKey("rx")
	var ssk *sign.PrivateKey
	var spk *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		ssk, spk = mkKey("sender")
	}
	enc := streamEnc(pt, cuts, blk, ssk, pk)
	var got []byte
	if k := vx.Choose("how", blk+2); k == 0 {
		var err error
		got, _, err = decryptAll(enc, sk, spk)
		must(err, "Decrypt fails on stream output")
	} else {
		got = readStream(enc, sk, spk, []int{k}, n)
	}
	vx.Assert(vx.Eq(got, pt), "stream encryption changes the data")
	vx.Reach("ok")
}

// H_C02_reader: whole-file encryption read back with any sequence of buffer sizes.
//
//vx:bound block sizes 1..3, plaintext 0..8 bytes, first three read buffers of any size 1..blk+1
func H_C02_reader() {
	blk := 1 + vx.Choose("blk", 3)
	n := vx.Choose("len", 2*blk+3)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	ssk, spk := mkKey("sender")
	enc := encrypt(pt, blk, ssk, pk)
	var sizes []int
	for i := 0; i < 3; i++ {
		sizes = append(sizes, 1+vx.Choose("size", blk+1))
	}
	got := readStream(enc, sk, spk, sizes, n)
	vx.Assert(vx.Eq(got, pt), "stream reader changes the data")
	vx.Reach("ok")
}

// H_C02_empty: empty writes and empty read buffers are harmless.
//
//vx:bound block size 2, plaintext 0..5 bytes; an empty Write before, between or after; an empty Read buffer at any of the first 4 reads
func H_C02_empty() {
	n := vx.Choose("len", 6)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	c := vx.Choose("cut", n+1)
	cuts := [][]int{{0, c, n - c}, {c, 0, n - c}, {c, n - c, 0}}[vx.Choose("pos", 3)]
	enc := streamEnc(pt, cuts, 2, nil, pk)
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	must(err, "NewDecryptor failed")
	must(d.SetPrivateKey(sk, nil), "SetPrivateKey failed")
	rd, err := d.NewStreamReader()
	must(err, "NewStreamReader failed")
	at := vx.Choose("at", 4)
	var got []byte
	for i := 0; i < 40; i++ {
		b := make([]byte, 2)
		if i == at {
			b = nil
		}
		n, err := rd.Read(b)
		if err != nil {
			vx.Assert(err == io.EOF, "stream reader fails")
			break
		}
		got = append(got, b[:n]...)
	}
	vx.Assert(vx.Eq(got, pt), "an empty read or write changes the data")
}

// H_C02_copy: io.Copy in both directions.
//
//vx:bound block size 2, plaintext 0..6 bytes
func H_C02_copy() {
	n := vx.Choose("len", 7)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	e, err := sign.NewEncryptor(nil, 2)
	must(err, "NewEncryptor")
	must(e.AddRecipient(pk), "AddRecipient")
	w := &wbuf{}
	st, err := e.NewStreamWriter(w)
	must(err, "NewStreamWriter")
	k, err := io.Copy(st, &frag{b: pt, step: 1 + vx.Choose("step", 3)})
	must(err, "io.Copy into the stream")
	vx.Assert(int(k) == n, "io.Copy count")
	must(st.Close(), "Close")
	d, err := sign.NewDecryptor(bytes.NewReader(w.b))
	must(err, "NewDecryptor")
	must(d.SetPrivateKey(sk, nil), "SetPrivateKey")
	rd, err := d.NewStreamReader()
	must(err, "NewStreamReader")
	o := &wbuf{}
	_, err = io.Copy(o, rd)
	must(err, "io.Copy from the stream")
	vx.Assert(vx.Eq(o.b, pt), "streams change the data")
}
