package vxh

import (
	"bytes"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C13_short: every short file.
//
//vx:bound every byte string of 0..11 bytes, and any first 12 bytes followed by 0..4 more
func H_C13_short() {
	n := vx.Choose("n", 17)
	d, err := sign.NewDecryptor(bytes.NewReader(vx.Bytes("b", n)))
	vx.Assert(err != nil && d == nil, "a short file is accepted as an encrypted file")
	vx.Reach("refused")
}

// H_C13_fixed: any change of the fixed header of a valid file.
//
//vx:bound a valid file; its first 8 bytes arbitrary but not the documented ones, checksum recomputed; or any claimed length of the variable part other than the true one up to 1 MiB with the file as is
func H_C13_fixed() {
	sk, pk := mkKey("rx")
	enc := encrypt(vx.Bytes("pt", 2), 2, nil, pk)
	hl := hdrLen(enc)
	if vx.Choose("how", 2) == 0 {
		m := vx.Bytes("m", 8)
		vx.Assume(!vx.Eq(m, []byte("SigTool\x03")))
		copy(enc, m)
		copy(enc[hl-32:], sha(enc[:hl-32]))
	} else {
		l := vx.Bytes("l", 4)
		vx.Assume(!vx.Eq(l, enc[8:12]))
		copy(enc[8:], l)
		vx.Assume(vx.Or(l[0] != 0, l[1] > 0x10, l[1] == 0x10)) // longer than the file
	}
	got, _, err := decryptAll(enc, sk, nil)
	vx.Assert(err != nil && len(got) == 0, "a file with a wrong fixed header is accepted")
	vx.Reach("refused")
}

// H_C13_shorter: a claimed variable part shorter than the real one.
//
//vx:bound a valid file with any claimed length below the true one, checksum placed accordingly
func H_C13_shorter() {
	sk, pk := mkKey("rx")
	enc := encrypt(vx.Bytes("pt", 2), 2, nil, pk)
	hl := hdrLen(enc)
	n := vx.Choose("n", hl-44)
	bad := frame(enc[12 : 12+n])
	got, _, err := decryptAll(cat(bad, enc[hl:]), sk, nil)
	vx.Assert(err != nil && len(got) == 0, "a file with a cut header is accepted")
	vx.Reach("refused")
}

// H_C13_large: a variable part larger than 1 MiB is refused even when everything else is right.
//
//vx:bound a valid header padded by an unknown field to exactly 1 MiB (opens) and to 1 MiB + 1, + 2, + 4096 bytes and 2 MiB (refused)
func H_C13_large() {
	sk, pk := mkKey("rx")
	enc := encrypt(nil, 2, nil, pk)
	hl := hdrLen(enc)
	v := enc[12 : hl-32]
	want := 1048576 + []int{0, 1, 2, 4096, 1048576}[vx.Choose("size", 5)]
	pad := want - len(v)
	u := uvarint(pad)
	u = uvarint(pad - 1 - len(u))
	x := make([]byte, pad)
	x[0] = 0x7a // field 15, bytes
	copy(x[1:], u)
	v = cat(v, x)
	vx.Assert(len(v) == want && len(u) == 3, "bad padding")
	_, err := sign.NewDecryptor(bytes.NewReader(frame(v)))
	_ = sk
	if want > 1048576 {
		vx.Assert(err != nil, "a header larger than 1 MiB is accepted")
		vx.Reach("refused")
	} else {
		must(err, "a 1 MiB header is refused")
		vx.Reach("accepted")
	}
}

// H_C13_fields: headers with field values of every kind under a valid checksum.
//
//vx:bound block size any 64-bit varint; salt 0, 31..33 or 64 bytes; ephemeral key 0, 31..33 bytes, arbitrary, zero or of small order; sender 0, 15, 16, 79..81 bytes; 0..2 wrapped keys with 0, 32, 33, 47..49 or 64 bytes and nonces of 0, 11..13 bytes, all contents arbitrary; then setting a key with and without sender key and decrypting
//vx:opt mem=6
func H_C13_fields() {
	sk, pk := mkKey("rx")
	_, spk := mkKey("other")
	enc := encrypt(vx.Bytes("pt", 2), 2, nil, pk)
	hl := hdrLen(enc)
	h, ok := refDecode(enc[12 : hl-32])
	vx.Assert(ok, "header does not parse")
	bad := false
	chunk := uvarint(2)
	switch vx.Choose("what", 7) {
	case 0:
		x := vx.U64("chunk")
		chunk = nil
		for i := 0; i < 9; i++ {
			chunk = append(chunk, byte(x)|0x80)
			x >>= 7
		}
		chunk = append(chunk, byte(x))
		// what a 32-bit field holds of it
		var c uint32
		for i := 0; i < 5; i++ {
			c |= uint32(chunk[i]&0x7f) << uint(7*i)
		}
		bad = vx.Or(c == 0, c > 1<<30)
		vx.Assume(c != 2)
	case 1:
		n := []int{0, 31, 33, 64}[vx.Choose("n", 4)]
		h.salt = vx.Bytes("salt", n)
		bad = true
	case 2:
		h.pk = vx.Bytes("pk", []int{0, 31, 32, 33}[vx.Choose("n", 4)])
	case 3:
		h.pk = make([]byte, 32)
		h.pk[0] = byte(vx.Choose("low", 2))
	case 4:
		h.sender = vx.Bytes("sender", []int{0, 15, 16, 79, 80, 81}[vx.Choose("n", 6)])
	case 5:
		h.keys = nil
		bad = true
	case 6:
		k := refKey{vx.Bytes("dkey", []int{0, 32, 33, 47, 48, 49, 64}[vx.Choose("n", 7)]), vx.Bytes("nonce", []int{0, 11, 12, 13}[vx.Choose("m", 4)])}
		switch vx.Choose("at", 3) {
		case 0:
			h.keys = []refKey{k}
		case 1:
			h.keys = append(h.keys, k)
		case 2:
			h.keys = []refKey{k, h.keys[0]}
		}
	}
	g := *h
	g.chunk = 0
	out := frame(cat([]byte{8}, chunk, g.encode()))
	vx.Assume(!vx.Eq(out, enc[:hl]))
	d, err := sign.NewDecryptor(bytes.NewReader(cat(out, enc[hl:])))
	if err != nil {
		vx.Reach("refused when opened")
		return
	}
	vx.Assert(!bad, "an invalid header is accepted")
	var with *sign.PublicKey
	if vx.Choose("with", 2) == 1 {
		with = spk
	}
	w := &wbuf{}
	if d.SetPrivateKey(sk, with) == nil {
		vx.Assert(d.Decrypt(w) != nil, "a file with a changed header decrypts")
		vx.Reach("refused when decrypted")
	}
	vx.Assert(len(w.b) == 0, "a file with a changed header yields plaintext")
	vx.Reach("refused")
}

// H_C13_payload: any bytes after a valid header, block size larger than the text.
//
//vx:bound valid headers with block size 1, 2, 5 or 2^30; payload of 0..30 arbitrary bytes (not produced by the encryptor) without a key of the file being involved
func H_C13_payload() {
	sk, pk := mkKey("rx")
	blk := []int{1, 2, 5}[vx.Choose("blk", 3)]
	enc := encrypt(nil, blk, nil, pk)
	hl := hdrLen(enc)
	p := vx.Bytes("p", vx.Choose("n", 31))
	if len(p) >= 4 {
		vx.Assume(!vx.Eq(p[:4], enc[hl:hl+4]))
	}
	got, err := openEither(cat(enc[:hl], p), sk, nil, vx.Choose("stream", 2) == 1, 3)
	vx.Assert(err != nil && len(got) == 0, "an arbitrary payload is accepted")
	vx.Reach("refused")
}
