package vxh

import (
	"bytes"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C01_roundtrip: whole-file encrypt and decrypt, plain readers.
//
//vx:bound block size 1..4, plaintext 0..3 blocks + 1 byte, 1..2 recipients, with/without sender, all byte values
func H_C01_roundtrip() {
	max := 4
	if vx.Thorough() {
		max = 7
	}
	blk := 1 + vx.Choose("blk", max)
	n := vx.Choose("len", 3*blk+2)
	nrx := 1 + vx.Choose("nrx", 2)
	signed := vx.Choose("signed", 2) == 1
	pt := vx.Bytes("pt", n)
	sks, pks := mkKeys("rx", nrx)
	var ssk *sign.PrivateKey
	var spk *sign.PublicKey
	if signed {
		ssk, spk = mkKey("sender")
	}
	enc := encrypt(pt, blk, ssk, pks...)
	vx.Reach("encrypted")
	i := vx.Choose("who", nrx)
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	must(err, "NewDecryptor refuses the encryptor's output")
	must(d.SetPrivateKey(cloneSK(sks[i]), spk), "SetPrivateKey refuses a recipient")
	w := &wbuf{}
	must(d.Decrypt(w), "Decrypt fails on the encryptor's output")
	vx.Assert(vx.Eq(w.b, pt), "decrypted text differs from the plaintext")
	vx.Reach("done")
}

// H_C01_large: larger block sizes, plaintext around the block boundary.
//
//vx:bound block sizes 63, 64, 65, 300 and 0 (4 MiB); plaintext length within 1 byte of 0, 1 and 2 blocks (300: 0 and 1, 4 MiB: up to 2 bytes)
func H_C01_large() {
	blk := []int{63, 64, 65, 300, 0}[vx.Choose("blk", 5)]
	var n int
	switch {
	case blk == 0:
		n = vx.Choose("n", 3)
	default:
		k := 3
		if blk == 300 {
			k = 2
		}
		n = vx.Choose("blocks", k)*blk + vx.Choose("off", 3) - 1
		if n < 0 {
			n = 0
		}
	}
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	enc := encrypt(pt, blk, nil, pk)
	got, _, err := decryptAll(enc, sk, nil)
	must(err, "decryption fails on the encryptor's output")
	vx.Assert(vx.Eq(got, pt), "decrypted text differs from the plaintext")
}

// H_C01_frag: the plaintext reader and the encrypted-file reader deliver short reads.
//
//vx:bound block size 3, plaintext 0..7 bytes; pieces of 1..3 bytes, or one short or empty read at any of the first 8 (14) reads; data with or without EOF
func H_C01_frag() {
	blk := 3
	n := vx.Choose("len", 8)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	ssk, spk := mkKey("sender")
	e, err := sign.NewEncryptor(ssk, uint64(blk))
	must(err, "NewEncryptor")
	must(e.AddRecipient(pk), "AddRecipient")
	w := &wbuf{}
	var enc []byte
	if vx.Choose("side", 2) == 0 {
		must(e.Encrypt(newFrag("in", pt, 8), w), "Encrypt fails on a fragmented reader")
		enc = w.b
		got, _, err := decryptAll(enc, sk, spk)
		must(err, "decryption fails after fragmented reads of the plaintext")
		vx.Assert(vx.Eq(got, pt), "fragmented plaintext reads change the plaintext")
		vx.Reach("in")
		return
	}
	must(e.Encrypt(bytes.NewReader(pt), w), "Encrypt")
	d, err := sign.NewDecryptor(newFrag("enc", w.b, 14))
	must(err, "NewDecryptor fails on a fragmented reader")
	must(d.SetPrivateKey(sk, spk), "SetPrivateKey")
	o := &wbuf{}
	must(d.Decrypt(o), "Decrypt fails on a fragmented reader")
	vx.Assert(vx.Eq(o.b, pt), "fragmented reads of the encrypted file change the plaintext")
	vx.Reach("enc")
}
