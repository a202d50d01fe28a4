package vxh

import (
	"golang.org/x/crypto/curve25519"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C36_out: the reference implementation opens every file the encryptor writes.
//
//vx:bound block size 1..3, plaintext 0..7 bytes, 1..3 recipients, with/without sender, whole-file and stream (2 writes) API
func H_C36_out() {
	blk := 1 + vx.Choose("blk", 3)
	n := vx.Choose("len", 2*blk+2)
	nrx := 1 + vx.Choose("nrx", 3)
	pt := vx.Bytes("pt", n)
	sks, pks := mkKeys("rx", nrx)
	var ssk *sign.PrivateKey
	var sp []byte
	if vx.Choose("signed", 2) == 1 {
		k, p := mkKey("sender")
		ssk, sp = k, p.Pk
	}
	var enc []byte
	if vx.Choose("stream", 2) == 1 {
		enc = streamEnc(pt, []int{n / 2, n - n/2}, blk, ssk, pks...)
	} else {
		enc = encrypt(pt, blk, ssk, pks...)
	}
	who := vx.Choose("who", nrx)
	got, blocks, h, why := refOpen(enc, sks[who].Sk, sp, blk)
	vx.Log("reference:", why)
	vx.Assert(why == "", "the reference implementation refuses the file")
	vx.Assert(vx.Eq(got, pt), "the reference implementation reads other text")
	vx.Assert(h.chunk == blk, "block size field")
	vx.Assert(len(h.keys) == nrx, "number of wrapped keys")
	nb := (n + blk - 1) / blk
	if n%blk == 0 && len(blocks) == nb+1 {
		nb++ // an empty last block is allowed
	}
	if nb == 0 {
		nb = 1
	}
	vx.Assert(len(blocks) == nb, "number of blocks")
	vx.Reach("ok")
}

// refEncrypt writes a file with the reference implementation; all random values are arbitrary.
func refEncrypt(pt []byte, blk int, emptyLast bool, sender []byte, rx ...*sign.PrivateKey) []byte {
	key := vx.Key("ref.key", 32)
	h := &refHdr{chunk: blk, salt: vx.Key("ref.salt", 32)}
	esk := vx.Key("ref.esk", 32)
	pk, err := curve25519.X25519(esk, curve25519.Basepoint)
	if err != nil {
		panic(err)
	}
	h.pk = pk
	sig := make([]byte, 64)
	if sender != nil {
		sig = refSign(sender, h.senderMsg(key))
	}
	h.sealSender(key, sig)
	for _, sk := range rx {
		x, err := curve25519.X25519(refScalar(sk.Sk), curve25519.Basepoint)
		if err != nil {
			panic(err)
		}
		h.refWrap(esk, x, sk.Sk[32:], vx.Key("ref.nonce", 12), key)
	}
	out := frame(h.encode())
	b := newRefBody(key, out[len(out)-32:])
	for {
		m := len(pt)
		if m > blk {
			m = blk
		}
		last := len(pt) == m && !(emptyLast && m == blk)
		out = cat(out, b.seal(pt[:m], last))
		pt = pt[m:]
		if last {
			break
		}
	}
	if sender != nil {
		return cat(out, refSign(sender, b.mac()))
	}
	return cat(out, vx.Key("ref.trailer", 64))
}

// H_C36_in: files written by the reference implementation are accepted.
//
//vx:bound block size 1..3, plaintext 0..7 bytes, 1..2 recipients, with/without sender, all random values arbitrary
func H_C36_in() {
	blk := 1 + vx.Choose("blk", 3)
	n := vx.Choose("len", 2*blk+2)
	nrx := 1 + vx.Choose("nrx", 2)
	pt := vx.Bytes("pt", n)
	sks, _ := mkKeys("rx", nrx)
	var ss []byte
	var spk *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		k, p := mkKey("sender")
		ss, spk = k.Sk, p
	}
	empty := n > 0 && n%blk == 0 && vx.Choose("emptylast", 2) == 1
	enc := refEncrypt(pt, blk, empty, ss, sks...)
	got, err := openEither(enc, sks[vx.Choose("who", nrx)], spk, vx.Choose("stream", 2) == 1, blk)
	must(err, "a well-formed file is refused")
	vx.Assert(vx.Eq(got, pt), "a well-formed file is read wrongly")
	vx.Reach("ok")
}
