package vxh

import (
	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

func signMsg(sk *sign.PrivateKey, m []byte) *sign.Signature {
	s, err := sk.SignMessage(m, "c")
	must(err, "SignMessage failed")
	return s
}

// H_C17_msg: a signature verifies for exactly the signed message.
//
//vx:bound messages of 0..8, 22, 63..66, 86, 128..130 bytes (signed) against every other such length, arbitrary content on both sides; two signatures per key
func H_C17_msg() {
	lens := []int{0, 1, 2, 3, 8, 22, 63, 64, 65, 66, 86, 128, 130}
	if !vx.Thorough() {
		lens = []int{0, 1, 2, 22, 64, 65, 130}
	}
	n0 := lens[vx.Choose("n0", len(lens))]
	n1 := lens[vx.Choose("n1", len(lens))]
	sk, pk := mkKey("k")
	m0, m1 := vx.Bytes("m0", n0), vx.Bytes("m1", n1)
	keep := append([]byte(nil), m0...)
	s := signMsg(sk, m0)
	vx.Assert(vx.Eq(keep, m0), "signing changes the message")
	q := clonePK(pk)
	vx.Assert(q.VerifyMessage(m0, s), "a signature does not verify for its own message")
	vx.Assert(vx.Eq(keep, m0), "verifying changes the message")
	vx.Assert(q.VerifyMessage(m1, s) == vx.Eq(m0, m1), "a signature verifies for another message")
	vx.Assert(q.VerifyMessage(m0, s), "a signature stops verifying")
	s1 := signMsg(sk, m1)
	vx.Assert(sk.PublicKey().VerifyMessage(m1, s1), "a second signature does not verify")
	vx.Assert(sk.PublicKey().VerifyMessage(m0, s), "the first signature stops verifying")
	vx.Assert(sk.PublicKey().VerifyMessage(m0, s1) == vx.Eq(m0, m1), "the second signature verifies for the first message")
	vx.Reach("ok")
}

// H_C17_key: not under any other key.
//
//vx:bound arbitrary messages of 0..4, 64 bytes; up to three key pairs
func H_C17_key() {
	n := []int{0, 1, 4, 64}[vx.Choose("n", 4)]
	sks, pks := mkKeys("k", 3)
	m := vx.Bytes("m", n)
	i := vx.Choose("signer", 3)
	s := signMsg(sks[i], m)
	for j := range pks {
		vx.Assert(clonePK(pks[j]).VerifyMessage(m, s) == (i == j), "a signature verifies under the wrong key")
	}
	// an arbitrary public key
	raw := vx.Bytes("raw", 32)
	vx.Assume(!vx.Eq(raw, pks[i].Pk))
	q, err := newPK(raw)
	must(err, "no public key")
	vx.Assert(!q.VerifyMessage(m, s), "a signature verifies under another public key")
	vx.Reach("ok")
}

// H_C17_sig: no changed, shortened or extended signature verifies.
//
//vx:bound messages of 0..2 and 64 bytes; replaced signatures of every length 0..80 (thorough 0..200) with arbitrary bytes
func H_C17_sig() {
	n := []int{0, 2, 64}[vx.Choose("n", 3)]
	max := 81
	if vx.Thorough() {
		max = 201
	}
	sk, pk := mkKey("k")
	m := vx.Bytes("m", n)
	s := signMsg(sk, m)
	vx.Assert(len(s.Sig) == 64, "signature is not 64 bytes")
	orig := append([]byte(nil), s.Sig...)
	s.Sig = vx.Tamper("sig", orig, vx.Choose("len", max))
	ok := pk.VerifyMessage(m, s)
	vx.Assert(ok == vx.Eq(orig, s.Sig), "a changed signature verifies")
	if ok {
		vx.Reach("same")
	}
	vx.Reach("ok")
}
