package vxh

import (
	"crypto/sha512"
	"math/big"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// refMont is -(1+y) / (y-1) mod 2^255-19, little-endian.
func refMont(raw []byte) []byte {
	p := new(big.Int).SetInt64(19)
	p.Sub(new(big.Int).SetBytes(cat([]byte{0x80}, make([]byte, 31))), p)
	be := make([]byte, 32)
	for i := range raw {
		be[31-i] = raw[i]
	}
	be[0] &= 0x7f
	y := new(big.Int).SetBytes(be)
	d := new(big.Int).Sub(y, big.NewInt(1))
	inv := new(big.Int)
	inv.ModInverse(d, p)
	n := new(big.Int).Add(y, big.NewInt(1))
	n.Sub(big.NewInt(0), n)
	u := new(big.Int).Mul(n, inv)
	u.Mod(u, p)
	u.FillBytes(be)
	le := make([]byte, 32)
	for i := range be {
		le[31-i] = be[i]
	}
	return le
}

// H_C35_public: every point converts to exactly (1+y)/(1-y).
//
//vx:opt mont=full
//vx:bound arbitrary 32-byte public keys with y other than 1, including results with up to 7 leading zero bytes; both signs; repeated; through an in-memory key, a key file, an OpenSSH line and the string form
func H_C35_public() {
	raw := vx.Words("raw", 32)
	one := make([]byte, 32)
	one[0] = 1
	// y = 1 (encoded as 1 or 1 + p) has no image
	low := append([]byte(nil), raw...)
	low[31] &= 0x7f
	vx.Assume(!vx.Eq(low, one))
	onep := cat([]byte{0xee}, make([]byte, 30), []byte{0x7f})
	for i := 1; i < 31; i++ {
		onep[i] = 0xff
	}
	vx.Assume(!vx.Eq(low, onep))
	want := refMont(raw)
	pk, err := newPK(raw)
	if via := vx.Choose("via", 5); via > 0 {
		pk, err = readEither(via-1, edBlob(raw), "c")
	}
	must(err, "key refused")
	got := pk.ToCurve25519PK()
	vx.Assert(len(got) == 32, "a converted public key is not 32 bytes")
	vx.Assert(vx.Eq(got, want), "a converted public key is not (1+y)/(1-y)")
	vx.Assert(vx.Eq(pk.ToCurve25519PK(), want), "a repeated conversion differs")
	vx.Assert(vx.Eq(clonePK(pk).ToCurve25519PK(), want), "the conversion of a copy differs")
	vx.Assert(vx.Eq(pk.Pk, raw), "the conversion changes the key")
	flip := append([]byte(nil), raw...)
	flip[31] ^= 0x80
	q, err := newPK(flip)
	must(err, "key refused")
	vx.Assert(vx.Eq(q.ToCurve25519PK(), want), "the conversion depends on the sign")
	vx.Reach("ok")
}

// H_C35_special: points whose image is easy to tell.
//
//vx:bound y = 0, -1, 2, p-2 and these plus p, with both signs
func H_C35_special() {
	le := func(lo byte, fill byte, hi byte) []byte {
		b := make([]byte, 32)
		for i := range b {
			b[i] = fill
		}
		b[0], b[31] = lo, hi
		return b
	}
	small := func(x byte) []byte { return le(x, 0, 0) }
	var y, u []byte
	switch vx.Choose("y", 6) {
	case 0:
		y, u = small(0), small(1)
	case 1:
		y, u = le(0xec, 0xff, 0x7f), small(0) // p-1
	case 2:
		y, u = small(2), le(0xea, 0xff, 0x7f) // 3/-1 = p-3
	case 3:
		y, u = le(0xed, 0xff, 0x7f), small(1) // p
	case 4:
		y, u = le(0xef, 0xff, 0x7f), le(0xea, 0xff, 0x7f) // p+2
	case 5:
		y, u = small(3), le(0xeb, 0xff, 0x7f) // 4/-2 = p-2
	}
	if vx.Choose("sign", 2) == 1 {
		y[31] |= 0x80
	}
	pk, err := newPK(y)
	must(err, "key refused")
	vx.Assert(vx.Eq(pk.ToCurve25519PK(), u), "a special point converts to something else")
	vx.Assert(vx.Eq(refMont(y), u), "the reference is wrong")
	vx.Reach("ok")
}

// H_C35_private: private keys convert to the clamped hash of the seed.
//
//vx:opt samples=2
//vx:bound arbitrary seeds; keys made in memory, read from a file (native, OpenSSH); repeated
func H_C35_private() {
	vx.Scratch()
	sk, pk := mkKey("k")
	h := sha512.Sum512(sk.Sk[:32])
	want := append([]byte(nil), h[:32]...)
	want[0] &= 248
	want[31] &= 127
	want[31] |= 64
	keep := append([]byte(nil), sk.Sk...)
	k := sk
	if form := vx.Choose("form", 3); form > 0 {
		keyFile(2*(form-1), sk, "key", "")
		r, err := sign.ReadPrivateKey("key", pwOf(nil))
		must(err, "key file does not read back")
		k = r
	}
	vx.Assert(vx.Eq(k.ToCurve25519SK(), want), "a converted private key is not the clamped hash")
	vx.Assert(vx.Eq(k.ToCurve25519SK(), want), "a repeated conversion differs")
	vx.Assert(vx.Eq(k.Sk, keep), "the conversion changes the key")
	vx.Assert(vx.Eq(cloneSK(k).ToCurve25519SK(), want), "the conversion of a copy differs")
	// both sides of an exchange agree, and only they
	sk2, pk2 := mkKey("k2")
	vx.Assume(!vx.Eq(pk.Pk, pk2.Pk))
	a, err := x25519(k.ToCurve25519SK(), pk2.ToCurve25519PK())
	must(err, "exchange fails")
	b, err := x25519(sk2.ToCurve25519SK(), k.PublicKey().ToCurve25519PK())
	must(err, "exchange fails")
	vx.Assert(vx.Eq(a, b), "the two sides of an exchange do not agree")
	bp := make([]byte, 32)
	bp[0] = 9
	c, err := x25519(k.ToCurve25519SK(), bp)
	must(err, "exchange fails")
	vx.Assert(vx.Eq(c, pk.ToCurve25519PK()), "the converted keys do not belong together")
	vx.Reach("ok")
}
