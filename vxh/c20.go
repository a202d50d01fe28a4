package vxh

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha512"
	"errors"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/scrypt"
)

func pwOf(b []byte) func() ([]byte, error) {
	return func() ([]byte, error) { return append([]byte(nil), b...), nil }
}

// skDoc is an independent writer of the private key form.
func skDoc(comment string, esk, salt []byte, n, r, p string) []byte {
	d := ""
	if comment != "" {
		d += "comment: " + comment + "\n"
	}
	return []byte(d + "esk: " + b64(esk) + "\nsalt: " + b64(salt) + "\nalgo: scrypt-sha256\nZ: " + n + "\nr: " + r + "\np: " + p + "\n")
}

// seal encrypts plain like a private key file does.
func seal(plain, salt, pw []byte, n, r, p int) []byte {
	h := sha512.Sum512(pw)
	k, err := scrypt.Key(h[:], salt, n, r, p, 32)
	must(err, "scrypt failed")
	blk, err := aes.NewCipher(k)
	must(err, "aes failed")
	g, err := cipher.NewGCM(blk)
	must(err, "gcm failed")
	return g.Seal(nil, salt[:12], plain, nil)
}

func sameKey(a, b *sign.PrivateKey, msg string) {
	vx.Assert(vx.Eq(a.Sk, b.Sk), msg+": secret differs")
	vx.Assert(vx.Eq(a.PublicKey().Pk, b.PublicKey().Pk), msg+": public key differs")
	vx.Assert(vx.Eq(a.PublicKey().Hash(), b.PublicKey().Hash()), msg+": key hash differs")
	vx.Assert(vx.Eq(a.ToCurve25519SK(), b.ToCurve25519SK()), msg+": converted key differs")
}

// H_C20_roundtrip: a stored key comes back with its passphrase and no other.
//
//vx:opt samples=1
//vx:bound arbitrary keys; passphrases of 0..3, 64, 65 arbitrary bytes against every other such passphrase; every comment form of C19; in memory and through a file
func H_C20_roundtrip() {
	sks, pks := mkKeys("k", 2)
	sk, pk := sks[0], pks[0]
	lens := []int{0, 1, 2, 3, 64, 65}
	c := "x"
	l1, l2 := 0, 0
	if vx.Choose("what", 2) == 0 {
		c = aComment()
		l1, l2 = 2, 2
	} else {
		l1, l2 = lens[vx.Choose("l1", len(lens))], lens[vx.Choose("l2", len(lens))]
	}
	pw, pw2 := vx.Bytes("pw", l1), vx.Bytes("pw2", l2)
	keep := append([]byte(nil), sk.Sk...)
	var doc []byte
	var err error
	if vx.Choose("via", 2) == 0 {
		doc, err = sk.MarshalBinary(c, pw)
		must(err, "MarshalBinary failed")
	} else {
		vx.Scratch()
		must(sk.Serialize("k.key", c, false, pw), "Serialize failed")
		doc = get("k.key")
	}
	vx.Assert(vx.Eq(sk.Sk, keep), "storing changes the key")
	var back *sign.PrivateKey
	if vx.Choose("rd", 2) == 0 {
		back, err = sign.MakePrivateKey(doc, pwOf(pw))
	} else {
		// into an object that already was used as another key
		back = sks[1]
		back.ToCurve25519SK()
		err = back.UnmarshalBinary(doc, pwOf(pw))
	}
	must(err, "the passphrase does not open the key")
	sameKey(back, cloneSK(sk), "reading back")
	m := []byte("message")
	vx.Assert(clonePK(pk).VerifyMessage(m, signMsg(back, m)), "signature by the stored key does not verify")
	vx.Assert(signMsg(back, m).IsPKMatch(pk), "signature by the stored key does not name it")

	_, err = sign.MakePrivateKey(doc, pwOf(pw2))
	same := vx.Eq(pw, pw2)
	if err == nil {
		vx.Assert(same, "another passphrase opens the key")
	} else {
		vx.Assert(!same, "the passphrase does not open the key")
	}
	x := &sign.PrivateKey{}
	if x.UnmarshalBinary(doc, nil) == nil {
		vx.Assert(l1 == 0, "no passphrase opens the key")
	} else {
		vx.Assert(l1 != 0, "the empty passphrase does not open the key")
	}
	_, err = sign.MakePrivateKey(doc, func() ([]byte, error) { return pw, errors.New("no") })
	vx.Assert(err != nil, "a failing passphrase prompt opens the key")
	vx.Reach("ok")
}

// H_C20_tamper: a changed encrypted key or salt never opens.
//
//vx:opt samples=1
//vx:bound passphrases of 0..2 bytes; encrypted key replaced by 79..81 arbitrary bytes, or salt replaced by 12..33 arbitrary bytes, or both
func H_C20_tamper() {
	sk, _ := mkKey("k")
	pw := vx.Bytes("pw", vx.Choose("lpw", 3))
	salt := vx.Words("salt", 32)
	esk := seal(sk.Sk, salt, pw, 1<<19, 8, 1)
	vx.Assert(len(esk) == 80, "sealed size")
	e2, s2 := esk, salt
	what := vx.Choose("what", 4)
	if what&1 != 0 {
		e2 = vx.Tamper("esk", esk, 79+vx.Choose("ne", 3))
	}
	if what&2 != 0 {
		s2 = vx.Tamper("salt", salt, 12+vx.Choose("ns", 22))
	}
	back, err := sign.MakePrivateKey(skDoc("c", e2, s2, "524288", "8", "1"), pwOf(pw))
	same := vx.And(vx.Eq(e2, esk), vx.Eq(s2, salt))
	if err != nil {
		vx.Assert(!same, "an independently written private key is refused")
		vx.Reach("refused")
		return
	}
	vx.Assert(same, "a changed private key file opens")
	sameKey(back, cloneSK(sk), "independent file")
	vx.Reach("ok")
}

// H_C20_cost: changed cost parameters never open the key.
//
//vx:bound every value of one of Z, r, p (64-bit), the other two as written
//vx:opt dec=6 conc=24 samples=1
func H_C20_cost() {
	sk, _ := mkKey("k")
	pw := vx.Bytes("pw", 1)
	salt := vx.Words("salt", 32)
	esk := seal(sk.Sk, salt, pw, 1<<19, 8, 1)
	n, r, p := "524288", "8", "1"
	v := int(vx.U64("v"))
	var orig int
	switch vx.Choose("which", 3) {
	case 0:
		n, orig = vx.IntText(v), 1<<19
	case 1:
		r, orig = vx.IntText(v), 8
	case 2:
		p, orig = vx.IntText(v), 1
	}
	vx.Assume(v != orig)
	_, err := sign.MakePrivateKey(skDoc("", esk, salt, n, r, p), pwOf(pw))
	vx.Assert(err != nil, "changed cost parameters open the key")
	vx.Reach("ok")
}

// H_C20_ruined: an encrypted key or salt that is base64 at first only.
//
//vx:opt samples=2
//vx:bound the true encrypted key or salt with one of 11 tails, or with 1..5 characters cut off
func H_C20_ruined() {
	sk, _ := mkKey("k")
	salt := vx.Words("salt", 32)
	esk := b64(seal(sk.Sk, salt, nil, 1<<19, 8, 1))
	slt := b64(salt)
	if vx.Choose("field", 2) == 0 {
		esk = ruin(esk)
	} else {
		slt = ruin(slt)
	}
	_, err := sign.MakePrivateKey([]byte("esk: \""+esk+"\"\nsalt: \""+slt+"\"\nalgo: scrypt-sha256\nZ: 524288\nr: 8\np: 1\n"), nil)
	vx.Assert(err != nil, "a ruined private key opens")
	vx.Reach("refused")
}
