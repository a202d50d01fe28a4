package vxh

import (
	"crypto/aes"
	"crypto/cipher"
	stded "crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/scrypt"
	"gopkg.in/yaml.v2"
)

// skForm, pkForm and sigForm are the documented forms.
type skForm struct {
	Comment string `yaml:"comment"`
	Esk     string `yaml:"esk"`
	Salt    string `yaml:"salt"`
	Algo    string `yaml:"algo"`
	N       int    `yaml:"Z"`
	R       int    `yaml:"r"`
	P       int    `yaml:"p"`
}

type pkForm struct {
	Comment string `yaml:"comment"`
	Pk      string `yaml:"pk"`
	Hash    string `yaml:"hash"`
}

type sigForm struct {
	Comment   string `yaml:"comment"`
	Pkhash    string `yaml:"pkhash"`
	Signature string `yaml:"signature"`
}

func unb64(t, what string) []byte {
	b, err := base64.StdEncoding.DecodeString(t)
	must(err, what+" is not base64")
	return b
}

// checkSK checks a private key file written by sigtool.
func checkSK(doc []byte, ed, pw []byte, comment string) {
	f := skForm{}
	must(yaml.UnmarshalStrict(doc, &f), "private key file is not of the documented form")
	vx.Assert(f.Algo == "scrypt-sha256", "algo is not scrypt-sha256")
	vx.Assert(f.N == 1<<19 && f.R == 8 && f.P == 1, "scrypt parameters are not the documented ones")
	vx.Assert(f.Comment == comment, "comment differs")
	salt, esk := unb64(f.Salt, "salt"), unb64(f.Esk, "esk")
	vx.Assert(len(salt) == 32, "salt is not 32 bytes")
	h := sha512.Sum512(pw)
	k, err := scrypt.Key(h[:], salt, 1<<19, 8, 1, 32)
	must(err, "scrypt failed")
	b, err := aes.NewCipher(k)
	must(err, "aes failed")
	g, err := cipher.NewGCM(b)
	must(err, "gcm failed")
	p, err := g.Open(nil, salt[:12], esk, nil)
	vx.Assert(err == nil, "the private key is not encrypted as documented")
	vx.Assert(vx.Eq(p, ed), "the private key file holds another key")
}

func checkPK(doc []byte, pk []byte, comment string) {
	f := pkForm{}
	must(yaml.UnmarshalStrict(doc, &f), "public key file is not of the documented form")
	h := sha256.Sum256(pk)
	vx.Assert(f.Comment == comment, "comment differs")
	vx.Assert(vx.Eq(unb64(f.Pk, "pk"), pk), "the public key file holds another key")
	vx.Assert(vx.Eq(unb64(f.Hash, "hash"), h[:16]), "the key hash is not the first half of the key's SHA-256")
}

// sigOver is what is signed for a message.
func sigOver(m []byte) []byte {
	h := sha512.Sum512(cat([]byte("sigtool signed message"), m))
	return h[:]
}

// fileMsg is the message signed for a file.
func fileMsg(content []byte) []byte {
	h := sha512.Sum512(cat(content, make([]byte, 4), be32(len(content))))
	return h[:]
}

func checkSig(doc []byte, sk *sign.PrivateKey, m []byte) {
	f := sigForm{}
	must(yaml.UnmarshalStrict(doc, &f), "signature file is not of the documented form")
	pk := sk.PublicKey().Pk
	h := sha256.Sum256(pk)
	vx.Assert(vx.Eq(unb64(f.Pkhash, "pkhash"), h[:16]), "the signature does not name its key by hash")
	vx.Assert(stded.Verify(stded.PublicKey(pk), sigOver(m), unb64(f.Signature, "signature")), "the signature is not over the documented message")
}

// H_C43_written: what is stored has the documented form.
//
//vx:opt samples=1
//vx:bound arbitrary keys, passphrases of 0..3, 64, 65, 128, 200 arbitrary bytes, messages of 0..3 and 64 arbitrary bytes, files of 0..5 arbitrary bytes; comments of three forms; in memory and through files
func H_C43_written() {
	sk, pk := mkKey("k")
	c := []string{"", "me@host", "a: b # c"}[vx.Choose("comment", 3)]
	file := vx.Choose("file", 2) == 1
	vx.Scratch()
	var doc []byte
	var err error
	switch vx.Choose("what", 4) {
	case 0:
		pw := vx.Bytes("pw", []int{0, 1, 2, 3, 64, 65, 128, 200}[vx.Choose("lpw", 8)])
		if file {
			must(sk.Serialize("f", c, false, pw), "Serialize failed")
			doc = get("f")
		} else {
			doc, err = sk.MarshalBinary(c, pw)
			must(err, "MarshalBinary failed")
		}
		checkSK(doc, sk.Sk, pw, c)
	case 1:
		if file {
			must(pk.Serialize("f", c, false), "Serialize failed")
			doc = get("f")
		} else {
			doc, err = pk.MarshalBinary(c)
			must(err, "MarshalBinary failed")
		}
		checkPK(doc, pk.Pk, c)
	case 2:
		m := vx.Bytes("m", []int{0, 1, 2, 3, 64}[vx.Choose("lm", 5)])
		s, err := sk.SignMessage(m, c)
		must(err, "SignMessage failed")
		if file {
			must(s.Serialize("f", c, false), "Serialize failed")
			doc = get("f")
		} else {
			doc, err = s.MarshalBinary(c)
			must(err, "MarshalBinary failed")
		}
		checkSig(doc, sk, m)
	case 3:
		b := vx.Bytes("b", vx.Choose("lb", 6))
		put("in", b)
		s, err := sk.SignFile("in")
		must(err, "SignFile failed")
		doc, err = s.MarshalBinary(c)
		must(err, "MarshalBinary failed")
		checkSig(doc, sk, fileMsg(b))
	}
	vx.Reach("ok")
}

// H_C43_read: files of the documented form made by another program are accepted.
//
//vx:opt samples=1
//vx:bound arbitrary keys, passphrases of 0..3 and 200 arbitrary bytes, scrypt parameters of four sets, messages of 0..3 and 64 arbitrary bytes, files of 0..5 arbitrary bytes; fields in two orders, quoted or not
func H_C43_read() {
	sk, _ := mkKey("k")
	ed := sk.Sk
	pub := sk.PublicKey().Pk
	h := sha256.Sum256(pub)
	q := ""
	if vx.Choose("quoted", 2) == 1 {
		q = "\""
	}
	rev := vx.Choose("rev", 2) == 1
	mk := func(lines ...string) []byte {
		d := ""
		for i := range lines {
			if rev {
				d += lines[len(lines)-1-i] + "\n"
			} else {
				d += lines[i] + "\n"
			}
		}
		return []byte(d)
	}
	v := func(b []byte) string { return q + b64(b) + q }
	vx.Scratch()
	switch vx.Choose("what", 4) {
	case 0:
		pw := vx.Bytes("pw", []int{0, 1, 2, 3, 200}[vx.Choose("lpw", 5)])
		salt := vx.Words("salt", 32)
		n, r, p, z := 1<<19, 8, 1, "Z: 524288\nr: 8\np: 1"
		switch vx.Choose("cost", 4) {
		case 1:
			n, r, p, z = 131072, 16, 1, "Z: 131072\nr: 16\np: 1"
		case 2:
			n, r, p, z = 1024, 1, 2, "p: 2\nr: 1\nZ: 1024"
		case 3:
			n, r, p, z = 2, 1, 1, "Z: 2\nr: 1\np: 1"
		}
		doc := mk("esk: "+v(seal(ed, salt, pw, n, r, p)), "salt: "+v(salt), "algo: scrypt-sha256", z, "comment: "+q+"me"+q)
		back, err := sign.MakePrivateKey(doc, pwOf(pw))
		must(err, "a private key file of the documented form is refused")
		sameKey(back, sk, "reading")
	case 1:
		put("k.pub", mk("pk: "+v(pub), "hash: "+v(h[:16]), "comment: "+q+"me"+q))
		pk, err := sign.ReadPublicKey("k.pub")
		must(err, "a public key file of the documented form is refused")
		vx.Assert(vx.Eq(pk.Pk, pub) && vx.Eq(pk.Hash(), h[:16]), "another key is read")
	case 2:
		m := vx.Bytes("m", []int{0, 1, 2, 3, 64}[vx.Choose("lm", 5)])
		put("s", mk("pkhash: "+v(h[:16]), "signature: "+v(stded.Sign(stded.PrivateKey(ed), sigOver(m))), "comment: "+q+"me"+q))
		s, err := sign.ReadSignature("s")
		must(err, "a signature file of the documented form is refused")
		vx.Assert(s.IsPKMatch(sk.PublicKey()), "the signature does not match its key")
		vx.Assert(sk.PublicKey().VerifyMessage(m, s), "a signature of the documented form does not verify")
	case 3:
		b := vx.Bytes("b", vx.Choose("lb", 6))
		put("in", b)
		put("s", mk("pkhash: "+v(h[:16]), "signature: "+v(stded.Sign(stded.PrivateKey(ed), sigOver(fileMsg(b)))), "comment: "+q+"me"+q))
		s, err := sign.ReadSignature("s")
		must(err, "a signature file of the documented form is refused")
		ok, err := sk.PublicKey().VerifyFile("in", s)
		must(err, "VerifyFile failed")
		vx.Assert(ok, "a file signature of the documented form does not verify")
	}
	vx.Reach("ok")
}
