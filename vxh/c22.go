package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// isPK checks that q holds exactly the key bytes.
func isPK(q *sign.PublicKey, raw []byte, msg string) {
	vx.Assert(q != nil, msg+": no key")
	vx.Assert(len(q.Pk) == 32 && vx.Eq(q.Pk, raw), msg+": key bytes differ")
	vx.Assert(vx.Eq(q.Hash(), refHash(raw)), msg+": key hash differs")
}

// H_C22_roundtrip: every way of writing and reading a public key.
//
//vx:bound arbitrary 32-byte keys; every comment form of C19; in memory, into a used object, through a file, as bare base64
func H_C22_roundtrip() {
	raw := vx.Words("raw", 32)
	pk, err := newPK(raw)
	must(err, "no public key")
	isPK(pk, raw, "first reading")
	c := aComment()
	doc, err := pk.MarshalBinary(c)
	must(err, "MarshalBinary failed")
	var q *sign.PublicKey
	switch vx.Choose("via", 5) {
	case 0:
		q, err = sign.MakePublicKey(doc)
	case 1:
		_, q = mkKey("used")
		q.ToCurve25519PK()
		q.Comment = "old"
		err = q.UnmarshalBinary(doc)
		must(err, "own public key does not parse")
		vx.Assert(vx.Eq(q.ToCurve25519PK(), clonePK(pk).ToCurve25519PK()), "a reused key object encrypts to its previous key")
	case 2:
		vx.Scratch()
		must(pk.Serialize("k.pub", c, false), "Serialize failed")
		q, err = sign.ReadPublicKey("k.pub")
	case 3:
		vx.Scratch()
		must(os.WriteFile("k.pub", []byte("old"), 0644), "no file")
		must(pk.Serialize("k.pub", c, true), "Serialize failed")
		q, err = sign.ReadPublicKey("k.pub")
	case 4:
		q, err = sign.MakePublicKeyFromString(b64(raw))
	}
	must(err, "own public key does not parse")
	isPK(q, raw, "reading back")
	vx.Assert(vx.Eq(pk.Pk, raw), "serialising changes the key")
	raw2 := vx.Words("raw2", 32)
	q2, err := newPK(raw2)
	must(err, "no public key")
	vx.Assert(vx.Eq(q2.Hash(), q.Hash()) == vx.Eq(raw, raw2), "key hashes do not tell keys apart")
	vx.Reach("ok")
}

// H_C22_fields: wrong sizes are refused, the stored hash is not believed.
//
//vx:bound key field of 0..70 arbitrary bytes with a hash field of 0..17 arbitrary bytes, as YAML in both orders, as file and as bare base64
func H_C22_fields() {
	n := vx.Choose("n", 71)
	raw := vx.Words("raw", n)
	h := []byte{}
	if n == 32 {
		h = vx.Bytes("hash", vx.Choose("nh", 18))
	} else {
		h = vx.Bytes("hash", 16)
	}
	var q *sign.PublicKey
	var err error
	switch vx.Choose("via", 5) {
	case 0:
		q, err = sign.MakePublicKey([]byte("pk: " + b64(raw) + "\nhash: " + b64(h) + "\n"))
	case 1:
		q, err = sign.MakePublicKey([]byte("hash: " + b64(h) + "\npk: " + b64(raw) + "\n"))
	case 2:
		q, err = sign.MakePublicKey([]byte("comment: x y z\npk: " + b64(raw) + "\n"))
	case 3:
		vx.Scratch()
		put("x.pub", []byte("comment: c\npk: "+b64(raw)+"\nhash: "+b64(h)+"\n"))
		q, err = sign.ReadPublicKey("x.pub")
	case 4:
		if n > 48 {
			// long strings may hold an OpenSSH key
			vx.Assume(!vx.Eq(raw[:15], sshStr([]byte("ssh-ed25519"))))
		}
		q, err = sign.MakePublicKeyFromString(b64(raw))
	}
	if err != nil {
		vx.Assert(n != 32, "a well-formed public key is refused")
		vx.Assert(q == nil, "a key comes with an error")
		vx.Reach("refused")
		return
	}
	vx.Assert(n == 32, "a public key of the wrong size is accepted")
	isPK(q, raw, "field")
	vx.Reach("ok")
}

// H_C22_docs: other documents.
//
//vx:bound 26 documents that are not a public key, as bytes, as file and as string; missing file
func H_C22_docs() {
	docs := []string{"", "\n", "pk", "pk:", "pk: ''\n", "pk: !!\n", "pk: YQ\n", "pk: [a]\n", "pk: {a: b}\n", "- pk\n", "{", "\x00", "hash: YQ==\n", "esk: YQ==\nsalt: YQ==\n",
		"pkhash: YQ==\nsignature: YQ==\n", "ssh-ed25519", "ssh-ed25519 ", "ssh-ed25519  ", "ssh-ed25519 YQ== c", "ssh-rsa AAAAB3NzaC1yc2E= c", "a b c", "a b", " ", "\t\t", "ssh-rsa AAAAB3NzaC1yc2EAAAADAQABAAAAAQA= me", "AAAAB3NzaC1yc2EAAAADAQABAAAAAQA="}
	d := docs[vx.Choose("doc", len(docs))]
	q, err := sign.MakePublicKey([]byte(d))
	vx.Assert(err != nil && q == nil, "something else is read as a public key")
	q, err = sign.MakePublicKeyFromString(d)
	vx.Assert(err != nil && q == nil, "some other string is read as a public key")
	vx.Scratch()
	put("x.pub", []byte(d))
	q, err = sign.ReadPublicKey("x.pub")
	vx.Assert(err != nil && q == nil, "some other file is read as a public key")
	q, err = sign.ReadPublicKey("nope.pub")
	vx.Assert(err != nil && q == nil, "a missing file is read as a public key")
	vx.Reach("ok")
}

// H_C22_string: the base64 form with anything changed is not half believed.
//
//vx:bound base64 of an arbitrary 32-byte key followed by 1..4 arbitrary bytes, cut by 1..44 characters, or (fixed key) with any one character replaced by any byte that is no base64 character
func H_C22_string() {
	var s string
	switch vx.Choose("kind", 3) {
	case 0:
		t := b64(vx.Key("pk", 32))
		x := vx.Bytes("x", 1+vx.Choose("n", 4))
		for i := range x {
			vx.Assume(x[i] != '\r' && x[i] != '\n')
		}
		s = t + string(x)
	case 1:
		t := b64(make([]byte, 32))
		s = t[:vx.Choose("n", 44)]
	case 2:
		t := []byte(b64(make([]byte, 32)))
		x := vx.Byte("x")
		// base64 ignores line ends
		vx.Assume(x != '\r' && x != '\n' && x != '+' && x != '/' && !(x >= '0' && x <= '9') && !(x >= 'a' && x <= 'z') && !(x >= 'A' && x <= 'Z'))
		at := vx.Choose("at", 44)
		vx.Assume(at < 43 || x != '=')
		t[at] = x
		s = string(t)
	}
	q, err := sign.MakePublicKeyFromString(s)
	vx.Assert(err != nil && q == nil, "a broken string is read as a public key")
	vx.Reach("ok")
}

// H_C22_ruined: a key field that is base64 at first only.
//
//vx:bound a key (its last 6 bytes arbitrary) with one of 11 tails, or with 1..5 characters cut off, as YAML and as string
func H_C22_ruined() {
	t := ruin(b64(cat(make([]byte, 26), vx.Bytes("k", 6))))
	q, err := sign.MakePublicKey([]byte("pk: \"" + t + "\"\n"))
	vx.Assert(err != nil && q == nil, "a ruined public key is read")
	q, err = sign.MakePublicKeyFromString(t)
	vx.Assert(err != nil && q == nil, "a ruined public key string is read")
	vx.Reach("refused")
}
