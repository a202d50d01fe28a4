package vxh

import (
	"bytes"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C05_recipients: all named recipients decrypt, nobody else.
//
//vx:bound 1..4 recipients (thorough 1..8), every position, plaintext of 3 arbitrary bytes, all keys arbitrary and different, with/without sender; optionally after another recipient's or an outsider's key was tried on the same decryptor
func H_C05_recipients() {
	max := 4
	if vx.Thorough() {
		max = 8
	}
	n := 1 + vx.Choose("n", max)
	who := vx.Choose("who", n+1) // n: an outsider
	pt := vx.Bytes("pt", 3)
	sks, pks := mkKeys("rx", n+1)
	var ssk *sign.PrivateKey
	var spk *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		ssk, spk = mkKey("sender")
	}
	enc := encrypt(pt, 2, ssk, pks[:n]...)
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	must(err, "NewDecryptor")
	w := &wbuf{}
	first := vx.Choose("first", 3)
	switch first {
	case 1: // an outsider tries before
		vx.Assert(d.SetPrivateKey(sks[n], spk) != nil, "the key of an outsider is accepted")
	case 2: // a recipient's key is given before
		must(d.SetPrivateKey(sks[(who+1)%n], spk), "a recipient's key is refused")
	}
	err = d.SetPrivateKey(sks[who], spk)
	if who == n && first == 2 {
		vx.Assert(err != nil, "the key of an outsider is accepted after a recipient's")
		vx.Reach("outsider after")
		return
	}
	if who < n {
		must(err, "a recipient's key is refused")
		must(d.Decrypt(w), "a recipient cannot decrypt")
		vx.Assert(vx.Eq(w.b, pt), "a recipient reads other text")
		vx.Reach("recipient")
		return
	}
	vx.Assert(err != nil, "the key of an outsider is accepted")
	vx.Assert(d.Decrypt(w) != nil, "an outsider can decrypt")
	vx.Assert(len(w.b) == 0, "an outsider obtains plaintext")
	_, err = d.NewStreamReader()
	vx.Assert(err != nil, "an outsider obtains a stream")
	vx.Reach("outsider")
}

// H_C05_same: two recipients may share a key or differ in the sign bit only; a recipient added twice still decrypts.
//
//vx:bound 2..3 recipients where the first is also added last
func H_C05_same() {
	n := 1 + vx.Choose("n", 2)
	pt := vx.Bytes("pt", 2)
	sks, pks := mkKeys("rx", n)
	pks = append(pks, pks[0])
	enc := encrypt(pt, 2, nil, pks...)
	got, _, err := decryptAll(enc, sks[vx.Choose("who", n)], nil)
	must(err, "a recipient cannot decrypt")
	vx.Assert(vx.Eq(got, pt), "a recipient reads other text")
}

// H_C05_points: the same with every shape of converted key, including leading zero bytes.
//
//vx:opt mont=full attempts=4000
//vx:bound 2 recipients, converted keys with 0..7 leading zero bytes
func H_C05_points() {
	pt := vx.Bytes("pt", 2)
	sks, pks := mkKeys("rx", 2)
	enc := encrypt(pt, 2, nil, pks...)
	who := vx.Choose("who", 2)
	got, _, err := decryptAll(enc, cloneSK(sks[who]), nil)
	must(err, "a recipient cannot decrypt")
	vx.Assert(vx.Eq(got, pt), "a recipient reads other text")
}

// H_C05_reuse: recipients given as reused key objects, several encryptors.
//
//vx:bound 2 encryptors sharing the same 2 public key objects, 3 byte plaintexts; or one object into which the two keys are read in turn (as sigtool or OpenSSH key)
func H_C05_reuse() {
	sks, pks := mkKeys("rx", 2)
	a, b := vx.Bytes("a", 3), vx.Bytes("b", 3)
	ea := encrypt(a, 2, nil, pks...)
	eb := encrypt(b, 2, nil, pks[1])
	who := vx.Choose("who", 2)
	if vx.Choose("one", 2) == 1 {
		// all keys are read into the same object, one after the other
		e, err := sign.NewEncryptor(nil, 2)
		must(err, "NewEncryptor failed")
		var pk sign.PublicKey
		for i := range pks {
			if vx.Choose("form", 2) == 0 {
				b, err := pks[i].MarshalBinary("c")
				must(err, "MarshalBinary failed")
				must(pk.UnmarshalBinary(b), "own public key does not parse")
			} else {
				must(pk.UnmarshalBinary([]byte("ssh-ed25519 "+b64(edBlob(pks[i].Pk))+" me@host\n")), "an OpenSSH public key does not parse")
			}
			must(e.AddRecipient(&pk), "AddRecipient failed")
		}
		w := &wbuf{}
		must(e.Encrypt(bytes.NewReader(a), w), "Encrypt failed")
		ea = w.b
	}
	got, _, err := decryptAll(ea, sks[who], nil)
	must(err, "a recipient cannot decrypt")
	vx.Assert(vx.Eq(got, a), "a recipient reads other text")
	got, _, err = decryptAll(eb, sks[who], nil)
	if who == 1 {
		must(err, "a recipient cannot decrypt the second file")
		vx.Assert(vx.Eq(got, b), "a recipient reads other text in the second file")
	} else {
		vx.Assert(err != nil && len(got) == 0, "a recipient of another file can decrypt")
	}
}

// H_C05_many: a long list of recipients.
//
//vx:opt samples=4 steps=2000000000
//vx:bound 9, 17, 33, 65, 129, 300 and 1100 recipients (thorough also 5000), at the first, second, middle, last but one and last position; an outsider
func H_C05_many() {
	ns := []int{9, 17, 33, 65, 129, 300, 1100, 5000}
	k := 7
	if vx.Thorough() {
		k = 8
	}
	n := ns[vx.Choose("n", k)]
	pt := vx.Bytes("pt", 3)
	at := []int{0, 1, n / 2, n - 2, n - 1, n}[vx.Choose("who", 6)]
	sk, pk := mkKey("rx")
	osk, opk := mkKey("other")
	vx.Assume(!vx.Eq(pk.Pk, opk.Pk))
	_ = osk
	rx := make([]*sign.PublicKey, n)
	for i := range rx {
		rx[i] = opk
	}
	if at < n {
		rx[at] = pk
	}
	enc := encrypt(pt, 2, nil, rx...)
	got, _, err := decryptAll(enc, sk, nil)
	if at < n {
		must(err, "a recipient cannot decrypt")
		vx.Assert(vx.Eq(got, pt), "a recipient reads other text")
		vx.Reach("recipient")
		return
	}
	vx.Assert(err != nil && len(got) == 0, "the key of an outsider is accepted")
	vx.Reach("outsider")
}

// small are the y coordinates of the points of small order (also unreduced ones).
var small = []string{
	"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
	"\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
	"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05",
	"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
	"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
	"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a",
	"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
}

// H_C05_small: a public key with which everybody would share the same secret is refused.
//
//vx:bound every Ed25519 public key of small order (also unreduced encodings), both signs, as the only recipient, before or after another one
func H_C05_small() {
	b := []byte(small[vx.Choose("y", len(small))])
	b[31] |= byte(vx.Choose("sign", 2)) << 7
	q, err := newPK(b)
	if err != nil {
		vx.Reach("refused")
		return
	}
	sk, pk := mkKey("rx")
	e, err := sign.NewEncryptor(nil, 2)
	must(err, "NewEncryptor failed")
	at := vx.Choose("at", 3)
	if at == 1 {
		must(e.AddRecipient(pk), "AddRecipient failed")
	}
	vx.Assert(e.AddRecipient(q) != nil, "a public key of small order is accepted as recipient")
	if at == 0 {
		return
	}
	if at == 2 {
		must(e.AddRecipient(pk), "AddRecipient failed after a refused key")
	}
	pt := vx.Bytes("pt", 3)
	w := &wbuf{}
	must(e.Encrypt(bytes.NewReader(pt), w), "Encrypt failed after a refused key")
	got, _, err := decryptAll(w.b, sk, nil)
	must(err, "a recipient cannot decrypt")
	vx.Assert(vx.Eq(got, pt), "a recipient reads other text")
	vx.Reach("ok")
}

// H_C05_most: as many recipients as a header can hold, and more.
//
//vx:opt steps=4000000000 samples=1
//vx:bound 15000, 15886..15889 and 16500 recipients; the first and the second one decrypt
func H_C05_most() {
	n := []int{15000, 15886, 15887, 15888, 15889, 16500}[vx.Choose("n", 6)]
	pt := vx.Bytes("pt", 3)
	sk, pk := mkKey("rx")
	osk, opk := mkKey("other")
	vx.Assume(!vx.Eq(pk.Pk, opk.Pk))
	e, err := sign.NewEncryptor(nil, 2)
	must(err, "NewEncryptor failed")
	for i := 0; i < n && err == nil; i++ {
		if i == 1 {
			err = e.AddRecipient(pk)
		} else {
			err = e.AddRecipient(opk)
		}
	}
	w := &wbuf{}
	if err == nil {
		err = e.Encrypt(bytes.NewReader(pt), w)
	}
	if err != nil {
		vx.Assert(n > 15000, "many recipients are refused")
		vx.Assert(len(w.b) == 0, "output for too many recipients")
		vx.Reach("refused")
		return
	}
	k := sk
	if vx.Choose("who", 2) == 0 {
		k = osk
	}
	got, _, err := decryptAll(w.b, k, nil)
	must(err, "a recipient cannot decrypt")
	vx.Assert(vx.Eq(got, pt), "a recipient reads other text")
	vx.Reach("ok")
}
