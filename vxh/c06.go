package vxh

import (
	"bytes"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C06_auth: the reported sender is the truth.
//
//vx:bound 1..2 recipients; file signed by A or not signed; verification key absent, A, another key B, or the recipient's own; plaintext 0..3 bytes
func H_C06_auth() {
	n := vx.Choose("n", 4)
	nrx := 1 + vx.Choose("nrx", 2)
	pt := vx.Bytes("pt", n)
	sks, pks := mkKeys("k", nrx+2)
	a, b := nrx, nrx+1
	var ssk *sign.PrivateKey
	signed := vx.Choose("signed", 2) == 1
	if signed {
		ssk = sks[a]
	}
	enc := encrypt(pt, 2, ssk, pks[:nrx]...)
	who := vx.Choose("who", nrx)
	with := vx.Choose("with", 4)
	spk := []*sign.PublicKey{nil, pks[a], pks[b], pks[who]}[with]
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	must(err, "NewDecryptor")
	err = d.SetPrivateKey(sks[who], spk)
	vx.Assert(!d.AuthenticatedSender() || (signed && with == 1), "a sender is reported that did not sign the file")
	w := &wbuf{}
	if signed && with != 1 {
		vx.Assert(err != nil, "a signed file is accepted without the right sender key")
		vx.Assert(d.Decrypt(w) != nil && len(w.b) == 0, "plaintext from a file whose sender was refused")
		vx.Reach("refused")
		return
	}
	must(err, "SetPrivateKey")
	vx.Assert(d.AuthenticatedSender() == signed, "the sender of a signed file is not reported")
	must(d.Decrypt(w), "Decrypt")
	vx.Assert(vx.Eq(w.b, pt), "wrong text")
	vx.Assert(d.AuthenticatedSender() == signed, "the reported sender changes")
	vx.Reach("ok")
}

// H_C06_forged: sender fields made by a recipient: no arbitrary signature is reported as authentic.
//
//vx:bound 1 recipient who knows the root key and replaces the sender field by an encryption of 64 arbitrary bytes, of zero bytes with the rest arbitrary, of the sender's signature on another file's key material (keeping none, one, two or, of root key, salt and ephemeral key, any two of it), or of a signature with the co-recipient's key; empty plaintext and 1 block
func H_C06_forged() {
	sks, pks := mkKeys("k", 3) // sender, two recipients
	pt := vx.Bytes("pt", 2*vx.Choose("n", 2))
	key := vx.Key("ref.key", 32)
	h := &refHdr{chunk: 2, salt: vx.Key("ref.salt", 32)}
	esk := vx.Key("ref.esk", 32)
	h.pk = refPoint(esk)
	var sig []byte
	switch vx.Choose("how", 4) {
	case 0:
		sig = vx.Words("sig", 64)
		vx.Assume(!vx.Eq(sig, make([]byte, 64)))
	case 1:
		sig = make([]byte, 64)
		sig[[]int{0, 31, 32, 63}[vx.Choose("at", 4)]] = vx.Byte("v")
		vx.Assume(!vx.Eq(sig, make([]byte, 64)))
	case 2: // replayed from another file of the same sender
		enc2 := encrypt(nil, 2, sks[0], pks[1], pks[2])
		hl2 := hdrLen(enc2)
		h2, _ := refDecode(enc2[12 : hl2-32])
		k2, ok := h2.refUnwrap(0, sks[1].Sk)
		vx.Assert(ok, "cannot unwrap")
		sig, ok = h2.openSender(k2)
		vx.Assert(ok, "cannot open sender field")
		if vx.Choose("samekey", 2) == 1 {
			key = k2
		}
		keep := vx.Choose("keep", 4)
		if keep == 1 || keep == 3 {
			h.salt = h2.salt
		}
		if keep >= 2 {
			h.pk, esk = h2.pk, nil
		}
		vx.Assume(!vx.Eq(h.senderMsg(key), h2.senderMsg(k2)))
	case 3:
		sig = refSign(sks[1].Sk, h.senderMsg(key))
	}
	h.sealSender(key, sig)
	if esk != nil {
		h.refWrap(esk, refPoint(refScalar(sks[2].Sk)), pks[2].Pk, vx.Key("ref.nonce", 12), key)
	} else {
		// the forger is the other recipient and knows only its own shared secret
		dh, err := x25519(refScalar(sks[2].Sk), h.pk)
		must(err, "dh")
		kek, gn := refKEK(dh, h.salt, vx.Key("ref.nonce", 12))
		non := vx.Key("ref.nonce2", 12)
		kek, gn = refKEK(dh, h.salt, non)
		h.keys = append(h.keys, refKey{refAEAD(kek).Seal(nil, gn, key, pks[2].Pk), non})
	}
	out := frame(h.encode())
	b := newRefBody(key, out[len(out)-32:])
	out = cat(out, b.seal(pt, true), make([]byte, 64))
	d, err := sign.NewDecryptor(bytes.NewReader(out))
	must(err, "NewDecryptor")
	var spk *sign.PublicKey
	if vx.Choose("with", 2) == 1 {
		spk = pks[0]
	}
	err = d.SetPrivateKey(sks[2], spk)
	vx.Assert(!d.AuthenticatedSender(), "a forged sender is reported as authentic")
	vx.Assert(err != nil, "a forged sender field is accepted")
	w := &wbuf{}
	vx.Assert(d.Decrypt(w) != nil && len(w.b) == 0, "plaintext from a file whose sender was refused")
}

// H_C06_history: what was accepted or refused before does not matter.
//
//vx:bound 2..3 keys given one after the other, each the recipient's or another one, with no sender key, the right one or another one; file signed or not; plaintext 3 bytes in blocks of 2
func H_C06_history() {
	pt := vx.Bytes("pt", 3)
	sks, pks := mkKeys("k", 4) // recipient, stranger, sender, somebody
	var ssk *sign.PrivateKey
	signed := vx.Choose("signed", 2) == 1
	if signed {
		ssk = sks[2]
	}
	d, err := sign.NewDecryptor(bytes.NewReader(encrypt(pt, 2, ssk, pks[0])))
	must(err, "NewDecryptor")
	calls := 2 + vx.Choose("calls", 2)
	accepted := false
	for i := 0; i < calls; i++ {
		who := vx.Choose("who", 2)
		with := vx.Choose("with", 3)
		err = d.SetPrivateKey(sks[who], []*sign.PublicKey{nil, pks[2], pks[3]}[with])
		if who == 0 && (!signed || with == 1) {
			must(err, "the right keys are refused")
			accepted = true
		} else {
			vx.Assert(err != nil, "wrong keys are accepted after others")
		}
		if accepted || !signed {
			vx.Assert(d.AuthenticatedSender() == (accepted && signed), "the reported sender is wrong after several attempts")
		} else {
			vx.Assert(!d.AuthenticatedSender(), "a refused sender is reported")
		}
	}
	w := &wbuf{}
	err = d.Decrypt(w)
	if !accepted {
		vx.Assert(err != nil && len(w.b) == 0, "plaintext without accepted keys")
		vx.Reach("refused")
		return
	}
	must(err, "Decrypt")
	vx.Assert(vx.Eq(w.b, pt), "wrong text")
	vx.Assert(d.AuthenticatedSender() == signed, "the reported sender changes")
	vx.Reach("ok")
}
