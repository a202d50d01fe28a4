package vxh

import (
	"bytes"
	"crypto/sha256"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// party is one user of the library whose work is done in steps.
type party struct {
	pt   []byte
	sk   *sign.PrivateKey
	snd  *sign.PrivateKey
	e    *sign.Encryptor
	w    *wbuf
	st   io.WriteCloser
	d    *sign.Decryptor
	rd   io.Reader
	got  []byte
	at   int
	left int
}

func (p *party) spk() *sign.PublicKey {
	if p.snd == nil {
		return nil
	}
	return p.snd.PublicKey()
}

const encSteps = 6

// encStep does the next step of a streaming encryption; false if there is none.
func (p *party) encStep() bool {
	p.at++
	h := len(p.pt) / 2
	var err error
	n := 0
	switch p.at {
	case 1:
		p.e, err = sign.NewEncryptor(p.snd, 2)
	case 2:
		err = p.e.AddRecipient(p.sk.PublicKey())
	case 3:
		p.w = &wbuf{}
		p.st, err = p.e.NewStreamWriter(p.w)
	case 4:
		n, err = p.st.Write(p.pt[:h])
		vx.Assert(n == h, "stream Write does not report all bytes")
	case 5:
		n, err = p.st.Write(p.pt[h:])
		vx.Assert(n == len(p.pt)-h, "stream Write does not report all bytes")
	case 6:
		err = p.st.Close()
	default:
		return false
	}
	must(err, "a step of encryption fails")
	return true
}

// decStep does the next step of a streaming decryption.
func (p *party) decStep(enc []byte) bool {
	p.at++
	var err error
	switch p.at {
	case 1:
		p.d, err = sign.NewDecryptor(bytes.NewReader(enc))
	case 2:
		err = p.d.SetPrivateKey(p.sk, p.spk())
	case 3:
		p.rd, err = p.d.NewStreamReader()
	case 4, 5:
		b := make([]byte, 1)
		n := 0
		n, err = p.rd.Read(b)
		p.got = append(p.got, b[:n]...)
		if err == io.EOF && len(p.got) == len(p.pt) {
			err = nil
		}
	case 6:
		var b []byte
		b, err = io.ReadAll(p.rd)
		p.got = append(p.got, b...)
	default:
		return false
	}
	must(err, "a step of decryption fails")
	return true
}

// interleave runs both to their ends in a chosen order.
func interleave(a, b func() bool, n int) {
	i, j := 0, 0
	for k := 0; k < 2*n; k++ {
		first := j == n
		if i < n && j < n {
			first = vx.Choose("who", 2) == 0
		}
		if first {
			i++
			vx.Assert(a(), "step missing")
		} else {
			j++
			vx.Assert(b(), "step missing")
		}
	}
}

// H_C44_streams: the order of the steps of two users does not matter.
//
//vx:opt samples=6
//vx:bound every interleaving of the 6 steps of two streaming encryptions, or of two streaming decryptions, or of one of each; plaintexts of 3 arbitrary bytes in blocks of 2; the same or different recipients, one of them signed if the recipients are the same (thorough: or not)
func H_C44_streams() {
	sks, _ := mkKeys("k", 3)
	a := &party{pt: vx.Bytes("a", 3), sk: sks[0]}
	rx := vx.Choose("rx", 2)
	b := &party{pt: vx.Bytes("b", 3), sk: sks[rx]}
	signed := rx == 0
	if vx.Thorough() {
		signed = vx.Choose("signed", 2) == 1
	}
	if signed {
		a.snd = sks[2]
	}
	what := vx.Choose("what", 3)
	encA := encrypt(a.pt, 2, a.snd, a.sk.PublicKey())
	encB := encrypt(b.pt, 2, nil, b.sk.PublicKey())
	dec := func(p *party, enc []byte) func() bool { return func() bool { return p.decStep(enc) } }
	switch what {
	case 0:
		interleave(a.encStep, b.encStep, encSteps)
	case 1:
		interleave(dec(a, encA), dec(b, encB), encSteps)
	case 2:
		interleave(a.encStep, dec(b, encB), encSteps)
	}
	check := func(p *party, msg string) {
		if p.e == nil {
			vx.Assert(vx.Eq(p.got, p.pt), msg+" decryption gives something else")
			vx.Assert(p.d.AuthenticatedSender() == (p.snd != nil), msg+" decryption is wrong about the sender")
			return
		}
		g, d, err := decryptAll(p.w.b, cloneSK(p.sk), p.spk())
		must(err, msg+" encryption does not decrypt")
		vx.Assert(vx.Eq(g, p.pt), msg+" encryption decrypts to something else")
		vx.Assert(d.AuthenticatedSender() == (p.snd != nil), msg+" encryption is not signed as requested")
	}
	check(a, "the first")
	check(b, "the second")
	vx.Reach("ok")
}

// nested runs something else in the middle of a Read or Write.
type nested struct {
	rd io.Reader
	w  *wbuf
	at int
	f  func()
}

func (n *nested) hit() {
	n.at--
	if n.at == 0 {
		n.f()
	}
}
func (n *nested) Read(p []byte) (int, error)  { n.hit(); return n.rd.Read(p) }
func (n *nested) Write(p []byte) (int, error) { n.hit(); return n.w.Write(p) }
func (n *nested) Close() error                { return n.w.Close() }

// H_C44_nested: other work in the middle of a read or write changes nothing.
//
//vx:opt samples=6
//vx:bound a whole-file encryption or decryption of 3 arbitrary bytes in blocks of 2 in whose any one read or write another encryption, decryption, key reading, signing or verification happens
func H_C44_nested() {
	sks, pks := mkKeys("k", 3)
	a, b := vx.Bytes("a", 3), vx.Bytes("b", 3)
	var snd *sign.PrivateKey
	var spk *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		snd, spk = sks[2], pks[2]
	}
	rx := pks[vx.Choose("rx", 2)]
	encA, encB := encrypt(a, 2, snd, pks[0]), encrypt(b, 2, nil, rx)
	sk := sks[0]
	if rx == pks[1] {
		sk = sks[1]
	}
	sig := signMsg(sks[1], b)
	var other []byte
	n := &nested{at: 1 + vx.Choose("at", 12), w: &wbuf{}}
	what := vx.Choose("other", 4)
	n.f = func() {
		switch what {
		case 0:
			other = encrypt(b, 2, sks[1], rx)
		case 1:
			g, _, err := decryptAll(encB, sk, nil)
			must(err, "a decryption within another fails")
			vx.Assert(vx.Eq(g, b), "a decryption within another gives something else")
		case 2:
			s := signMsg(sks[1], b)
			vx.Assert(pks[1].VerifyMessage(b, s) && s.IsPKMatch(pks[1]), "a signature made meanwhile does not verify")
			vx.Assert(pks[1].VerifyMessage(b, sig), "a signature does not verify meanwhile")
		case 3:
			k, err := newSK(sks[1].Sk)
			must(err, "a key cannot be read meanwhile")
			vx.Assert(vx.Eq(k.PublicKey().Pk, pks[1].Pk), "another key is read meanwhile")
		}
	}
	if vx.Choose("dec", 2) == 0 {
		n.rd = bytes.NewReader(a)
		e, err := sign.NewEncryptor(snd, 2)
		must(err, "NewEncryptor failed")
		must(e.AddRecipient(pks[0]), "AddRecipient failed")
		must(e.Encrypt(n, n), "Encrypt failed")
		g, d, err := decryptAll(n.w.b, cloneSK(sks[0]), spk)
		must(err, "an encryption with other work in between does not decrypt")
		vx.Assert(vx.Eq(g, a), "an encryption with other work in between decrypts to something else")
		vx.Assert(d.AuthenticatedSender() == (snd != nil), "an encryption with other work in between is not signed as requested")
	} else {
		n.rd = bytes.NewReader(encA)
		d, err := sign.NewDecryptor(n)
		must(err, "NewDecryptor failed")
		must(d.SetPrivateKey(sks[0], spk), "SetPrivateKey failed")
		must(d.Decrypt(n), "Decrypt failed")
		vx.Assert(vx.Eq(n.w.b, a), "a decryption with other work in between gives something else")
		vx.Assert(d.AuthenticatedSender() == (snd != nil), "a decryption with other work in between is wrong about the sender")
	}
	if other != nil {
		g, _, err := decryptAll(other, cloneSK(sk), pks[1])
		must(err, "an encryption within another does not decrypt")
		vx.Assert(vx.Eq(g, b), "an encryption within another decrypts to something else")
	}
	vx.Reach("ok")
}

// H_C44_args: what callers pass in is neither changed nor kept.
//
//vx:opt samples=2
//vx:bound keys, messages, passphrases, plaintexts, documents and authorized_keys texts passed in memory, overwritten by the caller afterwards
func H_C44_args() {
	sks, pks := mkKeys("k", 2)
	var kept [][]byte
	var orig [][]byte
	pass := func(b []byte) []byte {
		b = append([]byte(nil), b...)
		kept = append(kept, b)
		orig = append(orig, append([]byte(nil), b...))
		return b
	}
	// done checks the arguments and overwrites them
	done := func() {
		for i, b := range kept {
			vx.Assert(vx.Eq(b, orig[i]), "an argument is changed")
			for j := range b {
				b[j] = 0x55
			}
		}
	}
	m := vx.Bytes("m", 3)
	switch vx.Choose("what", 8) {
	case 0:
		s := signMsg(sks[0], pass(m))
		done()
		vx.Assert(pks[0].VerifyMessage(m, s) && s.IsPKMatch(pks[0]), "the signature changes with the message")
	case 1:
		s := signMsg(sks[0], m)
		b, err := s.MarshalBinary("x")
		must(err, "MarshalBinary failed")
		t := &sign.Signature{}
		must(t.UnmarshalBinary(pass(b)), "UnmarshalBinary failed")
		c := pass(m)
		vx.Assert(pks[0].VerifyMessage(c, t), "signature does not verify")
		done()
		vx.Assert(pks[0].VerifyMessage(m, t) && t.IsPKMatch(pks[0]), "the signature changes with its text")
	case 2:
		pw := pass(m)
		b, err := sks[0].MarshalBinary("x", pw)
		must(err, "MarshalBinary failed")
		doc := pass(b)
		k, err := sign.MakePrivateKey(doc, func() ([]byte, error) { return pw, nil })
		must(err, "MakePrivateKey failed")
		done()
		sameKey(k, sks[0], "a key read")
	case 3:
		p := pass(pemOf("OPENSSH PRIVATE KEY", container(sks[0].Sk[32:], sks[0].Sk, "x")))
		k, err := sign.MakePrivateKey(p, nil)
		must(err, "MakePrivateKey failed")
		done()
		sameKey(k, sks[0], "a key read")
	case 4:
		b, err := pks[0].MarshalBinary("x")
		must(err, "MarshalBinary failed")
		p := pass(b)
		k, err := sign.MakePublicKey(p)
		must(err, "MakePublicKey failed")
		done()
		vx.Assert(vx.Eq(k.Pk, pks[0].Pk) && vx.Eq(k.Hash(), pks[0].Hash()), "the key read changes with its text")
	case 5:
		ln := "ssh-ed25519 " + b64(cat(sshStr([]byte("ssh-ed25519")), sshStr(pks[0].Pk))) + " me@here\n"
		ln2 := "ssh-ed25519 " + b64(cat(sshStr([]byte("ssh-ed25519")), sshStr(pks[1].Pk))) + " you@there\n"
		p := pass([]byte(ln + ln2))
		v, err := sign.ParseAuthorizedKeys(p)
		must(err, "ParseAuthorizedKeys failed")
		q := pass([]byte(ln))
		k, err := sign.MakePublicKey(q)
		must(err, "MakePublicKey failed")
		done()
		vx.Assert(len(v) == 2, "a key is missing")
		for i, x := range []*sign.PublicKey{v[0], v[1], k} {
			vx.Assert(vx.Eq(x.Pk, pks[i%2].Pk) && vx.Eq(x.Hash(), pks[i%2].Hash()), "the key read changes with its text")
			vx.Assert(x.Comment == []string{"me@here", "you@there"}[i%2], "the comment changes with its text")
		}
	case 6:
		e, err := sign.NewEncryptor(nil, 2)
		must(err, "NewEncryptor failed")
		must(e.AddRecipient(clonePK(pks[0])), "AddRecipient failed")
		w := &wbuf{}
		st, err := e.NewStreamWriter(w)
		must(err, "NewStreamWriter failed")
		p := vx.Bytes("p", vx.Choose("np", 7))
		_, err = st.Write(pass(p))
		must(err, "Write failed")
		done()
		_, err = st.Write(pass(m))
		must(err, "Write failed")
		kept, orig = kept[1:], orig[1:]
		done()
		must(st.Close(), "Close failed")
		g, _, err := decryptAll(w.b, sks[0], nil)
		must(err, "does not decrypt")
		vx.Assert(vx.Eq(g, cat(p, m)), "the encrypted data changes with the slice of the caller")
	case 7:
		// data read stays as it is while reading goes on
		p := vx.Bytes("p", 7)
		d, err := sign.NewDecryptor(bytes.NewReader(pass(encrypt(p, 2, nil, pks[0]))))
		must(err, "NewDecryptor failed")
		must(d.SetPrivateKey(sks[0], nil), "SetPrivateKey failed")
		rd, err := d.NewStreamReader()
		must(err, "NewStreamReader failed")
		sz := 1 + vx.Choose("sz", 4)
		var parts [][]byte
		for i := 0; i < 8; i++ {
			b := make([]byte, sz)
			n, err := rd.Read(b)
			parts = append(parts, b[:n])
			if err == io.EOF {
				break
			}
			must(err, "Read failed")
		}
		vx.Assert(vx.Eq(cat(parts...), p), "data read changes later")
		done()
	}
	vx.Reach("ok")
}

// H_C44_keys: keys read one after the other keep what they are.
//
//vx:opt samples=1
//vx:bound two arbitrary keys, each from one of 5 forms (two private under the same passphrase, three public), read one after the other
func H_C44_keys() {
	sks, pks := mkKeys("k", 2)
	ed := [][]byte{append([]byte(nil), sks[0].Sk...), append([]byte(nil), sks[1].Sk...)}
	pub := [][]byte{append([]byte(nil), pks[0].Pk...), append([]byte(nil), pks[1].Pk...)}
	vx.Assume(!vx.Eq(pub[0], pub[1]))
	h := [][]byte{make([]byte, 16), make([]byte, 16)}
	for i := range h {
		s := sha256.Sum256(pub[i])
		vx.Assert(vx.Eq(pks[i].Hash(), s[:16]), "the hash of a key is not its own")
		copy(h[i], s[:16])
	}
	vx.Assume(!vx.Eq(h[0], h[1]))
	var sk [2]*sign.PrivateKey
	var pk [2]*sign.PublicKey
	pw := vx.Bytes("pw", 2)
	salts := [][]byte{vx.Words("salt0", 32), vx.Words("salt1", 32)}
	for i := range pk {
		var err error
		switch vx.Choose("form", 5) {
		case 0:
			// (cheap parameters: native replays take long otherwise)
			doc := skDoc("", seal(ed[i], salts[i], pw, 1024, 1, 1), salts[i], "1024", "1", "1")
			sk[i], err = sign.MakePrivateKey(doc, pwOf(pw))
		case 1:
			sk[i], err = newSK(ed[i])
		case 2:
			pk[i], err = newPK(pub[i])
		case 3:
			pk[i], err = sign.MakePublicKeyFromString(b64(pub[i]))
		case 4:
			pk[i], err = sign.MakePublicKey([]byte("ssh-ed25519 " + b64(cat(sshStr([]byte("ssh-ed25519")), sshStr(pub[i]))) + "\n"))
		}
		must(err, "a key cannot be read after another one")
		if sk[i] != nil {
			pk[i] = sk[i].PublicKey()
		}
	}
	m := []byte("m")
	for i := range pk {
		vx.Assert(vx.Eq(pk[i].Pk, pub[i]), "reading a key changes another")
		vx.Assert(vx.Eq(pk[i].Hash(), h[i]), "reading a key changes the hash of another")
		s := signMsg(sks[i], m)
		if sk[i] != nil {
			vx.Assert(vx.Eq(sk[i].Sk, ed[i]), "reading a key changes another")
			s = signMsg(sk[i], m)
		}
		vx.Assert(s.IsPKMatch(pk[i]) && s.IsPKMatch(pks[i]), "a signature does not match its key")
		vx.Assert(!s.IsPKMatch(pk[1-i]) && !s.IsPKMatch(pks[1-i]), "a signature matches another key")
		vx.Assert(pk[i].VerifyMessage(m, s), "a signature does not verify")
	}
	vx.Reach("ok")
}
