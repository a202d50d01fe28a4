package vxh

import (
	"bytes"
	"os"
	"strings"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// large makes n bytes, of which the first, the middle and the last are
// arbitrary, also the ones around every power of two and at 15 even distances.
func large(name string, n int) []byte {
	p := make([]byte, 251)
	for i := range p {
		p[i] = byte(i + 3)
	}
	b := bytes.Repeat(p, n/251+1)[:n:n]
	at := map[int]bool{0: true, n / 2: true, n - 1: true}
	for k := 8; k <= n; k *= 2 {
		for i := k - 1; i <= k+1 && i < n; i++ {
			at[i] = true
		}
		at[n-k] = true
	}
	for k := 1; k < 16; k++ {
		at[n/16*k] = true
	}
	x := vx.Bytes(name, len(at))
	j := 0
	for i := range b {
		if at[i] {
			b[i] = x[j]
			j++
		}
	}
	return b
}

// H_C01_long: many blocks, and blocks larger than any buffer on the way.
//
//vx:bound plaintexts of 4097 and 70001 (thorough also 1048577) bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, in blocks of 100, 4096, 70000 bytes and the default size; input and encrypted file in one piece or in pieces of 777 bytes
func H_C01_long() {
	lens := []int{4097, 70001}
	if vx.Thorough() {
		lens = append(lens, 1048577)
	}
	n := lens[vx.Choose("n", len(lens))]
	blk := []int{100, 4096, 70000, 0}[vx.Choose("blk", 4)]
	pt := large("pt", n)
	sk, pk := mkKey("rx")
	e, err := sign.NewEncryptor(nil, uint64(blk))
	must(err, "NewEncryptor failed")
	must(e.AddRecipient(pk), "AddRecipient failed")
	pieces := vx.Choose("pieces", 2) == 1
	w := &wbuf{}
	if pieces {
		must(e.Encrypt(&badRd{b: pt, off: -1, step: 777}, w), "Encrypt failed")
	} else {
		must(e.Encrypt(bytes.NewReader(pt), w), "Encrypt failed")
	}
	got, _, err := decryptAll(w.b, sk, nil)
	must(err, "decryption fails on the encryptor's output")
	vx.Assert(vx.Eq(got, pt), "decrypted text differs from the plaintext")
	vx.Reach("ok")
}

// H_C02_long: long writes and reads.
//
//vx:bound plaintext of 5000 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, blocks of 16, 1000 and the default size; written at once, in pieces of 1..2 blocks and one byte, or of 333 bytes; read with buffers of 7 (large blocks), 999, 4096 or 6000 bytes, or decrypted whole
func H_C02_long() {
	n := 5000
	blk := []int{16, 1000, 0}[vx.Choose("blk", 3)]
	pt := large("pt", n)
	sk, pk := mkKey("rx")
	step := []int{n, 2*blk + 1, 333}[vx.Choose("step", 3)]
	vx.Assume(step > 1)
	var cuts []int
	for k := n; k > 0; k -= step {
		if k < step {
			cuts = append(cuts, k)
			break
		}
		cuts = append(cuts, step)
	}
	enc := streamEnc(pt, cuts, blk, nil, pk)
	var got []byte
	if rd := vx.Choose("rd", 5); rd < 4 {
		sz := []int{7, 999, 4096, 6000}[rd]
		vx.Assume(sz > 7 || blk != 16)
		got = readStream(enc, sk, nil, []int{sz}, n)
	} else {
		var err error
		got, _, err = decryptAll(enc, sk, nil)
		must(err, "decryption fails on the stream's output")
	}
	vx.Assert(vx.Eq(got, pt), "the text read differs from the text written")
	vx.Reach("ok")
}

// H_C17_long: every byte of a long message counts.
//
//vx:bound messages of 1000, 4097 and 70000 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, against another such message of the same length, the message cut by 1 or 900 bytes, or continued by 1..2 arbitrary bytes
func H_C17_long() {
	n := []int{1000, 4097, 70000}[vx.Choose("n", 3)]
	sk, pk := mkKey("k")
	a := large("a", n)
	s := signMsg(sk, a)
	vx.Assert(clonePK(pk).VerifyMessage(a, s), "a signature does not verify for its own message")
	b := a
	switch vx.Choose("other", 4) {
	case 0:
		b = large("b", n)
	case 1:
		b = a[:n-1]
	case 2:
		b = a[:n-900]
	case 3:
		b = cat(a, vx.Bytes("x", 1+vx.Choose("nx", 2)))
	}
	vx.Assert(clonePK(pk).VerifyMessage(b, s) == vx.Eq(a, b), "a signature verifies for another message")
	vx.Reach("ok")
}

// H_C18_long: every byte of a large file counts.
//
//vx:bound files of 4096, 70000 and 1048577 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, against another such file of the same length, the file cut by 1 or 4096 bytes, or continued by 1..2 arbitrary bytes
func H_C18_long() {
	vx.Scratch()
	n := []int{4096, 70000, 1048577}[vx.Choose("n", 3)]
	sk, pk := mkKey("k")
	a := large("a", n)
	put("f", a)
	s, err := sk.SignFile("f")
	must(err, "SignFile failed")
	b := a
	switch vx.Choose("other", 5) {
	case 0:
		b = large("b", n)
	case 1:
		b = a[:n-1]
	case 2:
		b = a[:n-4096]
	case 3:
		b = cat(a, vx.Bytes("x", 1+vx.Choose("nx", 2)))
	}
	put("g", b)
	ok, err := clonePK(pk).VerifyFile("g", s)
	must(err, "VerifyFile failed")
	vx.Assert(ok == vx.Eq(a, b), "a file signature does not decide equality of the content")
	vx.Reach("ok")
}

// H_C20_long: every byte of a long passphrase counts.
//
//vx:opt samples=1
//vx:bound passphrases of 17, 33, 73, 129, 257 and 5000 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, against another one, one cut by a byte, one continued by an arbitrary byte or a line end, or one with such in front
func H_C20_long() {
	n := []int{17, 33, 73, 129, 257, 5000}[vx.Choose("n", 6)]
	sk, _ := mkKey("k")
	pw := large("pw", n)
	doc, err := sk.MarshalBinary("c", pw)
	must(err, "MarshalBinary failed")
	back, err := sign.MakePrivateKey(doc, pwOf(pw))
	must(err, "the passphrase does not open the key")
	sameKey(back, cloneSK(sk), "reading back")
	pw2 := pw
	switch vx.Choose("other", 6) {
	case 0:
		pw2 = large("pw2", n)
	case 1:
		pw2 = pw[:n-1]
	case 2:
		pw2 = cat(pw, vx.Bytes("x", 1))
	case 3:
		pw2 = cat(pw, []byte("\n"))
	case 4:
		pw2 = cat([]byte(" "), pw)
	case 5:
		pw2 = pw[1:]
	}
	_, err = sign.MakePrivateKey(doc, pwOf(pw2))
	vx.Assert((err == nil) == vx.Eq(pw, pw2), "the key does not open with exactly its passphrase")
	vx.Reach("ok")
}

// H_C24_long: every byte of a long OpenSSH passphrase counts.
//
//vx:opt samples=3
//vx:bound passphrases of 17, 73 and 129 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, against another one, one cut by a byte, or one continued by an arbitrary byte; or the right one with comments of 255 and 5000 bytes
func H_C24_long() {
	n := []int{17, 73, 129}[vx.Choose("n", 3)]
	sk0, _ := mkKey("k")
	pw := large("pw", n)
	o := newOssh(sk0.Sk)
	nc := vx.Choose("nc", 3)
	if nc > 0 {
		o.comment = large("comment", []int{0, 255, 5000}[nc])
	}
	o.seal(16)
	o.encrypt(modes[vx.Choose("mode", 2)], pw, []byte("0123456789abcdef"), 1)
	sk, err := sign.MakePrivateKey(o.doc(), pwOf(pw))
	must(err, "the passphrase does not open the OpenSSH key")
	isKey(sk, sk0.Sk)
	if nc > 0 {
		vx.Reach("opened")
		return
	}
	pw2 := pw
	switch vx.Choose("other", 3) {
	case 0:
		pw2 = large("pw2", n)
	case 1:
		pw2 = pw[:n-1]
	case 2:
		pw2 = cat(pw, vx.Bytes("x", 1))
	}
	_, err = sign.MakePrivateKey(o.doc(), pwOf(pw2))
	vx.Assert((err == nil) == vx.Eq(pw, pw2), "the OpenSSH key does not open with exactly its passphrase")
	vx.Reach("ok")
}

// H_C25_long: long lines and many lines.
//
//vx:bound two entries with arbitrary keys around (or being) one long line: a comment, an option, a quoted option, a comment line, an unknown line of 5000 or 70000 characters; or around 40 (thorough 300) other entries or comment lines
func H_C25_long() {
	l1, e1, _ := akLine(0, vx.Words("raw", 32), "one")
	l2, e2, _ := akLine(4, vx.Words("raw2", 32), "two")
	raw := vx.Words("raw3", 32)
	k := "ssh-ed25519 " + b64(edBlob(raw))
	x := strings.Repeat("x", []int{5000, 70000}[vx.Choose("len", 2)])
	want := []akEntry{e1}
	mid := ""
	switch vx.Choose("what", 7) {
	case 0:
		mid = k + " " + x
		want = append(want, akEntry{raw, x})
	case 1:
		mid = x + " " + k + " c"
		want = append(want, akEntry{raw, "c"})
	case 2:
		mid = "command=\"" + x + " y\" " + k + " c"
		want = append(want, akEntry{raw, "c"})
	case 3:
		mid = "#" + x
	case 4:
		mid = x
	default:
		n := 40
		if vx.Thorough() {
			n = 300
		}
		if len(x) > 5000 {
			mid = strings.Repeat("# nothing\n\n", n)
			break
		}
		for i := 0; i < n; i++ {
			c := "c" + string(rune('0'+i%10))
			mid += k + " " + c + "\n"
			want = append(want, akEntry{raw, c})
		}
	}
	checkAK(l1+"\n"+mid+"\n"+l2+"\n", append(want, e2))
	vx.Reach("ok")
}

// H_C33_long: the entry is found in a long file.
//
//vx:opt samples=3
//vx:bound the looked-up entry as the 30th (thorough 200th) of as many entries, with the other entries' comments differing from it in one character, or behind a comment line of 5000 characters
func H_C33_long() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sks, pks := mkKeys("k", 2)
	n := 29
	if vx.Thorough() {
		n = 199
	}
	ak := ""
	if vx.Choose("what", 2) == 0 {
		for i := 0; i < n; i++ {
			ak += "ssh-ed25519 " + b64(edBlob(pks[1].Pk)) + " me@hos" + string(rune('a'+i%19)) + "\n"
		}
	} else {
		ak = "#" + strings.Repeat("x", 5000) + "\n"
	}
	ak += "ssh-ed25519 " + b64(edBlob(pks[0].Pk)) + " me@host\n"
	os.Mkdir(".ssh", 0700)
	put(".ssh/authorized_keys", []byte(ak))
	pt := vx.Bytes("pt", 3)
	put("in", pt)
	c, _, _ := vx.RunTool(nil, "encrypt", "-B", "4", "-o", "out", "me@host", "in")
	vx.Assert(c == 0, "the entry is not found")
	enc := get("out")
	goodEnc(enc, pt, nil, sks[:1], "the file")
	_, _, err := decryptAll(enc, sks[1], nil)
	vx.Assert(err != nil, "another entry can decrypt")
	vx.Reach("ok")
}

// H_C29_long: long inputs, and many recipients of them.
//
//vx:opt samples=3
//vx:bound input of 20000 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, from a file or stdin, to a file or stdout, default block size, 4k, 1000; 1 or 20 recipients
func H_C29_long() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	n := []int{1, 20}[vx.Choose("nrx", 2)]
	sks, pks := mkKeys("k", n)
	args := [][]string{{"encrypt"}, {"encrypt", "-B", "4k"}, {"encrypt", "--block-size", "1000"}}[vx.Choose("blk", 3)]
	out := ""
	if vx.Choose("out", 2) == 1 {
		out = "out"
		args = append(args, "-o", out)
	}
	for i, pk := range pks {
		args = append(args, pubArg(0, pk, "to"+string(rune('a'+i))))
	}
	pt := large("pt", 20000)
	var in []byte
	if vx.Choose("stdin", 2) == 1 {
		in = pt
		args = append(args, "-")
	} else {
		put("in", pt)
		args = append(args, "in")
	}
	c, so, _ := vx.RunTool(in, args...)
	vx.Assert(c == 0, "encrypt fails without reason")
	if out != "" {
		so = get(out)
	}
	goodEnc(so, pt, nil, []*sign.PrivateKey{sks[0], sks[n-1]}, "the file")
	vx.Reach("encrypted")
}

// H_C30_long: long files.
//
//vx:opt samples=3
//vx:bound plaintext of 20000 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, in blocks of 1000, 4096 and the default size; intact, cut by 1 or 5000 bytes, or with one byte at the start, middle or end of the payload changed; from a file or stdin, to a file or stdout
func H_C30_long() {
	vx.Scratch()
	sk, pk := mkKey("k")
	keyFile(0, sk, "key", "")
	blk := []int{1000, 4096, 0}[vx.Choose("blk", 3)]
	pt := large("pt", 20000)
	enc := encrypt(pt, blk, nil, pk)
	bad := true
	switch vx.Choose("how", 4) {
	case 0:
		bad = false
	case 1:
		enc = enc[:len(enc)-1]
	case 2:
		enc = enc[:len(enc)-5000]
	case 3:
		h := hdrLen(enc)
		i := []int{h + 4, (h + len(enc)) / 2, len(enc) - 65}[vx.Choose("at", 3)]
		enc = cat(enc)
		x := vx.Byte("x")
		vx.Assume(x != enc[i])
		enc[i] = x
	}
	args := []string{"decrypt", "--no-password"}
	out := ""
	if bad || vx.Choose("out", 2) == 1 {
		out = "out"
		args = append(args, "-o", out)
	}
	args = append(args, "key")
	var in []byte
	if vx.Choose("stdin", 2) == 1 {
		in = enc
	} else {
		put("in", enc)
		args = append(args, "in")
	}
	before := vx.Listing()
	c, so, _ := vx.RunTool(in, args...)
	if bad {
		vx.Assert(c != 0, "a damaged file is decrypted")
		vx.Assert(vx.Listing() == before, "a failed decrypt leaves files behind")
		vx.Reach("refused")
		return
	}
	vx.Assert(c == 0, "decrypt fails without reason")
	if out != "" {
		so = get(out)
	}
	vx.Assert(vx.Eq(so, pt), "wrong text")
	vx.Reach("decrypted")
}

// H_C01_far: more blocks than 16 bits can count.
//
//vx:opt steps=4000000000 samples=1
//vx:bound 65600 blocks of 2 bytes of which the first, middle and last byte of the text are arbitrary, signed or not
func H_C01_far() {
	pt := large("pt", 2*65600)
	sks, pks := mkKeys("k", 2)
	var snd *sign.PrivateKey
	var spk *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		snd, spk = sks[1], pks[1]
	}
	got, _, err := decryptAll(encrypt(pt, 2, snd, pks[0]), sks[0], spk)
	must(err, "decryption fails on the encryptor's output")
	vx.Assert(vx.Eq(got, pt), "decrypted text differs from the plaintext")
	vx.Reach("ok")
}

// H_C02_far: more blocks than 16 bits can count, in streams.
//
//vx:opt steps=4000000000 samples=1
//vx:bound 65600 blocks of 2 bytes of which the first, middle and last byte of the text are arbitrary, written as a stream and decrypted whole or the other way round
func H_C02_far() {
	n := 2 * 65600
	pt := large("pt", n)
	sk, pk := mkKey("rx")
	var got []byte
	var err error
	if vx.Choose("dir", 2) == 0 {
		got, _, err = decryptAll(streamEnc(pt, []int{n}, 2, nil, pk), sk, nil)
		must(err, "decryption fails on the stream's output")
	} else {
		got = readStream(encrypt(pt, 2, nil, pk), sk, nil, []int{5000}, n)
	}
	vx.Assert(vx.Eq(got, pt), "the text read differs from the text written")
	vx.Reach("ok")
}

// H_C01_huge: more than a block of the default size, and a block larger than that.
//
//vx:opt steps=4000000000 samples=1
//vx:bound a plaintext of 2^22+1 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary, in blocks of the default size (2^22) and of 2^23 bytes
func H_C01_huge() {
	size := []int{0, 1 << 23}[vx.Choose("size", 2)]
	pt := large("pt", 1<<22+1)
	sk, pk := mkKey("rx")
	got, _, err := decryptAll(encrypt(pt, size, nil, pk), sk, nil)
	must(err, "decryption fails on the encryptor's output")
	vx.Assert(vx.Eq(got, pt), "decrypted text differs from the plaintext")
	vx.Reach("ok")
}

// H_C34_long: long passphrases and comments.
//
//vx:opt samples=2
//vx:bound passphrases of 33, 100, 300 and 5000 printable bytes, no comment or one of 100 or 5000 bytes; opened with the passphrase, none, one cut by a byte, or its first 72 bytes
func H_C34_long() {
	vx.Scratch()
	n := []int{33, 100, 300, 5000}[vx.Choose("n", 4)]
	pw := bytes.Repeat([]byte("pass phrase "), n/12+1)[:n]
	for _, i := range []int{0, n / 2, n - 1} {
		pw[i] = vx.Byte("x")
		vx.Assume(vx.And(pw[i] > ' ', pw[i] < 0x7f))
	}
	os.Setenv("PW", string(pw))
	args := []string{"generate", "-E", "PW"}
	if m := []int{0, 100, 5000}[vx.Choose("comment", 3)]; m > 0 {
		args = append(args, "-c", strings.Repeat("my key: #1 ", m/11+1)[:m])
	}
	c, _, _ := vx.RunTool(nil, append(args, "k")...)
	vx.Assert(c == 0, "generate fails")
	pairOK("k", string(pw), "the generated pair")
	for _, w := range [][]byte{nil, pw[:n-1], pw[:min(n-1, 72)], cat(pw, []byte("x"))} {
		_, err := sign.ReadPrivateKey("k.key", pwOf(w))
		vx.Assert(err != nil, "the private key opens with another passphrase")
	}
	vx.Reach("ok")
}
