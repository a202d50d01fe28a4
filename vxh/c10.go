package vxh

import (
	"bytes"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// tryRead uses one of the decryption calls; it returns what came out.
func tryRead(d *sign.Decryptor, stream bool) ([]byte, error) {
	if !stream {
		w := &wbuf{}
		err := d.Decrypt(w)
		return w.b, err
	}
	rd, err := d.NewStreamReader()
	if err != nil {
		return nil, err
	}
	var got []byte
	for i := 0; i < 30; i++ {
		b := make([]byte, 3)
		n, err := rd.Read(b)
		got = append(got, b[:n]...)
		if err == io.EOF {
			return got, nil
		}
		if err != nil {
			return got, err
		}
	}
	return got, nil
}

// H_C10_keys: calls before a key, after refused keys, and after the right one.
//
//vx:bound signed or unsigned file, block size 2, 0..5 bytes; every sequence of 0..2 (thorough 3) steps from: decrypt by either API without an accepted key, set a wrong key, set the right key with a wrong, missing or the right sender; then the right keys and decryption by either API; then either API again twice
func H_C10_keys() {
	n := vx.Choose("n", 6)
	pt := vx.Bytes("pt", n)
	sks, pks := mkKeys("k", 4)
	signed := vx.Choose("signed", 2) == 1
	var ssk *sign.PrivateKey
	var good *sign.PublicKey
	if signed {
		ssk, good = sks[1], pks[1]
	}
	enc := encrypt(pt, 2, ssk, pks[0])
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	must(err, "NewDecryptor failed")
	max := 3
	if vx.Thorough() {
		max = 4
	}
	k := vx.Choose("steps", max)
	for i := 0; i < k; i++ {
		switch vx.Choose("op", 5) {
		case 0:
			got, err := tryRead(d, false)
			vx.Assert(err != nil && len(got) == 0, "Decrypt works without an accepted key")
		case 1:
			got, err := tryRead(d, true)
			vx.Assert(err != nil && len(got) == 0, "the stream reader works without an accepted key")
		case 2:
			vx.Assert(d.SetPrivateKey(sks[2], good) != nil, "a wrong key is accepted")
		case 3:
			if !signed {
				continue
			}
			vx.Assert(d.SetPrivateKey(sks[0], nil) != nil, "a signed file is accepted without sender key")
		case 4:
			if !signed {
				continue
			}
			vx.Assert(d.SetPrivateKey(sks[0], pks[3]) != nil, "a wrong sender is accepted")
		}
		vx.Assert(!d.AuthenticatedSender(), "a sender is reported before a key is accepted")
	}
	must(d.SetPrivateKey(sks[0], good), "the right keys are refused after others")
	got, err := tryRead(d, vx.Choose("stream", 2) == 1)
	must(err, "decryption with the right key fails")
	vx.Assert(vx.Eq(got, pt), "wrong text")
	for i := 0; i < 2; i++ {
		got, _ := tryRead(d, vx.Choose("again", 2) == 1)
		vx.Assert(len(got) == 0, "data is delivered twice")
	}
	vx.Reach("done")
}

// H_C10_mixed: the two APIs on one decryptor.
//
//vx:bound block size 2, 0..5 bytes; a stream reader that has read 0..3 pieces, then Decrypt, then the reader to its end; with and without sender
func H_C10_mixed() {
	n := vx.Choose("n", 6)
	pt := vx.Bytes("pt", n)
	sks, pks := mkKeys("k", 2)
	signed := vx.Choose("signed", 2) == 1
	var ssk *sign.PrivateKey
	var good *sign.PublicKey
	if signed {
		ssk, good = sks[1], pks[1]
	}
	enc := encrypt(pt, 2, ssk, pks[0])
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	must(err, "NewDecryptor failed")
	must(d.SetPrivateKey(sks[0], good), "SetPrivateKey failed")
	rd, err := d.NewStreamReader()
	must(err, "NewStreamReader failed")
	var got []byte
	step := func() bool {
		b := make([]byte, 2)
		m, err := rd.Read(b)
		got = append(got, b[:m]...)
		if err == io.EOF {
			return true
		}
		must(err, "Read failed")
		return false
	}
	end := false
	k := vx.Choose("k", 4)
	for i := 0; i < k && !end; i++ {
		end = step()
	}
	w := &wbuf{}
	vx.Assert(d.Decrypt(w) != nil || end, "Decrypt of a stream in use claims success")
	vx.Assert(len(w.b) == 0, "Decrypt delivers data of a stream in use")
	for i := 0; i < 10 && !end; i++ {
		end = step()
	}
	vx.Assert(end, "the stream does not end")
	vx.Assert(len(w.b) == 0, "Decrypt delivers data of a stream in use")
	vx.Assert(vx.Eq(got, pt), "wrong text")
	m, err := rd.Read(make([]byte, 4))
	vx.Assert(m == 0 && err == io.EOF, "the reader continues after the end")
	vx.Reach("done")
}

// H_C10_after: an input that goes on after the end of the encrypted file.
//
//vx:bound block size 2, 0..5 bytes, with and without sender; the file is followed by its own blocks once more, by the whole file once more, or by 0..8 arbitrary bytes; decryption by either API, then either API two more times, or the reader already in use again
func H_C10_after() {
	n := vx.Choose("n", 6)
	pt := vx.Bytes("pt", n)
	sks, pks := mkKeys("k", 2)
	var ssk *sign.PrivateKey
	var good *sign.PublicKey
	if vx.Choose("signed", 2) == 1 {
		ssk, good = sks[1], pks[1]
	}
	enc := encrypt(pt, 2, ssk, pks[0])
	hdr := hdrLen(enc)
	var in []byte
	switch vx.Choose("tail", 3) {
	case 0:
		in = cat(enc, enc[hdr:])
	case 1:
		in = cat(enc, enc)
	case 2:
		in = cat(enc, vx.Bytes("junk", vx.Choose("nj", 9)))
	}
	d, err := sign.NewDecryptor(bytes.NewReader(in))
	must(err, "NewDecryptor failed")
	must(d.SetPrivateKey(sks[0], good), "SetPrivateKey failed")
	var rd io.Reader
	if vx.Choose("stream", 2) == 0 {
		w := &wbuf{}
		must(d.Decrypt(w), "Decrypt failed")
		vx.Assert(vx.Eq(w.b, pt), "wrong text")
	} else {
		rd, err = d.NewStreamReader()
		must(err, "NewStreamReader failed")
		var got []byte
		end := false
		for i := 0; i < 10 && !end; i++ {
			b := make([]byte, 3)
			m, err := rd.Read(b)
			got = append(got, b[:m]...)
			end = err == io.EOF
			vx.Assert(end || err == nil, "Read failed")
		}
		vx.Assert(end, "the stream does not end")
		vx.Assert(vx.Eq(got, pt), "wrong text")
	}
	for i := 0; i < 2; i++ {
		how := vx.Choose("again", 3)
		if how == 2 && rd != nil {
			m, err := rd.Read(make([]byte, 4))
			vx.Assert(m == 0 && err != nil, "the reader goes on after the end")
			continue
		}
		got, _ := tryRead(d, how == 1)
		vx.Assert(len(got) == 0, "more data after the end")
	}
	vx.Reach("done")
}
