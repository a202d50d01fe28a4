package vxh

import (
	"bytes"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C09_once: a started encryptor refuses recipients and a second start, and a
// closed or failed stream refuses data; nothing is written.
//
//vx:bound block size 2, first use: Encrypt of 0..5 bytes that succeeds, fails writing at write 2..5, or fails reading; or a stream of 0..5 bytes, open, closed, or failed at write 2..5; then AddRecipient, Encrypt, NewStreamWriter, stream Write and stream Close in every order of 3
func H_C09_once() {
	_, pk := mkKey("rx")
	_, pk2 := mkKey("rx2")
	e, err := sign.NewEncryptor(nil, 2)
	must(err, "NewEncryptor failed")
	must(e.AddRecipient(pk), "AddRecipient failed")
	n := vx.Choose("n", 6)
	pt := vx.Bytes("pt", n)
	w := &sink{}
	var st io.WriteCloser
	dead := false
	switch vx.Choose("first", 6) {
	case 0:
		must(e.Encrypt(bytes.NewReader(pt), w), "Encrypt failed")
	case 1:
		w.at = 2 + vx.Choose("at", 4)
		if e.Encrypt(bytes.NewReader(pt), w) == nil {
			return
		}
	case 2:
		vx.Assert(e.Encrypt(&failRd{pt, errTest}, w) != nil, "a read error is not reported")
	case 3, 4:
		st, err = e.NewStreamWriter(w)
		must(err, "NewStreamWriter failed")
		_, err = st.Write(pt)
		must(err, "Write failed")
		if vx.Choose("close", 2) == 1 {
			must(st.Close(), "Close failed")
			dead = true
		}
	case 5:
		w.at = 2 + vx.Choose("at", 4)
		st, err = e.NewStreamWriter(w)
		must(err, "NewStreamWriter failed")
		_, err = st.Write(pt)
		if err == nil {
			err = st.Close()
		}
		if err == nil {
			return
		}
		dead = true
	}
	old := len(w.b)
	w.at = 0 // the output works again
	closed := w.closed
	for i := 0; i < 3; i++ {
		w2 := &sink{}
		switch vx.Choose("op", 5) {
		case 0:
			vx.Assert(e.AddRecipient(pk2) != nil, "a recipient is added after the start")
		case 1:
			vx.Assert(e.Encrypt(bytes.NewReader(pt), w2) != nil, "Encrypt starts a second time")
		case 2:
			s2, err := e.NewStreamWriter(w2)
			vx.Assert(err != nil, "NewStreamWriter starts a second time")
			_ = s2
		case 3:
			if !dead {
				continue
			}
			nn, err := st.Write([]byte("abc"))
			vx.Assert(err != nil, "a dead stream accepts data")
			vx.Assert(nn == 0, "a dead stream reports accepted data")
		case 4:
			if !dead {
				continue
			}
			err := st.Close()
			vx.Assert(closed == 1 || err != nil, "Close of a failed stream reports success")
		}
		vx.Assert(len(w2.b) == 0 && w2.closed == 0, "a refused call produces output")
		vx.Assert(len(w.b) == old && w.closed <= 1, "a refused call changes the output")
	}
	vx.Reach("done")
}

// H_C09_none: the rules hold without recipients, too.
//
//vx:bound block size 2, no recipient, Encrypt or a stream of 0..3 bytes; if that produces output, then AddRecipient, Encrypt and NewStreamWriter in every order of 2
func H_C09_none() {
	_, pk := mkKey("rx")
	e, err := sign.NewEncryptor(nil, 2)
	must(err, "NewEncryptor failed")
	pt := vx.Bytes("pt", vx.Choose("n", 4))
	w := &sink{}
	if vx.Choose("stream", 2) == 0 {
		e.Encrypt(bytes.NewReader(pt), w)
	} else if st, err := e.NewStreamWriter(w); err == nil {
		st.Write(pt)
		st.Close()
	}
	if len(w.b) == 0 {
		return
	}
	for i := 0; i < 2; i++ {
		w2 := &sink{}
		switch vx.Choose("op", 3) {
		case 0:
			vx.Assert(e.AddRecipient(pk) != nil, "a recipient is added after the start")
		case 1:
			vx.Assert(e.Encrypt(bytes.NewReader(pt), w2) != nil, "Encrypt starts a second time")
		case 2:
			_, err := e.NewStreamWriter(w2)
			vx.Assert(err != nil, "NewStreamWriter starts a second time")
		}
		vx.Assert(len(w2.b) == 0 && w2.closed == 0, "a refused call produces output")
	}
	vx.Reach("done")
}

// H_C09_header: recipients added late are not in the file.
//
//vx:bound block size 2, 1..3 recipients added before, one refused after NewStreamWriter; the file opens for exactly the first ones
func H_C09_header() {
	k := 1 + vx.Choose("k", 3)
	sks, pks := mkKeys("rx", k+1)
	pt := vx.Bytes("pt", 3)
	e, err := sign.NewEncryptor(nil, 2)
	must(err, "NewEncryptor failed")
	for i := 0; i < k; i++ {
		must(e.AddRecipient(pks[i]), "AddRecipient failed")
	}
	w := &sink{}
	st, err := e.NewStreamWriter(w)
	must(err, "NewStreamWriter failed")
	at := vx.Choose("at", 2)
	if at == 0 {
		vx.Assert(e.AddRecipient(pks[k]) != nil, "a recipient is added after the start")
	}
	_, err = st.Write(pt)
	must(err, "Write failed")
	if at == 1 {
		vx.Assert(e.AddRecipient(pks[k]) != nil, "a recipient is added after the start")
	}
	must(st.Close(), "Close failed")
	who := vx.Choose("who", k+1)
	got, _, err := decryptAll(w.b, sks[who], nil)
	if who == k {
		vx.Assert(err != nil && len(got) == 0, "a refused recipient can decrypt")
	} else {
		must(err, "Decrypt failed")
		vx.Assert(vx.Eq(got, pt), "wrong text")
	}
	vx.Reach("done")
}
