package vxh

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/curve25519"
	"gopkg.in/yaml.v2"
)

// rsrc is a random source that remembers what it delivered.
type rsrc struct {
	s    []byte // everything delivered
	at   []int  // where each Read started
	most int    // most bytes per Read (0: no limit)
	zero int    // this Read delivers nothing
	fail int    // this Read fails
	part int    // ... after so many bytes
	err  error
	n    int
	bad  bool
	next []byte
	orig io.Reader // every 4 bytes of it are different
}

func newRsrc() *rsrc {
	r := &rsrc{orig: rand.Reader}
	rand.Reader = r
	return r
}

func (r *rsrc) done() { rand.Reader = r.orig }

func (r *rsrc) draw(n int) []byte {
	for len(r.next) < n {
		w := make([]byte, 4)
		if _, err := io.ReadFull(r.orig, w); err != nil {
			panic(err)
		}
		r.next = append(r.next, w...)
	}
	b := r.next[:n]
	r.next = r.next[n:]
	return b
}

func (r *rsrc) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	r.n++
	m := len(p)
	if r.most > 0 && m > r.most {
		m = r.most
	}
	if r.n == r.zero {
		return 0, nil
	}
	if r.fail > 0 && r.n >= r.fail {
		if m > r.part {
			m = r.part
		}
		if m < len(p) {
			r.bad = true
		}
		copy(p, r.draw(m))
		return m, r.err
	}
	b := r.draw(m)
	r.at = append(r.at, len(r.s))
	r.s = append(r.s, b...)
	copy(p, b)
	return m, nil
}

// takes is the set of used ranges of the random stream.
type takes struct {
	r    *rsrc
	used []bool
}

// take finds v in the random stream and marks it as used.
func (t *takes) take(n int, is func([]byte) bool, what string) {
	s := t.r.s
	for len(t.used) < len(s) {
		t.used = append(t.used, false)
	}
	for pass := 0; pass < 2; pass++ {
		for o := 0; o+n <= len(s); o++ {
			start := false
			for _, a := range t.r.at {
				if a == o && (t.r.most != 1 || o%4 == 0) {
					start = true
				}
			}
			if start != (pass == 0) {
				continue
			}
			if !is(s[o : o+n]) {
				continue
			}
			for i := o; i < o+n; i++ {
				vx.Assert(!t.used[i], what+" shares random bytes with something else")
				t.used[i] = true
			}
			return
		}
	}
	vx.Assert(false, what+" does not come from the random source")
}

func (t *takes) val(v []byte, what string) {
	t.take(len(v), func(b []byte) bool { return vx.Eq(b, v) }, what)
}

// file checks the random parts of an encrypted file; rx are its recipients.
func (t *takes) file(b []byte, signed bool, rx ...*sign.PrivateKey) {
	n := hdrLen(b)
	h, ok := refDecode(b[12 : n-32])
	vx.Assert(ok, "the header does not decode")
	vx.Assert(len(h.salt) == 32, "the salt is not 32 bytes long")
	t.val(h.salt, "the salt")
	t.take(32, func(b []byte) bool {
		c := append([]byte(nil), b...)
		c[0] &= 248
		c[31] &= 127
		c[31] |= 64
		p, err := curve25519.X25519(c, curve25519.Basepoint)
		return err == nil && vx.Eq(p, h.pk)
	}, "the ephemeral key")
	vx.Assert(len(h.keys) == len(rx), "wrong number of wrapped keys")
	for i := range rx {
		vx.Assert(len(h.keys[i].nonce) == 12, "the nonce is not 12 bytes long")
		t.val(h.keys[i].nonce, "the nonce of a wrapped key")
		k, ok := h.refUnwrap(i, rx[i].Sk)
		vx.Assert(ok, "the wrapped key does not open")
		if i == 0 {
			vx.Assert(len(k) == 32, "the root key is not 32 bytes long")
			t.val(k, "the root key")
		}
	}
	if !signed {
		t.val(b[len(b)-64:], "the trailer of an unsigned file")
	}
}

// H_C37_encrypt: all keys, nonces and salts of encrypted files come from the
// random source, no byte is used twice.
//
//vx:opt samples=2
//vx:bound two encryptions after another (unsigned and signed), in one piece or as a stream, 1..2 recipients (thorough: 1..3), the same recipient twice, plaintext of 0..2 bytes with blocks of 2; every value of the random source; a source that delivers at most 1, 16 or all of the bytes asked for, or nothing at its 1st..5th Read
func H_C37_encrypt() {
	sks, pks := mkKeys("k", 4)
	r := newRsrc()
	defer r.done()
	nrx := 1 + vx.Choose("nrx", 2)
	if vx.Thorough() {
		nrx = 1 + vx.Choose("nrx3", 3)
	}
	switch vx.Choose("reads", 4) {
	case 1:
		r.most = 16
	case 2:
		r.zero = 1 + vx.Choose("zero", 5)
	case 3:
		r.most = 1
	}
	var rx []*sign.PrivateKey
	for i := 0; i < nrx; i++ {
		rx = append(rx, sks[i])
	}
	if nrx == 2 && vx.Choose("twice", 2) == 1 {
		rx[1] = rx[0]
	}
	t := &takes{r: r}
	pt := vx.Bytes("pt", vx.Choose("n", 3))
	m := vx.Choose("signed", 4)
	stream := vx.Choose("stream", 2) == 1
	for k := 0; k < 2; k++ {
		var from *sign.PrivateKey
		if m>>uint(k)&1 == 1 {
			from = sks[3]
		}
		e, err := sign.NewEncryptor(from, 2)
		must(err, "NewEncryptor failed")
		for _, x := range rx {
			pk := pks[0]
			for i := range sks {
				if sks[i] == x {
					pk = pks[i]
				}
			}
			must(e.AddRecipient(pk), "AddRecipient failed")
		}
		w := &wbuf{}
		if stream {
			st, err := e.NewStreamWriter(w)
			must(err, "NewStreamWriter failed")
			_, err = st.Write(pt)
			must(err, "Write failed")
			must(st.Close(), "Close failed")
		} else {
			must(e.Encrypt(bytes.NewReader(pt), w), "Encrypt failed")
		}
		t.file(w.b, from != nil, rx...)
	}
	vx.Reach("checked")
}

// H_C37_keys: new keys and the salts of stored keys come from the random
// source, no byte is used twice.
//
//vx:opt samples=1
//vx:bound two new keys, each stored in memory or in a file with a passphrase of 0..1 bytes; every value of the random source; a source that delivers at most 1, 16 or all of the bytes asked for, or nothing at its 1st..4th Read
func H_C37_keys() {
	vx.Scratch()
	r := newRsrc()
	defer r.done()
	switch vx.Choose("reads", 4) {
	case 1:
		r.most = 16
	case 2:
		r.zero = 1 + vx.Choose("zero", 4)
	case 3:
		r.most = 1
	}
	t := &takes{r: r}
	pw := vx.Bytes("pw", vx.Choose("pw", 2))
	file := vx.Choose("file", 2) == 1
	for k := 0; k < 2; k++ {
		sk, err := sign.NewPrivateKey()
		must(err, "NewPrivateKey failed")
		vx.Assert(len(sk.Sk) == 64, "the private key is not 64 bytes long")
		t.val(sk.Sk[:32], "the private key")
		same, _ := keyFromSeed(sk.Sk[:32])
		sameKey(sk, same, "new key")
		var doc []byte
		if file {
			must(sk.Serialize("k", "", true, pw), "Serialize failed")
			doc = get("k")
		} else {
			doc, err = sk.MarshalBinary("", pw)
			must(err, "MarshalBinary failed")
		}
		salt, ok := saltOf(doc)
		vx.Assert(ok && len(salt) == 32, "the salt is not 32 bytes long")
		t.val(salt, "the salt of a private key")
	}
	vx.Reach("checked")
}

var errRand = errors.New("random source failed")

// H_C37_fail: a failing random source never leads to a key or a file.
//
//vx:opt samples=2
//vx:bound a source that fails at its 1st..7th Read, for good, after 0, 1 or all but one of the bytes asked for, with an error of its own or io.EOF; new key, stored key (in memory or in a file), encryption (unsigned, signed; in one piece or as a stream; 1..2 recipients)
func H_C37_fail() {
	vx.Scratch()
	sks, pks := mkKeys("k", 3)
	r := newRsrc()
	defer r.done()
	r.fail = 1 + vx.Choose("fail", 7)
	r.part = []int{0, 1, 11}[vx.Choose("part", 3)]
	r.err = errRand
	if vx.Choose("eof", 2) == 1 {
		r.err = io.EOF
	}
	what := vx.Choose("what", 5)
	ok := false
	var out []byte
	func() {
		defer func() { recover() }()
		switch what {
		case 0:
			sk, err := sign.NewPrivateKey()
			ok = err == nil || sk != nil
		case 1:
			doc, err := sks[0].MarshalBinary("", []byte("pw"))
			ok = err == nil || doc != nil
		case 2:
			err := sks[0].Serialize("k", "", false, []byte("pw"))
			ok = err == nil
		default:
			var from *sign.PrivateKey
			if vx.Choose("signed", 2) == 1 {
				from = sks[2]
			}
			e, err := sign.NewEncryptor(from, 2)
			if err != nil {
				return
			}
			two := vx.Choose("two", 2)
			for i := 0; i <= two; i++ {
				if e.AddRecipient(pks[i]) != nil {
					return
				}
			}
			w := &wbuf{}
			if what == 3 {
				ok = e.Encrypt(bytes.NewReader([]byte("abc")), w) == nil
			} else {
				var st io.WriteCloser
				st, err = e.NewStreamWriter(w)
				if err != nil {
					return
				}
				if _, err = st.Write([]byte("abc")); err == nil {
					ok = st.Close() == nil
				}
			}
			out = w.b
		}
	}()
	if !r.bad {
		vx.Assert(ok, "failed without a fault")
		return
	}
	vx.Assert(!ok, "the failure of the random source is not noticed")
	if what == 2 {
		vx.Assert(!vx.Exists("k"), "a key file was written without a salt")
	}
	_ = out
	vx.Reach("checked")
}

// saltOf is the decoded salt of a document.
func saltOf(doc []byte) ([]byte, bool) {
	m := struct{ Salt string }{}
	if yaml.Unmarshal(doc, &m) != nil {
		return nil, false
	}
	b, err := base64.StdEncoding.DecodeString(m.Salt)
	return b, err == nil
}
