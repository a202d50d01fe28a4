// Package vxh holds the property harnesses. The same code runs under the
// symbolic engine and natively (replay).
package vxh

import (
	"bytes"
	"crypto/ed25519"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// mkKey makes a key pair from a symbolic seed.
func mkKey(name string) (*sign.PrivateKey, *sign.PublicKey) {
	seed := vx.Key(name, 32)
	return keyFromSeed(seed)
}

func keyFromSeed(seed []byte) (*sign.PrivateKey, *sign.PublicKey) {
	edsk := ed25519.NewKeyFromSeed(seed)
	sk, err := newSK(edsk)
	if err != nil {
		panic(err)
	}
	return sk, sk.PublicKey()
}

// mkKeys makes n different key pairs.
func mkKeys(name string, n int) ([]*sign.PrivateKey, []*sign.PublicKey) {
	var sks []*sign.PrivateKey
	var pks []*sign.PublicKey
	for i := 0; i < n; i++ {
		sk, pk := mkKey(name + string(rune('0'+i)))
		for j := range pks {
			vx.Assume(!vx.Eq(pks[j].Pk, pk.Pk))
		}
		sks = append(sks, sk)
		pks = append(pks, pk)
	}
	return sks, pks
}

// clonePK makes a fresh public key object with the same bytes (no caches).
func clonePK(pk *sign.PublicKey) *sign.PublicKey {
	q, err := newPK(pk.Pk)
	if err != nil {
		panic(err)
	}
	return q
}

// cloneSK makes a fresh private key object with the same bytes (no caches).
func cloneSK(sk *sign.PrivateKey) *sign.PrivateKey {
	q, err := newSK(sk.Sk)
	if err != nil {
		panic(err)
	}
	return q
}

// wbuf is an in-memory output.
type wbuf struct {
	b      []byte
	closed int
}

func (w *wbuf) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}
func (w *wbuf) Close() error { w.closed++; return nil }

func must(err error, msg string) {
	vx.Assert(err == nil, msg)
}

// frag is a reader that delivers its data in pieces: every piece has at most
// step bytes (0: no limit); the at-th read delivers short bytes less than it
// could (at least one), the zero-th read delivers nothing; with eofd the last
// bytes come together with io.EOF. After fail reads it returns err.
type frag struct {
	b     []byte
	step  int
	at    int
	short int
	zero  int
	eofd  bool
	n     int
}

func (f *frag) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	f.n++
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	if f.n == f.zero {
		return 0, nil
	}
	m := len(p)
	if m > len(f.b) {
		m = len(f.b)
	}
	if f.step > 0 && m > f.step {
		m = f.step
	}
	if f.n == f.at {
		m -= f.short
		if m < 1 {
			m = 1
		}
	}
	copy(p, f.b[:m])
	f.b = f.b[m:]
	if len(f.b) == 0 && f.eofd {
		return m, io.EOF
	}
	return m, nil
}

// newFrag picks a fragmentation.
func newFrag(name string, b []byte, reads int) *frag {
	f := &frag{b: b}
	f.eofd = vx.Choose(name+".eofd", 2) == 1
	switch vx.Choose(name+".kind", 4) {
	case 1:
		f.step = 1 + vx.Choose(name+".step", 3)
	case 2:
		f.at = 1 + vx.Choose(name+".at", reads)
		f.short = 1 + vx.Choose(name+".short", 2)
	case 3:
		f.zero = 1 + vx.Choose(name+".zero", reads)
	}
	return f
}

func isPrefix(a, b []byte) bool {
	if len(a) > len(b) {
		return false
	}
	return vx.Eq(a, b[:len(a)])
}

// encrypt is the plain library use.
func encrypt(pt []byte, blk int, sender *sign.PrivateKey, rx ...*sign.PublicKey) []byte {
	e, err := sign.NewEncryptor(sender, uint64(blk))
	must(err, "NewEncryptor failed")
	for _, pk := range rx {
		must(e.AddRecipient(pk), "AddRecipient failed")
	}
	w := &wbuf{}
	must(e.Encrypt(bytes.NewReader(pt), w), "Encrypt failed")
	return w.b
}

// decryptAll opens enc and returns the plaintext written, and the first error.
func decryptAll(enc []byte, sk *sign.PrivateKey, sender *sign.PublicKey) ([]byte, *sign.Decryptor, error) {
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	if err != nil {
		return nil, nil, err
	}
	if err = d.SetPrivateKey(sk, sender); err != nil {
		return nil, d, err
	}
	w := &wbuf{}
	err = d.Decrypt(w)
	return w.b, d, err
}

func cat(a ...[]byte) []byte {
	var r []byte
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}
