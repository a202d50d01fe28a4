package vxh

import (
	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

type c07 struct {
	enc      []byte
	hl       int
	pt       []byte
	key      []byte // what the co-recipient learns
	h        *refHdr
	spk      *sign.PublicKey
	ssk      *sign.PrivateKey
	sks      []*sign.PrivateKey
	pks      []*sign.PublicKey
	body     []byte
	trailer  []byte
	streamRd bool
}

// c07File: sks[1] is the reader, sks[0] the dishonest co-recipient.
func c07File(n, blk int) *c07 {
	c := &c07{pt: vx.Bytes("pt", n)}
	c.sks, c.pks = mkKeys("k", 3)
	c.ssk, c.spk = c.sks[2], c.pks[2]
	c.sks, c.pks = c.sks[:2], c.pks[:2]
	c.enc = encrypt(c.pt, blk, c.ssk, c.pks...)
	c.hl = hdrLen(c.enc)
	h, ok := refDecode(c.enc[12 : c.hl-32])
	vx.Assert(ok, "header does not parse")
	c.h = h
	c.key, ok = h.refUnwrap(0, c.sks[0].Sk)
	vx.Assert(ok, "co-recipient cannot unwrap its key")
	c.body = c.enc[c.hl : len(c.enc)-64]
	c.trailer = c.enc[len(c.enc)-64:]
	c.streamRd = vx.Choose("stream", 2) == 1
	return c
}

// judge reads the changed file with the honest recipient's key.
func (c *c07) judge(hdr, body, trailer []byte, blk int) {
	out := cat(hdr, body, trailer)
	if len(out) == len(c.enc) {
		vx.Assume(!vx.Eq(out[:len(out)-64], c.enc[:len(out)-64]))
	}
	got, err := openEither(out, c.sks[1], c.spk, c.streamRd, blk)
	vx.Assert(err != nil, "a file altered by a co-recipient decrypts without error")
	_ = got
	vx.Reach("refused")
}

func (c *c07) someTrailer(b *refBody) []byte {
	switch vx.Choose("trailer", 4) {
	case 0:
		return c.trailer
	case 1:
		return refSign(c.sks[0].Sk, b.mac())
	case 2:
		return vx.Words("tr", 64)
	}
	// the header's signature, which the co-recipient can read, reused as trailer
	sig, ok := c.h.openSender(c.key)
	vx.Assert(ok, "cannot open sender field")
	return sig
}

// H_C07_blocks: the co-recipient writes any blocks under the file's own keys.
//
//vx:bound 2 recipients, block size 2, original plaintext 0..5 bytes; forged payload of 1..3 (thorough 4) blocks with any lengths 0..2 and arbitrary content; trailer original, signed by the co-recipient, arbitrary, or the header's sender signature; both read APIs
func H_C07_blocks() {
	n := vx.Choose("len", 6)
	c := c07File(n, 2)
	b := newRefBody(c.key, c.enc[c.hl-32:c.hl])
	max := 3
	if vx.Thorough() {
		max = 4
	}
	k := 1 + vx.Choose("blocks", max)
	var body []byte
	for i := 0; i < k; i++ {
		l := 2
		if i == k-1 {
			l = vx.Choose("blen", 3)
		}
		body = append(body, b.seal(vx.Bytes("forged", l), i == k-1)...)
	}
	c.judge(c.enc[:c.hl], body, c.someTrailer(b), 2)
}

// H_C07_inner: blocks in the middle that are shorter than the block size, or empty last blocks after a full file.
//
//vx:bound 2 recipients, block size 2, original plaintext 3..4 bytes kept, but cut into blocks of other sizes (1..4 blocks, each 1..2 bytes, optionally an empty last block); original or co-recipient's trailer
func H_C07_inner() {
	n := 3 + vx.Choose("len", 2)
	c := c07File(n, 2)
	b := newRefBody(c.key, c.enc[c.hl-32:c.hl])
	empty := vx.Choose("empty", 2) == 1
	var body []byte
	for p := 0; p < n; {
		l := 1
		if p+2 <= n {
			l = 1 + vx.Choose("l", 2)
		}
		body = append(body, b.seal(c.pt[p:p+l], p+l == n && !empty)...)
		p += l
	}
	if empty {
		body = append(body, b.seal(nil, true)...)
	}
	c.judge(c.enc[:c.hl], body, c.someTrailer(b), 2)
}

// H_C07_header: the co-recipient changes the header around the signed key material and re-encrypts.
//
//vx:bound 2 recipients, block size 2, plaintext 0..3 bytes; block size changed to 1..4, the other recipients removed, reordered or re-wrapped; payload re-encrypted under the resulting keys with the original or any other text of the same length; trailer as in blocks
func H_C07_header() {
	n := vx.Choose("len", 4)
	c := c07File(n, 2)
	h := &refHdr{chunk: c.h.chunk, salt: c.h.salt, pk: c.h.pk, sender: c.h.sender, keys: c.h.keys}
	switch vx.Choose("hdr", 4) {
	case 0:
		h.chunk = []int{1, 3, 4}[vx.Choose("chunk", 3)]
	case 1:
		h.keys = c.h.keys[1:]
	case 2:
		h.keys = []refKey{c.h.keys[1], c.h.keys[0]}
	case 3:
		// wrapped again for itself only: with the shared secret it knows
		dh, err := x25519(refScalar(c.sks[0].Sk), h.pk)
		must(err, "dh")
		non := vx.Key("non", 12)
		kek, gn := refKEK(dh, h.salt, non)
		h.keys = []refKey{c.h.keys[1], {refAEAD(kek).Seal(nil, gn, c.key, c.pks[0].Pk), non}}
	}
	out := frame(h.encode())
	b := newRefBody(c.key, out[len(out)-32:])
	text := c.pt
	if vx.Choose("other", 2) == 1 {
		text = vx.Bytes("forged", n)
	}
	var body []byte
	for first := true; first || len(text) > 0; first = false {
		l := h.chunk
		if l > len(text) {
			l = len(text)
		}
		body = append(body, b.seal(text[:l], l == len(text))...)
		text = text[l:]
	}
	c.judge(out, body, c.someTrailer(b), h.chunk)
}

// H_C07_splice: parts of two files of the same sender to the same recipients.
//
//vx:bound two files of one sender, block size 2, 3-byte plaintexts; header of the first with payload and/or trailer of the second, including a second file made with the same root key by the co-recipient's own encryption
func H_C07_splice() {
	c := c07File(3, 2)
	enc2 := encrypt(vx.Bytes("pt2", 3), 2, c.ssk, c.pks...)
	hl2 := hdrLen(enc2)
	h2, ok := refDecode(enc2[12 : hl2-32])
	vx.Assert(ok, "header does not parse")
	body2, tr2 := enc2[hl2:len(enc2)-64], enc2[len(enc2)-64:]
	hdr := c.enc[:c.hl]
	switch vx.Choose("how", 4) {
	case 0:
		c.judge(hdr, body2, tr2, 2)
	case 1:
		// text of the second file under the keys of the first
		key2, ok := h2.refUnwrap(0, c.sks[0].Sk)
		vx.Assert(ok, "cannot unwrap")
		vx.Assume(!vx.Eq(key2, c.key))
		b := newRefBody(c.key, c.enc[c.hl-32:c.hl])
		t := vx.Bytes("t", 3)
		vx.Assume(!vx.Eq(t, c.pt))
		c.judge(hdr, cat(b.seal(t[:2], false), b.seal(t[2:], true)), tr2, 2)
	case 2:
		c.judge(hdr, cat(c.body[:4+2+16], body2[4+2+16:]), c.trailer, 2)
	case 3:
		c.judge(hdr, cat(body2[:4+2+16], c.body[4+2+16:]), tr2, 2)
	}
}

// H_C07_long: every byte of large blocks counts.
//
//vx:bound 2 recipients, plaintexts of 5000 and 20000 bytes in blocks of 1000, 4096 and 16384 bytes of which the first, middle and last one, those around powers of two, and 15 more are arbitrary; replaced under the file's own keys by another such text, or one without its last 1 or 1500 bytes, or with up to 2 arbitrary bytes more; original trailer
func H_C07_long() {
	n := []int{5000, 20000}[vx.Choose("n", 2)]
	blk := []int{1000, 4096, 16384}[vx.Choose("blk", 3)]
	c := &c07{pt: large("pt", n)}
	c.sks, c.pks = mkKeys("k", 3)
	c.spk = c.pks[2]
	c.enc = encrypt(c.pt, blk, c.sks[2], c.pks[:2]...)
	c.hl = hdrLen(c.enc)
	h, ok := refDecode(c.enc[12 : c.hl-32])
	vx.Assert(ok, "header does not parse")
	c.key, ok = h.refUnwrap(0, c.sks[0].Sk)
	vx.Assert(ok, "co-recipient cannot unwrap its key")
	c.trailer = c.enc[len(c.enc)-64:]
	c.streamRd = vx.Choose("stream", 2) == 1
	text := c.pt
	switch vx.Choose("how", 4) {
	case 0:
		text = large("forged", n)
		vx.Assume(!vx.Eq(text, c.pt))
	case 1:
		text = text[:n-1]
	case 2:
		text = text[:n-1500]
	case 3:
		text = cat(text, vx.Bytes("x", 1+vx.Choose("nx", 2)))
	}
	b := newRefBody(c.key, c.enc[c.hl-32:c.hl])
	var body []byte
	for len(text) > 0 {
		l := blk
		if l > len(text) {
			l = len(text)
		}
		body = append(body, b.seal(text[:l], l == len(text))...)
		text = text[l:]
	}
	c.judge(c.enc[:c.hl], body, c.trailer, blk)
}
