package vxh

import (
	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

func c04File(n int) (enc []byte, sks []*sign.PrivateKey, spk *sign.PublicKey, pt []byte) {
	pt = vx.Bytes("pt", n)
	sks, pks := mkKeys("rx", 2)
	var ssk *sign.PrivateKey
	if !vx.Thorough() || vx.Choose("signed", 2) == 1 {
		ssk, spk = mkKey("sender")
	}
	return encrypt(pt, 2, ssk, pks...), sks, spk, pt
}

// refuseAll: nobody may open enc; quick runs take one recipient and one API per case.
func refuseAll(enc []byte, sks []*sign.PrivateKey, spk *sign.PublicKey, salt int) {
	who := salt % len(sks)
	stream := who == 1
	if vx.Thorough() {
		who = vx.Choose("who", len(sks))
		stream = vx.Choose("stream", 2) == 1
	}
	got, err := openEither(enc, sks[who], spk, stream, 2)
	vx.Assert(err != nil, "a file with a changed header decrypts")
	vx.Assert(len(got) == 0, "a file with a changed header yields plaintext")
	vx.Reach("refused")
}

// H_C04_fields: any other field values, checksum recomputed.
//
//vx:bound 2 recipients, plaintext 0 or 3 bytes, block size 2; arbitrary salt, ephemeral key, sender blob (length +-1), block size 1..5, up to 3 wrapped keys chosen from the originals in any order or arbitrary
func H_C04_fields() {
	enc, sks, spk, _ := c04File(3 * vx.Choose("n", 2))
	hl := hdrLen(enc)
	h, ok := refDecode(enc[12 : hl-32])
	vx.Assert(ok, "header does not parse")
	orig := h.keys
	g := &refHdr{chunk: h.chunk, salt: h.salt, pk: h.pk, sender: h.sender, keys: h.keys}
	switch vx.Choose("what", 5) {
	case 0:
		g.chunk = 1 + vx.Choose("chunk", 5)
	case 1:
		g.salt = vx.Tamper("salt", h.salt, 32)
	case 2:
		g.pk = vx.Tamper("pk", h.pk, 32)
	case 3:
		g.sender = vx.Tamper("sender", h.sender, len(h.sender)-1+vx.Choose("senderlen", 3))
	case 4:
		g.keys = nil
		k := vx.Choose("nkeys", 4)
		for i := 0; i < k; i++ {
			switch j := vx.Choose("key", 4); j {
			case 0, 1:
				g.keys = append(g.keys, orig[j])
			case 2:
				g.keys = append(g.keys, refKey{vx.Tamper("dkey", orig[0].dkey, 48), orig[1].nonce})
			case 3:
				g.keys = append(g.keys, refKey{orig[0].dkey, vx.Tamper("nonce", orig[0].nonce, 12)})
			}
		}
	}
	out := frame(g.encode())
	if len(out) == hl {
		vx.Assume(!vx.Eq(out, enc[:hl]))
	}
	refuseAll(cat(out, enc[hl:]), sks, spk, g.chunk+len(g.keys))
}

// marks are the positions of the header where a field, tag or length starts.
func marks(v []byte) []int {
	m := []int{0}
	p := 0
	for p < len(v) {
		tag := v[p]
		p++
		m = append(m, p)
		n, rest, ok := getUvarint(v[p:])
		if !ok {
			break
		}
		p = len(v) - len(rest)
		m = append(m, p)
		if tag&7 == 2 {
			if tag>>3 == 5 {
				k := p
				for k < p+n && k+2 < len(v) {
					m = append(m, k+1, k+2)
					k += 2 + int(v[k+1])
					m = append(m, k)
				}
			}
			p += n
			m = append(m, p-1, p)
		}
	}
	return m
}

// H_C04_bytes: arbitrary bytes at any place of the header, with or without recomputing the checksum.
//
//vx:opt dec=4 decT=12
//vx:bound 2 recipients, plaintext 3 bytes; a window of 1 (thorough 2) arbitrary bytes anywhere in the header (quick: the fixed header, all tags, lengths and first and last bytes of fields); checksum kept or recomputed; paths with at most 4 (thorough 12) data-dependent decisions
func H_C04_bytes() {
	enc, sks, spk, _ := c04File(3)
	hl := hdrLen(enc)
	var pos int
	k := 1
	if vx.Thorough() {
		k = 2
		pos = vx.Choose("pos", hl-1)
	} else {
		m := marks(enc[12 : hl-32])
		pos = vx.Choose("pos", 12+len(m)+2)
		switch {
		case pos >= 12+len(m):
			pos = hl - 32 + 31*(pos-12-len(m))
		case pos >= 12:
			pos = 12 + m[pos-12]
		}
	}
	bad := cat(enc[:pos], vx.Tamper("w", enc[pos:pos+k], k), enc[pos+k:hl])
	vx.Assume(!vx.Eq(bad, enc[:hl]))
	if vx.Choose("fix", 2) == 1 {
		copy(bad[hl-32:], sha(bad[:hl-32]))
		vx.Assume(!vx.Eq(bad, enc[:hl]))
	}
	refuseAll(cat(bad, enc[hl:]), sks, spk, pos)
}

// H_C04_shape: bytes inserted or removed, unknown fields, truncation; length and checksum recomputed.
//
//vx:opt dec=4 decT=12
//vx:bound 2 recipients, plaintext 3 bytes; one byte inserted or removed at any position (quick: where a tag, length or field starts or ends), 2 (thorough 3) arbitrary bytes appended to the protobuf part, header cut at any such position; paths with at most 4 (thorough 12) data-dependent decisions
func H_C04_shape() {
	enc, sks, spk, _ := c04File(3)
	hl := hdrLen(enc)
	v := enc[12 : hl-32]
	var bad []byte
	at := func() int {
		if vx.Thorough() {
			return vx.Choose("pos", len(v))
		}
		m := marks(v)
		p := m[vx.Choose("pos", len(m))]
		if p >= len(v) {
			p = len(v) - 1
		}
		return p
	}
	tail := 2
	if vx.Thorough() {
		tail = 3
	}
	switch vx.Choose("how", 4) {
	case 0:
		p := at()
		bad = frame(cat(v[:p], []byte{vx.Byte("b")}, v[p:]))
	case 1:
		p := at()
		bad = frame(cat(v[:p], v[p+1:]))
	case 2:
		bad = frame(cat(v, vx.Bytes("tail", tail)))
	case 3:
		bad = frame(v[:at()])
	}
	refuseAll(cat(bad, enc[hl:]), sks, spk, len(bad))
}
