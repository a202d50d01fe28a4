package vxh

import (
	"github.com/opencoff/sigtool/internal/pb"
	"github.com/opencoff/sigtool/internal/vx"
)

// hdrOf converts the reference form.
func hdrOf(r *refHdr, chunk uint32) *pb.Header {
	h := &pb.Header{ChunkSize: chunk, Salt: r.salt, Pk: r.pk, Sender: r.sender}
	for _, k := range r.keys {
		h.Keys = append(h.Keys, &pb.WrappedKey{DKey: k.dkey, Nonce: k.nonce})
	}
	return h
}

func sameHdr(a, b *pb.Header) bool {
	ok := vx.And(a.ChunkSize == b.ChunkSize, vx.Eq(a.Salt, b.Salt), vx.Eq(a.Pk, b.Pk), vx.Eq(a.Sender, b.Sender))
	if len(a.Keys) != len(b.Keys) {
		return false
	}
	for i := range a.Keys {
		ok = vx.And(ok, vx.Eq(a.Keys[i].DKey, b.Keys[i].DKey), vx.Eq(a.Keys[i].Nonce, b.Keys[i].Nonce))
	}
	return ok
}

// roundtrip encodes h in a buffer with guard bytes and decodes it again.
func roundtrip(h *pb.Header) []byte {
	n := h.Size()
	buf := make([]byte, n+16)
	for i := range buf {
		buf[i] = 0xa5
	}
	m, err := h.MarshalTo(buf[8 : 8+n])
	must(err, "MarshalTo failed")
	vx.Assert(m == n, "encoding does not have the predicted size")
	for i := 0; i < 8; i++ {
		vx.Assert(buf[i] == 0xa5 && buf[8+n+i] == 0xa5, "encoding writes outside its buffer")
	}
	enc := buf[8 : 8+n]
	g := &pb.Header{}
	must(g.Unmarshal(enc), "own encoding does not decode")
	vx.Assert(sameHdr(h, g), "decoded header differs")
	// a decoded header owns its data
	vx.Assert(g.Size() == n, "predicted size changes")
	return enc
}

// H_C14_scalar: every block size.
//
//vx:bound every 32-bit block size with arbitrary 32-byte salt, 32-byte ephemeral key, 80-byte sender blob, one 48+12-byte wrapped key
func H_C14_scalar() {
	h := &pb.Header{ChunkSize: vx.U32("chunk"), Salt: vx.Bytes("salt", 32), Pk: vx.Bytes("pk", 32), Sender: vx.Bytes("sender", 80)}
	h.Keys = []*pb.WrappedKey{{DKey: vx.Bytes("dkey", 48), Nonce: vx.Bytes("nonce", 12)}}
	roundtrip(h)
	vx.Reach("ok")
}

// H_C14_lengths: field lengths on both sides of varint boundaries, exact bytes against an independent encoder.
//
//vx:bound block size 0, 1, 127, 128, 2^30; salt, ephemeral key, sender and 0..3 wrapped keys with lengths 0, 1, 127, 128 (one field at a time also 16383, 16384; thorough: 2097151, 2097152); arbitrary contents at the ends, arbitrary everywhere below 129 bytes
func H_C14_lengths() {
	mk := func(name string, n int) []byte {
		if n <= 128 {
			return vx.Bytes(name, n)
		}
		b := make([]byte, n)
		copy(b, vx.Bytes(name, 16))
		copy(b[n-16:], vx.Bytes(name+".end", 16))
		return b
	}
	small := []int{0, 1, 127, 128}
	all := []int{0, 1, 127, 128, 16383, 16384}
	if vx.Thorough() {
		all = append(all, 2097151, 2097152)
	}
	r := &refHdr{}
	r.chunk = []int{0, 1, 127, 128, 1 << 30}[vx.Choose("chunk", 5)]
	f := vx.Choose("field", 5)
	pick := func(i int) int {
		if f == i {
			return all[vx.Choose("big", len(all))]
		}
		if f == (i+1)%5 {
			return small[vx.Choose("small", 4)]
		}
		return 1
	}
	r.salt = mk("salt", pick(0))
	r.pk = mk("pk", pick(1))
	r.sender = mk("sender", pick(2))
	nk := 0
	if f == 3 || f == 4 {
		nk = vx.Choose("nkeys", 4)
	}
	for i := 0; i < nk; i++ {
		k := refKey{}
		if i == nk-1 {
			k.dkey, k.nonce = mk("dkey", pick(3)), mk("nonce", pick(4))
		} else {
			k.dkey, k.nonce = mk("dkey", 1), mk("nonce", 0)
		}
		r.keys = append(r.keys, k)
	}
	enc := roundtrip(hdrOf(r, uint32(r.chunk)))
	vx.Assert(vx.Eq(enc, r.encode()), "encoding differs from protobuf")
	vx.Reach("ok")
}

// H_C14_nested: wrapped keys whose encoding crosses a varint boundary.
//
//vx:bound one wrapped key with a 110..126-byte (thorough 100..128) encrypted key and a 0..3-byte (thorough 12) nonce, then a second key
func H_C14_nested() {
	a, b := 110+vx.Choose("a", 17), vx.Choose("b", 4)
	if vx.Thorough() {
		a, b = 100+vx.Choose("a2", 29), vx.Choose("b2", 13)
	}
	r := &refHdr{chunk: 1, salt: vx.Bytes("salt", 2)}
	r.keys = []refKey{{vx.Bytes("dkey", a), vx.Bytes("nonce", b)}, {vx.Bytes("dkey2", 2), vx.Bytes("nonce2", 2)}}
	enc := roundtrip(hdrOf(r, 1))
	vx.Assert(vx.Eq(enc, r.encode()), "encoding differs from protobuf")
	vx.Reach("ok")
}

// H_C14_reuse: encoding the same header twice, and decoding into independent storage.
//
//vx:bound salt 4 bytes, 1 key; the encoded bytes overwritten after decoding
func H_C14_reuse() {
	r := &refHdr{chunk: 300, salt: vx.Bytes("salt", 4), pk: vx.Bytes("pk", 3), sender: vx.Bytes("sender", 2)}
	r.keys = []refKey{{vx.Bytes("dkey", 3), vx.Bytes("nonce", 2)}}
	h := hdrOf(r, 300)
	a := append([]byte(nil), roundtrip(h)...)
	b := append([]byte(nil), roundtrip(h)...)
	vx.Assert(vx.Eq(a, b), "encoding is not repeatable")
	g := &pb.Header{}
	must(g.Unmarshal(b), "own encoding does not decode")
	for i := range b {
		b[i] = 0xff
	}
	vx.Assert(sameHdr(h, g), "decoded header changes with the buffer")
	vx.Reach("ok")
}
