package vxh

import (
	"github.com/opencoff/sigtool/internal/pb"
	"github.com/opencoff/sigtool/internal/vx"
)

// ---- a second protobuf decoder, by the protobuf encoding rules ----

// pbVarint reads a varint of at most 10 bytes.
func pbVarint(b []byte) (x uint64, rest []byte, ok bool) {
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, nil, false
		}
		x |= uint64(b[i]&0x7f) << uint(7*i)
		if b[i] < 0x80 {
			return x, b[i+1:], true
		}
	}
	return 0, nil, false
}

// pbSkip skips one field value.
func pbSkip(b []byte, typ int, depth int) ([]byte, bool) {
	switch typ {
	case 0:
		_, r, ok := pbVarint(b)
		return r, ok
	case 1, 5:
		n := 8
		if typ == 5 {
			n = 4
		}
		if len(b) < n {
			return nil, false
		}
		return b[n:], true
	case 2:
		n, r, ok := pbVarint(b)
		if !ok || n > uint64(len(r)) {
			return nil, false
		}
		return r[n:], true
	case 3:
		for depth < 20 {
			t, r, ok := pbVarint(b)
			if !ok {
				return nil, false
			}
			if t&7 == 4 {
				return r, true
			}
			if b, ok = pbSkip(r, int(t&7), depth+1); !ok {
				return nil, false
			}
		}
	}
	return nil, false
}

type pbVal struct {
	chunk uint32
	f     [8][]byte // the last value of each bytes field
	keys  []*pbVal
}

func pbDecode(b []byte, top bool) (*pbVal, bool) {
	v := &pbVal{}
	for len(b) > 0 {
		t, r, ok := pbVarint(b)
		if !ok {
			return nil, false
		}
		typ, num := int(t&7), int(uint32(t>>3))
		b = r
		known := num >= 1 && num <= 2 || top && num <= 5 && num >= 1
		if !known {
			if b, ok = pbSkip(b, typ, 0); !ok {
				return nil, false
			}
			continue
		}
		x, r, ok := pbVarint(b)
		if !ok {
			return nil, false
		}
		if top && num == 1 {
			if typ != 0 {
				return nil, false
			}
			v.chunk, b = uint32(x), r
			continue
		}
		if typ != 2 || x > uint64(len(r)) {
			return nil, false
		}
		s := r[:x]
		b = r[x:]
		if num == 5 {
			k, ok := pbDecode(s, false)
			if !ok {
				return nil, false
			}
			v.keys = append(v.keys, k)
			continue
		}
		v.f[num] = s
	}
	return v, true
}

// decodeBoth compares the two decoders on b.
func decodeBoth(b []byte, mustAccept bool) {
	keep := append([]byte(nil), b...)
	h := &pb.Header{}
	err := h.Unmarshal(b)
	vx.Assert(vx.Eq(b, keep), "decoding changes its input")
	if err != nil {
		vx.Assert(!mustAccept, "a well-formed header is refused")
		vx.Reach("refused")
		return
	}
	v, ok := pbDecode(keep, true)
	vx.Assert(ok, "a malformed header is accepted")
	vx.Assert(h.ChunkSize == v.chunk, "wrong block size decoded")
	vx.Assert(vx.And(vx.Eq(h.Salt, v.f[2]), vx.Eq(h.Pk, v.f[3]), vx.Eq(h.Sender, v.f[4])), "wrong field decoded")
	vx.Assert(len(h.Keys) == len(v.keys), "wrong number of keys decoded")
	for i := range h.Keys {
		vx.Assert(h.Keys[i] != nil, "missing key")
		vx.Assert(vx.And(vx.Eq(h.Keys[i].DKey, v.keys[i].f[1]), vx.Eq(h.Keys[i].Nonce, v.keys[i].f[2])), "wrong key decoded")
	}
	vx.Reach("accepted")
}

// H_C15_bytes: any byte string.
//
//vx:bound every byte string of 0..5 (thorough 6) bytes
func H_C15_bytes() {
	n := 6
	if vx.Thorough() {
		n = 7
	}
	decodeBoth(vx.Bytes("b", vx.Choose("n", n)), false)
}

// H_C15_varint: over-long and huge varints in every tag and length position.
//
//vx:bound tag bytes of each field (and as tag itself) followed by a varint of 1..11 bytes whose continuation bits are set and whose other bits are arbitrary, then 0..2 arbitrary bytes; also inside a wrapped key
func H_C15_varint() {
	n := 1 + vx.Choose("n", 11)
	x := vx.Bytes("x", n)
	for i := range x {
		x[i] |= 0x80
	}
	x[n-1] &= 0x7f
	tag := [][]byte{nil, {0x08}, {0x12}, {0x1a}, {0x22}, {0x2a}, {0x7a}, {0x78}}[vx.Choose("tag", 8)]
	tail := vx.Bytes("tail", vx.Choose("t", 3))
	b := cat(tag, x, tail)
	if vx.Choose("nested", 2) == 1 {
		if len(tag) == 1 {
			b[0] = []byte{0, 0x0a, 0x12, 0x12, 0x1a, 0x7a, 0x7a, 0x78}[int(tag[0]>>3)%8]
		}
		b = cat([]byte{0x2a, byte(len(b))}, b)
	}
	decodeBoth(b, false)
}

// H_C15_nested: any bytes as a wrapped key.
//
//vx:bound a wrapped key of 0..3 (thorough 4) arbitrary bytes between two other fields
func H_C15_nested() {
	n := 4
	if vx.Thorough() {
		n = 5
	}
	in := vx.Bytes("b", vx.Choose("n", n))
	decodeBoth(cat([]byte{0x12, 1, 7, 0x2a, byte(len(in))}, in, []byte{0x1a, 2, 8, 9}), false)
}

// H_C15_unknown: unknown fields of every kind do not disturb the known ones.
//
//vx:bound a full header (arbitrary contents) with one unknown field - number 6, 15, 16, 2047 or 2^29-1, of each wire type including a group holding another field - before or after any known field, at top level and in a wrapped key; arbitrary value bytes
func H_C15_unknown() {
	num := []uint64{6, 15, 16, 2047, 1<<29 - 1}[vx.Choose("num", 5)]
	typ := []int{0, 1, 2, 3, 5}[vx.Choose("typ", 5)]
	big := func(x uint64) []byte {
		var b []byte
		for x >= 128 {
			b = append(b, byte(x)|0x80)
			x >>= 7
		}
		return append(b, byte(x))
	}
	u := big(num<<3 | uint64(typ))
	switch typ {
	case 0:
		u = cat(u, []byte{vx.Byte("v") | 0x80, vx.Byte("v") & 0x7f})
	case 1:
		u = cat(u, vx.Bytes("v", 8))
	case 2:
		u = cat(u, []byte{3}, vx.Bytes("v", 3))
	case 3:
		u = cat(u, []byte{0x12, 1, vx.Byte("v")}, big(num<<3|4))
	case 5:
		u = cat(u, vx.Bytes("v", 4))
	}
	k := cat(pbBytes(1, vx.Bytes("dkey", 2)), pbBytes(2, vx.Bytes("nonce", 2)))
	at := vx.Choose("at", 9)
	if at >= 6 {
		p := []int{0, 4, 8}[at-6]
		k = cat(k[:p], u, k[p:])
	}
	parts := [][]byte{{0x08, 5}, pbBytes(2, vx.Bytes("salt", 2)), pbBytes(3, vx.Bytes("pk", 2)), pbBytes(4, vx.Bytes("sender", 1)), pbBytes(5, k)}
	var b []byte
	for i, p := range parts {
		if i == at {
			b = cat(b, u)
		}
		b = cat(b, p)
	}
	if at == 5 {
		b = cat(b, u)
	}
	decodeBoth(b, true)
}

// H_C15_cut: a valid encoding cut anywhere or with one byte replaced.
//
//vx:opt dec=9 decT=20
//vx:bound an encoded header (2-byte fields, 2 keys) cut at any position or with any one byte replaced by any value; paths with at most 9 (thorough 20) data-dependent decisions
func H_C15_cut() {
	r := &refHdr{chunk: 300, salt: vx.Bytes("salt", 2), pk: vx.Bytes("pk", 2), sender: vx.Bytes("sender", 2)}
	r.keys = []refKey{{vx.Bytes("dkey", 2), vx.Bytes("nonce", 2)}, {vx.Bytes("dkey2", 2), nil}}
	b := r.encode()
	p := vx.Choose("pos", len(b))
	if vx.Choose("how", 2) == 0 {
		decodeBoth(b[:p], false)
		return
	}
	b[p] = vx.Byte("x")
	decodeBoth(b, false)
}
