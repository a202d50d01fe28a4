package vxh

import (
	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// edBlob is the wire form of an ed25519 public key.
func edBlob(raw []byte) []byte { return cat(sshStr([]byte("ssh-ed25519")), sshStr(raw)) }

// readEither reads an OpenSSH key as a line or as a bare blob.
func readEither(how int, blob []byte, comment string) (*sign.PublicKey, error) {
	if how == 0 && comment == "" {
		return sign.MakePublicKey([]byte("ssh-ed25519 " + b64(blob) + "\n"))
	}
	switch how {
	case 0:
		return sign.MakePublicKey([]byte("ssh-ed25519 " + b64(blob) + " " + comment + "\n"))
	case 1:
		vx.Scratch()
		put("x.pub", []byte("ssh-ed25519\t"+b64(blob)+"  "+comment))
		return sign.ReadPublicKey("x.pub")
	case 2:
		return sign.MakePublicKeyFromString(b64(blob))
	}
	_, q := mkKey("used")
	q.ToCurve25519PK()
	return q, q.UnmarshalBinary([]byte("ssh-ed25519 " + b64(blob) + " " + comment + "\n"))
}

// H_C23_good: well-formed keys.
//
//vx:bound arbitrary 32-byte keys, comments of 0..6 arbitrary printable bytes, blanks inside included, as line, file, bare blob, into a used object
func H_C23_good() {
	raw := vx.Words("raw", 32)
	n := vx.Choose("n", 7)
	c := vx.Bytes("c", n)
	for i := range c {
		low := byte('!')
		if 0 < i && i < n-1 {
			low = ' '
		}
		vx.Assume(vx.And(c[i] >= low, c[i] < 0x7f))
	}
	how := vx.Choose("how", 4)
	q, err := readEither(how, edBlob(raw), string(c))
	must(err, "a well-formed OpenSSH public key is refused")
	isPK(q, raw, "OpenSSH key")
	if how != 2 {
		vx.Assert(vx.EqStr(q.Comment, string(c)), "the comment differs")
	}
	vx.Assert(vx.Eq(q.ToCurve25519PK(), clonePK(q).ToCurve25519PK()), "the key converts like another one")
	vx.Reach("ok")
}

// H_C23_blob: malformed blobs are refused.
//
//vx:bound the blob of an ed25519 key with its type replaced (10..12 arbitrary bytes), its key cut or extended to 0..40 bytes, 1..8 trailing bytes, cut after every byte; arbitrary length fields
func H_C23_blob() {
	raw := vx.Words("raw", 32)
	blob := edBlob(raw)
	bad := true
	switch vx.Choose("what", 6) {
	case 0:
		t := vx.Bytes("type", 10+vx.Choose("lt", 3))
		blob = cat(sshStr(t), sshStr(raw))
		bad = !vx.Eq(t, []byte("ssh-ed25519"))
	case 1:
		n := vx.Choose("lk", 41)
		raw = vx.Words("key", n)
		blob = edBlob(raw)
		bad = n != 32
	case 2:
		blob = append(blob, vx.Bytes("tail", 1+vx.Choose("lt", 8))...)
	case 3:
		blob = blob[:vx.Choose("cut", len(blob))]
	case 4:
		copy(blob[0:], vx.Bytes("len0", 4))
		bad = !vx.Eq(blob[:4], be32(11))
	case 5:
		copy(blob[15:], vx.Bytes("len1", 4))
		bad = !vx.Eq(blob[15:19], be32(32))
	}
	how := vx.Choose("how", 3)
	// the bare form of 32 bytes is a sigtool key
	vx.Assume(how != 2 || len(blob) != 32)
	q, err := readEither(how, blob, "c")
	if err != nil {
		vx.Assert(bad, "a well-formed OpenSSH public key is refused")
		vx.Reach("refused")
		return
	}
	vx.Assert(q != nil, "no error and no key")
	vx.Assert(!bad, "a malformed OpenSSH public key is accepted")
	isPK(q, raw, "OpenSSH key")
	vx.Reach("ok")
}

// H_C23_arb: arbitrary blobs.
//
//vx:opt dec=8 decT=12
//vx:bound blobs of 0..52 arbitrary bytes (up to 8, thorough 12, data-dependent decisions) as line, file and bare base64
func H_C23_arb() {
	n := vx.Choose("n", 53)
	blob := vx.Bytes("blob", n)
	how := vx.Choose("how", 3)
	q, err := readEither(how, blob, "c")
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Assert(q != nil, "no error and no key")
	vx.Assert(len(q.Pk) == 32, "a key of the wrong length")
	if how == 2 && n == 32 {
		isPK(q, blob, "bare key")
	} else {
		vx.Assert(n == 51 && vx.Eq(blob, edBlob(q.Pk)), "a malformed OpenSSH public key is accepted")
	}
	vx.Reach("ok")
}

// H_C23_text: arbitrary short strings and broken base64.
//
//vx:opt dec=10 decT=14
//vx:bound strings of 0..8 (thorough 12) arbitrary bytes; a valid blob's base64 with characters cut from or added to its end
func H_C23_text() {
	max := 9
	if vx.Thorough() {
		max = 13
	}
	var s string
	if vx.Choose("kind", 2) == 0 {
		s = string(vx.Bytes("s", vx.Choose("n", max)))
	} else {
		t := b64(edBlob(make([]byte, 32)))
		s = []string{t[:len(t)-1], t + "A", t + "=", t[:len(t)-4], t + "AAAA", " " + t, t + " ", "-" + t[1:], t[:10] + "\x00" + t[11:]}[vx.Choose("t", 9)]
	}
	q, err := sign.MakePublicKeyFromString(s)
	vx.Assert(err != nil && q == nil, "a broken string is read as a public key")
	vx.Reach("ok")
}
