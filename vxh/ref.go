package vxh

// An independent implementation of the documented version-3 file format.

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"io"

	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
)

type refKey struct{ dkey, nonce []byte }

type refHdr struct {
	chunk            int // < 2^31
	salt, pk, sender []byte
	keys             []refKey
}

func uvarint(n int) []byte {
	var b []byte
	for n >= 128 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func pbBytes(field int, b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return cat([]byte{byte(field<<3 | 2)}, uvarint(len(b)), b)
}

func (h *refHdr) encode() []byte {
	var b []byte
	if h.chunk != 0 {
		b = cat([]byte{0x08}, uvarint(h.chunk))
	}
	b = cat(b, pbBytes(2, h.salt), pbBytes(3, h.pk), pbBytes(4, h.sender))
	for _, k := range h.keys {
		m := cat(pbBytes(1, k.dkey), pbBytes(2, k.nonce))
		b = cat(b, []byte{0x2a}, uvarint(len(m)), m)
	}
	return b
}

// frame wraps the encoded variable part in the fixed header and checksum.
func frame(v []byte) []byte {
	b := cat([]byte("SigTool"), []byte{3}, be32(len(v)), v)
	s := sha256.Sum256(b)
	return append(b, s[:]...)
}

func getUvarint(b []byte) (int, []byte, bool) {
	x := 0
	for i := 0; i < len(b) && i < 9; i++ {
		x |= int(b[i]&0x7f) << uint(7*i)
		if b[i] < 0x80 {
			return x, b[i+1:], true
		}
	}
	return 0, nil, false
}

func refDecode(b []byte) (*refHdr, bool) {
	h := &refHdr{}
	for len(b) > 0 {
		tag, rest, ok := getUvarint(b)
		if !ok {
			return nil, false
		}
		b = rest
		n, rest, ok := getUvarint(b)
		if !ok {
			return nil, false
		}
		b = rest
		if tag == 8 {
			h.chunk = n
			continue
		}
		if tag&7 != 2 || n > len(b) {
			return nil, false
		}
		v := b[:n]
		b = b[n:]
		switch tag >> 3 {
		case 2:
			h.salt = v
		case 3:
			h.pk = v
		case 4:
			h.sender = v
		case 5:
			var k refKey
			for len(v) > 0 {
				tag, rest, ok := getUvarint(v)
				if !ok {
					return nil, false
				}
				n, rest, ok := getUvarint(rest)
				if !ok || n > len(rest) || tag&7 != 2 {
					return nil, false
				}
				switch tag >> 3 {
				case 1:
					k.dkey = rest[:n]
				case 2:
					k.nonce = rest[:n]
				default:
					return nil, false
				}
				v = rest[n:]
			}
			h.keys = append(h.keys, k)
		default:
			return nil, false
		}
	}
	return h, true
}

func refExpand(n int, secret, salt []byte, info string) []byte {
	out := make([]byte, n)
	if _, err := io.ReadFull(hkdf.New(sha512.New, secret, salt, []byte(info)), out); err != nil {
		panic(err)
	}
	return out
}

func refAEAD(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

func sha(p ...[]byte) []byte {
	h := sha256.New()
	for _, x := range p {
		h.Write(x)
	}
	return h.Sum(nil)
}

// refSign is sigtool's message signature.
func refSign(edsk, msg []byte) []byte {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(msg)
	return ed25519.Sign(ed25519.PrivateKey(edsk), h.Sum(nil))
}

func refVerify(pub, msg, sig []byte) bool {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(msg)
	return ed25519.Verify(ed25519.PublicKey(pub), h.Sum(nil), sig)
}

// refScalar is the Curve25519 secret of an Ed25519 key.
func refScalar(edsk []byte) []byte {
	s := sha512.Sum512(edsk[:32])
	k := s[:32]
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return k
}

func refKEK(dh, salt, nonce []byte) (kek, gn []byte) {
	b := refExpand(44, dh, sha(salt, nonce), "Receiver Key")
	return b[:32], b[32:]
}

// refUnwrap opens the wrapped key i with the Ed25519 secret key edsk.
func (h *refHdr) refUnwrap(i int, edsk []byte) ([]byte, bool) {
	dh, err := curve25519.X25519(refScalar(edsk), h.pk)
	if err != nil {
		return nil, false
	}
	kek, gn := refKEK(dh, h.salt, h.keys[i].nonce)
	key, err := refAEAD(kek).Open(nil, gn, h.keys[i].dkey, edsk[32:64])
	return key, err == nil
}

// refWrap wraps key for the recipient with point xpk and Ed25519 key edpk.
func (h *refHdr) refWrap(esk, xpk, edpk, nonce, key []byte) {
	dh, err := curve25519.X25519(esk, xpk)
	if err != nil {
		panic(err)
	}
	kek, gn := refKEK(dh, h.salt, nonce)
	h.keys = append(h.keys, refKey{refAEAD(kek).Seal(nil, gn, key, edpk), nonce})
}

func (h *refHdr) senderMsg(key []byte) []byte {
	return sha([]byte("SigTool"), []byte{3}, h.pk, h.salt, key)
}

func (h *refHdr) openSender(key []byte) ([]byte, bool) {
	b := refExpand(44, key, h.salt, "Sender Sig")
	sig, err := refAEAD(b[:32]).Open(nil, b[32:], h.sender, nil)
	return sig, err == nil
}

func (h *refHdr) sealSender(key, sig []byte) {
	b := refExpand(44, key, h.salt, "Sender Sig")
	h.sender = refAEAD(b[:32]).Seal(nil, b[32:], sig, nil)
}

// refBody is the state for the payload.
type refBody struct {
	nonce, hkey []byte
	ae          cipher.AEAD
	sum         []byte // text under the hmac so far
	blk         int
}

func newRefBody(key, cksum []byte) *refBody {
	b := refExpand(76, key, cksum, "Data Key Expansion")
	return &refBody{nonce: b[:12], ae: refAEAD(b[12:44]), hkey: b[44:76]}
}

func (r *refBody) seal(pt []byte, last bool) []byte {
	l := be32(len(pt))
	if last {
		l[0] |= 0x80
	}
	n := cat(be32(r.blk), r.nonce[4:])
	r.blk++
	r.sum = cat(r.sum, l, pt)
	return cat(l, r.ae.Seal(nil, n, pt, l))
}

func (r *refBody) mac() []byte {
	m := hmac.New(sha256.New, r.hkey)
	m.Write(r.sum)
	return m.Sum(nil)
}

// refOpen decrypts a complete file with the Ed25519 secret key edsk.
func refOpen(enc, edsk, senderPk []byte, maxBlk int) (pt []byte, blocks []int, h *refHdr, why string) {
	if len(enc) < 12 || string(enc[:8]) != "SigTool\x03" {
		return nil, nil, nil, "bad magic"
	}
	hl := hdrLen(enc)
	if hl > len(enc) {
		return nil, nil, nil, "short header"
	}
	sum := sha(enc[:hl-32])
	if !hmac.Equal(sum, enc[hl-32:hl]) {
		return nil, nil, nil, "bad checksum"
	}
	h, ok := refDecode(enc[12 : hl-32])
	if !ok {
		return nil, nil, nil, "bad protobuf"
	}
	if len(h.salt) != 32 || len(h.pk) != 32 || len(h.sender) != 80 || h.chunk < 1 {
		return nil, nil, h, "bad field sizes"
	}
	var key []byte
	for i := range h.keys {
		if len(h.keys[i].dkey) != 48 || len(h.keys[i].nonce) != 12 {
			return nil, nil, h, "bad wrapped key size"
		}
		if k, ok := h.refUnwrap(i, edsk); ok {
			key = k
			break
		}
	}
	if key == nil {
		return nil, nil, h, "no key"
	}
	sig, ok := h.openSender(key)
	if !ok {
		return nil, nil, h, "bad sender field"
	}
	if senderPk == nil {
		if !hmac.Equal(sig, make([]byte, 64)) {
			return nil, nil, h, "sender field not zero"
		}
	} else if !refVerify(senderPk, h.senderMsg(key), sig) {
		return nil, nil, h, "bad sender signature"
	}
	r := newRefBody(key, sum)
	b := enc[hl:]
	for {
		if len(b) < 4 {
			return nil, nil, h, "short block"
		}
		l := b[:4]
		last := l[0]&0x80 != 0
		n := int(l[0]&0x7f)<<24 | int(l[1])<<16 | int(l[2])<<8 | int(l[3])
		if n > h.chunk || len(b) < 4+n+16 {
			return nil, nil, h, "bad block length"
		}
		if n != h.chunk && !last {
			return nil, nil, h, "short inner block"
		}
		p, err := r.ae.Open(nil, cat(be32(r.blk), r.nonce[4:]), b[4:4+n+16], l)
		if err != nil {
			return nil, nil, h, "block does not open"
		}
		r.blk++
		r.sum = cat(r.sum, l, p)
		pt = append(pt, p...)
		blocks = append(blocks, n)
		b = b[4+n+16:]
		if last {
			break
		}
	}
	if len(b) != 64 {
		return nil, nil, h, "trailer is not 64 bytes"
	}
	if senderPk != nil && !refVerify(senderPk, r.mac(), b) {
		return nil, nil, h, "bad trailer"
	}
	return pt, blocks, h, ""
}

func x25519(s, p []byte) ([]byte, error) { return curve25519.X25519(s, p) }

// refPoint is the Curve25519 public value of a scalar.
func refPoint(s []byte) []byte {
	p, err := curve25519.X25519(s, curve25519.Basepoint)
	if err != nil {
		panic(err)
	}
	return p
}

// refHash is the documented short hash of a public key.
func refHash(pk []byte) []byte {
	h := sha256.Sum256(pk)
	return h[:16]
}
