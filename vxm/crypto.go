package vxm

import (
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"errors"
	"hash"
	"io"
	"strconv"

	stded "crypto/ed25519"
)

// ---- hashes: collision-free functions of the whole input ----

type mhash struct {
	name  string
	size  int
	block int
	key   []byte
	buf   []byte
}

func (h *mhash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *mhash) WriteString(s string) (int, error) {
	h.buf = append(h.buf, s...)
	return len(s), nil
}
func (h *mhash) sum() []byte {
	if h.key != nil {
		return oracle("hmac:"+h.name, h.size, inj, h.key[1:], h.buf)
	}
	return oracle("hash:"+h.name, h.size, inj, h.buf)
}
func (h *mhash) Sum(b []byte) []byte { return append(b, h.sum()...) }
func (h *mhash) Reset()              { h.buf = nil }
func (h *mhash) Size() int           { return h.size }
func (h *mhash) BlockSize() int      { return h.block }

//vx:replace crypto/sha256.New
func sha256New() hash.Hash { return &mhash{name: "sha256", size: 32, block: 64} }

//vx:replace crypto/sha512.New
func sha512New() hash.Hash { return &mhash{name: "sha512", size: 64, block: 128} }

//vx:replace crypto/sha256.New224
func sha224New() hash.Hash { return &mhash{name: "sha224", size: 28, block: 64} }

//vx:replace crypto/sha512.New384
func sha384New() hash.Hash { return &mhash{name: "sha384", size: 48, block: 128} }

//vx:replace crypto/sha512.New512_256
func sha512256New() hash.Hash { return &mhash{name: "sha512_256", size: 32, block: 128} }

//vx:replace crypto/sha512.New512_224
func sha512224New() hash.Hash { return &mhash{name: "sha512_224", size: 28, block: 128} }

//vx:replace crypto/sha256.Sum256
func sum256(b []byte) (r [32]byte) {
	copy(r[:], oracle("hash:sha256", 32, inj, b))
	return
}

//vx:replace crypto/sha512.Sum512
func sum512(b []byte) (r [64]byte) {
	copy(r[:], oracle("hash:sha512", 64, inj, b))
	return
}

//vx:replace crypto/sha512.Sum512_256
func sum512256(b []byte) (r [32]byte) {
	copy(r[:], oracle("hash:sha512_256", 32, inj, b))
	return
}

//vx:replace crypto/sha512.Sum384
func sum384(b []byte) (r [48]byte) {
	copy(r[:], oracle("hash:sha384", 48, inj, b))
	return
}

//vx:replace crypto/md5.New
func md5New() hash.Hash { return &mhash{name: "md5", size: 16, block: 64} }

//vx:replace crypto/sha1.New
func sha1New() hash.Hash { return &mhash{name: "sha1", size: 20, block: 64} }

//vx:replace crypto/hmac.New
func hmacNew(f func() hash.Hash, key []byte) hash.Hash {
	h, ok := f().(*mhash)
	if !ok {
		unsup("hmac of a foreign hash")
	}
	k := key
	if len(k) > h.block {
		k = oracle("hash:"+h.name, h.size, inj, k)
	}
	// HMAC pads the key with zero bytes: trailing literal zeros do not matter
	n := len(k)
	for n > 0 && isConst(k[n-1:n]) && k[n-1] == 0 {
		n--
	}
	kk := append([]byte{1}, k[:n]...)
	return &mhash{name: h.name, size: h.size, block: h.block, key: kk}
}

//vx:replace crypto/hmac.Equal
func hmacEqual(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	return eq(a, b)
}

//vx:replace crypto/hkdf.Extract
func hkdfExtract(f func() hash.Hash, secret, salt []byte) ([]byte, error) {
	if salt == nil {
		salt = make([]byte, f().Size())
	}
	h := hmacNew(f, salt)
	h.Write(secret)
	return h.Sum(nil), nil
}

//vx:replace crypto/hkdf.Expand
func hkdfExpand(f func() hash.Hash, prk []byte, info string, n int) ([]byte, error) {
	h := hmacNew(f, prk)
	if n > 255*h.Size() {
		return nil, errors.New("hkdf: requested key length too large")
	}
	var out, prev []byte
	for i := 1; len(out) < n; i++ {
		h = hmacNew(f, prk)
		h.Write(prev)
		h.Write([]byte(info))
		h.Write([]byte{byte(i)})
		prev = h.Sum(nil)
		out = append(out, prev...)
	}
	return out[:n], nil
}

//vx:replace crypto/hkdf.Key
func hkdfKey(f func() hash.Hash, secret, salt []byte, info string, n int) ([]byte, error) {
	p, err := hkdfExtract(f, secret, salt)
	if err != nil {
		return nil, err
	}
	return hkdfExpand(f, p, info, n)
}

//vx:replace golang.org/x/crypto/pbkdf2.Key
func pbkdf2Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	f := h().(*mhash)
	big := make([]byte, keyLen) // run-time checks of the real code
	if len(big) > 512 {
		unsup("pbkdf2 output of more than 512 bytes")
	}
	return oracle("pbkdf2:"+f.name+strconv.Itoa(iter), len(big), inj, password, salt)
}

//vx:replace golang.org/x/crypto/scrypt.Key
func scryptKey(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	if N <= 1 || N&(N-1) != 0 {
		return nil, errors.New("scrypt: N must be > 1 and a power of 2")
	}
	if uint64(r)*uint64(p) >= 1<<30 || r > maxInt/128/p || r > maxInt/256 || N > maxInt/128/r {
		return nil, errors.New("scrypt: parameters are too large")
	}
	xy := make([]uint32, 64*r)
	v := make([]uint32, 32*N*r)
	_ = xy
	_ = v
	b := make([]byte, p*128*r)
	_ = b
	var pb [24]byte
	putInt(pb[:8], N)
	putInt(pb[8:16], r)
	putInt(pb[16:], p)
	return oracle("scrypt", keyLen, inj, password, salt, pb[:]), nil
}

func putInt(b []byte, x int) {
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> uint(56-8*i))
	}
}

const maxInt = int(^uint(0) >> 1)

//vx:replace github.com/dchest/bcrypt_pbkdf.Key
func bcryptKey(password, salt []byte, rounds, keyLen int) ([]byte, error) {
	if rounds < 1 {
		return nil, errors.New("bcrypt_pbkdf: number of rounds is too small")
	}
	if len(password) == 0 {
		return nil, errors.New("bcrypt_pbkdf: empty password")
	}
	if len(salt) == 0 || len(salt) > 1<<20 {
		return nil, errors.New("bcrypt_pbkdf: bad salt length")
	}
	if keyLen > 1024 {
		return nil, errors.New("bcrypt_pbkdf: keyLen is too large")
	}
	var pb [8]byte
	putInt(pb[:], rounds)
	return oracle("bcrypt", keyLen, inj, password, salt, pb[:]), nil
}

// ---- AES ----

type aesBlock struct{ key []byte }

//vx:replace crypto/aes.NewCipher
func aesNew(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, aes.KeySizeError(len(key))
	}
	return &aesBlock{key: clone(key)}, nil
}

func (a *aesBlock) BlockSize() int { return 16 }
func (a *aesBlock) Encrypt(dst, src []byte) {
	if len(src) < 16 || len(dst) < 16 {
		panic("crypto/aes: input not full block")
	}
	b := oracle("aesenc", 16, inj, a.key, src[:16])
	aesPairs = append(aesPairs, aesPair{a.key, clone(src[:16]), b, false})
	copy(dst, b)
}
func (a *aesBlock) Decrypt(dst, src []byte) {
	if len(src) < 16 || len(dst) < 16 {
		panic("crypto/aes: input not full block")
	}
	for _, p := range aesPairs {
		if same(p.key, a.key) && same(p.ct, src[:16]) {
			copy(dst, p.pt)
			return
		}
	}
	for _, p := range aesPairs {
		// likely ones first: this decides whether the keys are equal
		if same(p.ct, src[:16]) && concB(eq(p.key, a.key)) {
			copy(dst, p.pt)
			return
		}
	}
	for _, p := range aesPairs {
		// (blocks seen only by decryption coincide by chance only: not looked at)
		if !p.dec && !same(p.ct, src[:16]) && concB(and2(eq(p.key, a.key), eq(p.ct, src[:16]))) {
			copy(dst, p.pt)
			return
		}
	}
	b := oracle("aesdec", 16, inj, a.key, src[:16])
	aesPairs = append(aesPairs, aesPair{a.key, b, clone(src[:16]), true})
	copy(dst, b)
}

type aesPair struct {
	key, pt, ct []byte
	dec         bool
}

var aesPairs []aesPair

type gcmMode struct {
	key       []byte
	nonceSize int
	tagSize   int
}

type gcmRec struct {
	key, nonce, ad, pt, ct []byte
}

var gcmLog []gcmRec

// where in gcmLog bytes may be (as far as was known when they were added)
var gcmIdx = map[uint64][]int{}

//vx:replace crypto/cipher.NewGCM
func newGCM(b cipher.Block) (cipher.AEAD, error) {
	a, ok := b.(*aesBlock)
	if !ok {
		unsup("GCM over a foreign block cipher")
	}
	return &gcmMode{key: a.key, nonceSize: 12, tagSize: 16}, nil
}

//vx:replace crypto/cipher.NewGCMWithNonceSize
func newGCMn(b cipher.Block, n int) (cipher.AEAD, error) {
	if n <= 0 {
		return nil, errors.New("cipher: the nonce can't have zero length")
	}
	a := b.(*aesBlock)
	return &gcmMode{key: a.key, nonceSize: n, tagSize: 16}, nil
}

//vx:replace crypto/cipher.NewGCMWithTagSize
func newGCMt(b cipher.Block, n int) (cipher.AEAD, error) {
	if n < 12 || n > 16 {
		return nil, errors.New("cipher: incorrect tag size given to GCM")
	}
	a := b.(*aesBlock)
	return &gcmMode{key: a.key, nonceSize: 12, tagSize: n}, nil
}

func (g *gcmMode) NonceSize() int { return g.nonceSize }
func (g *gcmMode) Overhead() int  { return g.tagSize }

func sliceForAppend(in []byte, n int) (head, tail []byte) {
	if total := len(in) + n; cap(in) >= total {
		head = in[:total]
	} else {
		head = make([]byte, total)
		copy(head, in)
	}
	tail = head[len(in):]
	return
}

func xorStream(dom string, key, nonce, in []byte) []byte {
	out := make([]byte, len(in))
	for i := 0; i < len(in); i += 16 {
		ks := oracle(dom, 16, inj, key, nonce, be32(i/16))
		for j := i; j < i+16 && j < len(in); j++ {
			out[j] = in[j] ^ ks[j-i]
		}
	}
	return out
}

func (g *gcmMode) Seal(dst, nonce, plaintext, data []byte) []byte {
	if len(nonce) != g.nonceSize {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	head, out := sliceForAppend(dst, len(plaintext)+g.tagSize)
	pt := clone(plaintext)
	ad := clone(data)
	ct := xorStream("gcmks", g.key, nonce, pt)
	tag := oracle("gcmtag", 16, inj, g.key, nonce, ad, ct)
	ct = append(ct, tag[:g.tagSize]...)
	f := fpr(ct)
	gcmIdx[f] = append(gcmIdx[f], len(gcmLog))
	gcmLog = append(gcmLog, gcmRec{g.key, clone(nonce), ad, pt, ct})
	copy(out, ct)
	return head
}

var errOpen = errors.New("cipher: message authentication failed")

func (g *gcmMode) Open(dst, nonce, ciphertext, data []byte) ([]byte, error) {
	if len(nonce) != g.nonceSize {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	if len(ciphertext) < g.tagSize {
		return nil, errOpen
	}
	n := len(ciphertext) - g.tagSize
	ct := clone(ciphertext)
	ad := clone(data)
	nn := clone(nonce)
	head, out := sliceForAppend(dst, n)
	for _, i := range gcmIdx[fpr(ct)] {
		r := &gcmLog[i]
		if !same(r.ct, ct) || len(r.ad) != len(ad) || len(r.key) != len(g.key) || len(r.nonce) != len(nn) {
			continue
		}
		// what one encryption produced opens as that one or not at all
		if same(r.key, g.key) && same(r.nonce, nn) && same(r.ad, ad) || concB(and2(and2(eq(r.key, g.key), eq(r.nonce, nn)), eq(r.ad, ad))) {
			copy(out, r.pt)
			return head, nil
		}
		for i := range out {
			out[i] = 0
		}
		return nil, errOpen
	}
	for i := len(gcmLog) - 1; i >= 0; i-- {
		r := &gcmLog[i]
		if len(r.ct) == len(ct) && len(r.ad) == len(ad) && same(r.key, g.key) && same(r.nonce, nn) && same(r.ad, ad) && same(r.ct, ct) {
			copy(out, r.pt)
			return head, nil
		}
	}
	known := false
	for i := range gcmLog {
		if len(gcmLog[i].ct) == len(ct) && same(gcmLog[i].ct, ct) {
			known = true
		}
	}
	for i := range gcmLog {
		r := &gcmLog[i]
		if len(r.ct) != len(ct) || len(r.ad) != len(ad) || len(r.key) != len(g.key) || len(r.nonce) != len(nn) {
			continue
		}
		if known && !same(r.ct, ct) {
			continue
		}
		if concB(and2(and2(eq(r.key, g.key), eq(r.nonce, nn)), and2(eq(r.ad, ad), eq(r.ct, ct)))) {
			copy(out, r.pt)
			return head, nil
		}
	}
	for i := range out {
		out[i] = 0
	}
	return nil, errOpen
}

// ---- CTR / CBC (OpenSSH private keys) ----

type ctrMode struct {
	key, iv []byte
	pos     int
}

type encRec struct {
	mode        string
	key, iv, pt []byte
	ct          []byte
}

var encLog []encRec

//vx:replace crypto/cipher.NewCTR
func newCTR(b cipher.Block, iv []byte) cipher.Stream {
	if len(iv) != 16 {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	return &ctrMode{key: b.(*aesBlock).key, iv: clone(iv)}
}

func (c *ctrMode) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	if c.pos != 0 {
		unsup("CTR stream used more than once")
	}
	c.pos = len(src)
	in := clone(src)
	out := xorStream("ctrks", c.key, c.iv, in)
	wrongKey(in, out, c.key, "ctr")
	encLog = append(encLog, encRec{"ctr", c.key, c.iv, in, clone(out)})
	copy(dst, out)
}

// wrongKey: decrypting, under a different key, data that some key encrypted
// yields text whose first two 32-bit words differ (true but for a chance of
// 2^-32 per attempt, which no implementation of the format can avoid).
func wrongKey(in, out, key []byte, mode string) {
	if len(in) < 8 || len(out) < 8 {
		return
	}
	for i := range encLog {
		r := &encLog[i]
		if r.mode == mode && len(r.ct) == len(in) && same(r.ct, in) && !same(r.key, key) {
			if concB(eq(r.key, key)) {
				continue
			}
			assume(!eq(out[:4], out[4:8]))
		}
	}
}

type cbcMode struct {
	key, iv []byte
	dec     bool
}

//vx:replace crypto/cipher.NewCBCDecrypter
func newCBCDec(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != 16 {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &cbcMode{key: b.(*aesBlock).key, iv: clone(iv), dec: true}
}

//vx:replace crypto/cipher.NewCBCEncrypter
func newCBCEnc(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != 16 {
		panic("cipher.NewCBCEncrypter: IV length must equal block size")
	}
	return &cbcMode{key: b.(*aesBlock).key, iv: clone(iv)}
}

func (c *cbcMode) BlockSize() int { return 16 }
func (c *cbcMode) CryptBlocks(dst, src []byte) {
	if len(src)%16 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	in := clone(src)
	a := &aesBlock{key: c.key}
	out := make([]byte, len(in))
	prev := c.iv
	iv0 := c.iv
	for i := 0; i+16 <= len(in); i += 16 {
		if c.dec {
			a.Decrypt(out[i:i+16], in[i:i+16])
			for j := 0; j < 16; j++ {
				out[i+j] ^= prev[j]
			}
			prev = in[i : i+16]
		} else {
			var x [16]byte
			for j := 0; j < 16; j++ {
				x[j] = in[i+j] ^ prev[j]
			}
			a.Encrypt(out[i:i+16], x[:])
			prev = out[i : i+16]
		}
	}
	if len(in) > 0 {
		c.iv = clone(prev)
	}
	if c.dec {
		wrongKey(in, out, c.key, "cbc")
	} else {
		encLog = append(encLog, encRec{"cbc", c.key, iv0, in, clone(out)})
	}
	copy(dst, out)
}

// ---- Ed25519 ----

type edKey struct {
	seed, ck, pub []byte
}

type edSig struct {
	pub, msg, sig []byte
}

var (
	edKeys []edKey
	edSigs []edSig
)

func edReg(seed []byte) *edKey {
	for i := range edKeys {
		if same(edKeys[i].seed, seed) {
			return &edKeys[i]
		}
	}
	h := oracle("hash:sha512", 64, inj, seed)
	pub := oracle("edpub", 32, inj, seed)
	edKeys = append(edKeys, edKey{clone(seed), clampC(h[:32]), pub})
	return &edKeys[len(edKeys)-1]
}

func clampC(s []byte) []byte {
	c := clone(s)
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	return c
}

//vx:replace crypto/ed25519.GenerateKey golang.org/x/crypto/ed25519.GenerateKey
func edGenerate(r io.Reader) (stded.PublicKey, stded.PrivateKey, error) {
	if r == nil {
		r = Reader
	}
	seed := make([]byte, 32)
	if _, err := io.ReadFull(r, seed); err != nil {
		return nil, nil, err
	}
	k := edReg(seed)
	sk := append(clone(seed), k.pub...)
	return stded.PublicKey(clone(k.pub)), stded.PrivateKey(sk), nil
}

//vx:replace crypto/ed25519.NewKeyFromSeed golang.org/x/crypto/ed25519.NewKeyFromSeed
func edFromSeed(seed []byte) stded.PrivateKey {
	if len(seed) != 32 {
		panic("ed25519: bad seed length: " + strconv.Itoa(len(seed)))
	}
	k := edReg(seed)
	return stded.PrivateKey(append(clone(seed), k.pub...))
}

//vx:replace crypto/ed25519.Sign
func edSign(sk stded.PrivateKey, msg []byte) []byte {
	if len(sk) != 64 {
		panic("ed25519: bad private key length: " + strconv.Itoa(len(sk)))
	}
	seed, pub := clone(sk[:32]), clone(sk[32:])
	k := edReg(seed)
	m := clone(msg)
	sig := oracle("edsig", 64, inj, seed, pub, m)
	if same(k.pub, pub) {
		edSigs = append(edSigs, edSig{pub, m, sig})
	} else if concB(eq(k.pub, pub)) {
		edSigs = append(edSigs, edSig{pub, m, sig})
	}
	return clone(sig)
}

//vx:replace (crypto/ed25519.PrivateKey).Sign
func edSignM(sk stded.PrivateKey, rd io.Reader, msg []byte, opts crypto.SignerOpts) ([]byte, error) {
	h := opts.HashFunc()
	if h != crypto.Hash(0) {
		unsup("Ed25519ph")
	}
	return edSign(sk, msg), nil
}

//vx:replace crypto/ed25519.Verify golang.org/x/crypto/ed25519.Verify
func edVerify(pub stded.PublicKey, msg, sig []byte) bool {
	if len(pub) != 32 {
		panic("ed25519: bad public key length: " + strconv.Itoa(len(pub)))
	}
	if len(sig) != 64 {
		return false
	}
	ok := false
	for i := range edSigs {
		r := &edSigs[i]
		if len(r.msg) != len(msg) {
			continue
		}
		ok = or2(ok, and2(and2(eq(r.pub, pub), eq(r.msg, msg)), eq(r.sig, sig)))
	}
	return ok
}

// ---- X25519 ----

//vx:global golang.org/x/crypto/curve25519.Basepoint
var basepoint = []byte{9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}

// maskPoint drops the bit that X25519 ignores.
func maskPoint(p []byte) []byte {
	r := clone(p)
	r[31] &= 0x7f
	return r
}

// MontLE is the Curve25519 point of an Ed25519 public key.
func MontLE(pub []byte) []byte {
	b := montBE(maskPoint(pub))
	r := make([]byte, 32)
	for i := range b {
		r[31-i] = b[i]
	}
	return r
}

func xpub(ck []byte) []byte {
	for i := range edKeys {
		if same(edKeys[i].ck, ck) {
			return MontLE(edKeys[i].pub)
		}
	}
	return maskPoint(oracle("xpub", 32, inj, ck))
}

// lowOrder are the points of small order.
var lowOrder = []string{
	"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
	"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
	"\xe0\xeb\x7a\x7c\x3b\x41\xb8\xae\x16\x56\xe3\xfa\xf1\x9f\xc4\x6a\xda\x09\x8d\xeb\x9c\x32\xb1\xfd\x86\x62\x05\x16\x5f\x49\xb8\x00",
	"\x5f\x9c\x95\xbc\xa3\x50\x8c\x24\xb1\xd0\xb1\x55\x9c\x83\xef\x5b\x04\x44\x5c\xc4\x58\x1c\x8e\x86\xd8\x22\x4e\xdd\xd0\x9f\x11\x57",
	"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
	"\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
	"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
}

//vx:replace golang.org/x/crypto/curve25519.X25519
func x25519(scalar, point []byte) ([]byte, error) {
	if len(scalar) != 32 {
		return nil, errors.New("bad scalar length: " + strconv.Itoa(len(scalar)) + ", expected 32")
	}
	if len(point) != 32 {
		return nil, errors.New("bad point length: " + strconv.Itoa(len(point)) + ", expected 32")
	}
	ck := clampC(scalar)
	if same(point, basepoint) {
		return xpub(ck), nil
	}
	p := maskPoint(point)
	if isConst(p) {
		for _, u := range lowOrder {
			if string(p) == u {
				return nil, errors.New("bad input point: low order point")
			}
		}
	} else if concB(eq(p, make([]byte, 32))) {
		return nil, errors.New("bad input point: low order point")
	}
	return oracle("dh", 32, inj|unor, xpub(ck), p), nil
}

//vx:replace golang.org/x/crypto/curve25519.ScalarBaseMult
func scalarBaseMult(dst, scalar *[32]byte) {
	copy(dst[:], xpub(clampC(scalar[:])))
}

//vx:replace golang.org/x/crypto/curve25519.ScalarMult
func scalarMult(dst, scalar, point *[32]byte) {
	b, err := x25519(scalar[:], point[:])
	if err != nil {
		b = make([]byte, 32)
	}
	copy(dst[:], b)
}

// ---- randomness ----

type randReader struct{ n int }

var randPos int

// Reader replaces crypto/rand.Reader.
//
//vx:global crypto/rand.Reader
var Reader io.Reader = &randReader{}

func (r *randReader) Read(b []byte) (int, error) {
	if len(b) > 4096 {
		unsup("large random read")
	}
	copy(b, oracle("rand", len(b), inj, be32(randPos)))
	randPos++
	return len(b), nil
}

//vx:replace crypto/rand.Read
func randRead(b []byte) (int, error) {
	// the real one ends the process when the source fails
	if _, err := io.ReadFull(curReader(), b); err != nil {
		panic("crypto/rand: failed to read random data")
	}
	return len(b), nil
}

var mrandPos int

//vx:replace math/rand.runtime_rand math/rand/v2.runtime_rand
func mrand() uint64 {
	b := oracle("mrand", 8, inj, be32(mrandPos))
	mrandPos++
	x := uint64(0)
	for _, c := range b {
		x = x<<8 | uint64(c)
	}
	return x
}
