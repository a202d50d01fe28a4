package vxh

import (
	"bytes"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// hdrLen is the length of the file header including its checksum.
func hdrLen(enc []byte) int {
	return 12 + (int(enc[8])<<24 | int(enc[9])<<16 | int(enc[10])<<8 | int(enc[11])) + 32
}

// openEither decrypts whole or through the stream reader.
func openEither(enc []byte, sk *sign.PrivateKey, spk *sign.PublicKey, stream bool, rdsz int) ([]byte, error) {
	d, err := sign.NewDecryptor(bytes.NewReader(enc))
	if err != nil {
		return nil, err
	}
	if err = d.SetPrivateKey(sk, spk); err != nil {
		return nil, err
	}
	w := &wbuf{}
	if !stream {
		err = d.Decrypt(w)
		return w.b, err
	}
	rd, err := d.NewStreamReader()
	if err != nil {
		return nil, err
	}
	for {
		b := make([]byte, rdsz)
		n, err := rd.Read(b)
		w.b = append(w.b, b[:n]...)
		if err == io.EOF {
			return w.b, nil
		}
		if err != nil {
			for i := 0; i < 4; i++ {
				n, err2 := rd.Read(b)
				vx.Assert(n == 0 && err2 != nil && err2 != io.EOF, "the stream reader continues after a failure")
			}
			return w.b, err
		}
		vx.Assert(n > 0, "stream reader returns nothing without an error")
	}
}

// H_C03_bytes: everything after the header is replaced by arbitrary bytes of any length.
//
//vx:opt paths=60000
//vx:bound block size 2 (thorough 1..3), plaintext 0..5 bytes (up to 3 blocks), payload of every length from 0 to 4 bytes more than the original with all bytes arbitrary, with/without sender, both read APIs (quick: the stream reader for unsigned and Decrypt for signed files)
func H_C03_bytes() {
	blk := 2
	if vx.Thorough() {
		blk = 1 + vx.Choose("blk", 3)
	}
	n := vx.Choose("len", 2*blk+2)
	signed := vx.Choose("signed", 2) == 1
	stream := !signed
	if vx.Thorough() {
		stream = vx.Choose("stream", 2) == 1
	}
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	var ssk *sign.PrivateKey
	var spk *sign.PublicKey
	if signed {
		ssk, spk = mkKey("sender")
	}
	enc := encrypt(pt, blk, ssk, pk)
	h := hdrLen(enc)
	body := enc[h:]
	m := vx.Choose("newlen", len(body)+5)
	evil := vx.Tamper("payload", body, m)
	got, err := openEither(cat(enc[:h], evil), sk, spk, stream, blk)
	vx.Assert(isPrefix(got, pt), "output is not a prefix of the plaintext")
	if err == nil {
		vx.Assert(len(got) == len(pt), "a tampered file decrypts to truncated text")
		vx.Reach("accepted")
	} else {
		vx.Reach("refused")
	}
}

// H_C03_damage: one change to a file of several blocks.
//
//vx:bound block sizes 2 and 9, 1..3 full blocks or one byte less, arbitrary text; one byte at every position of the payload xored with any value, one or two neighbouring blocks dropped, doubled or exchanged with the next ones, or the file cut after every block; with/without sender, both read APIs; after a failure the stream reader is read four more times
func H_C03_damage() {
	blk := []int{2, 9}[vx.Choose("blk", 2)]
	k := 1 + vx.Choose("blocks", 3)
	n := k*blk - vx.Choose("less", 2)
	pt := vx.Bytes("pt", n)
	sk, pk := mkKey("rx")
	var ssk *sign.PrivateKey
	var spk *sign.PublicKey
	signed := vx.Choose("signed", 2) == 1
	if signed {
		ssk, spk = mkKey("sender")
	}
	stream := vx.Choose("stream", 2) == 1
	enc := encrypt(pt, blk, ssk, pk)
	h := hdrLen(enc)
	var bs [][]byte
	rest := enc[h:]
	for i := 0; i < k; i++ {
		m := min(blk, n-i*blk) + 20
		bs = append(bs, rest[:m])
		rest = rest[m:]
	}
	var body []byte
	how := vx.Choose("how", 5)
	switch how {
	case 0:
		body = cat(enc[h:])
		end := len(body)
		if !signed {
			end -= len(rest) // random bytes
		}
		x := vx.Byte("x")
		vx.Assume(x != 0)
		body[vx.Choose("at", end)] ^= x
	case 1, 2, 3:
		i := vx.Choose("from", k)
		j := i + 1 + vx.Choose("some", 2)
		if j > k {
			j = k
		}
		switch how {
		case 1:
			body = cat(cat(bs[:i]...), cat(bs[j:]...), rest)
		case 2:
			body = cat(cat(bs[:j]...), cat(bs[i:]...), rest)
		case 3:
			l := min(j+1, k)
			body = cat(cat(bs[:i]...), cat(bs[j:l]...), cat(bs[i:j]...), cat(bs[l:]...), rest)
		}
	case 4:
		body = cat(bs[:vx.Choose("cut", k+1)]...)
		if vx.Choose("tail", 2) == 1 {
			body = append(body, rest...)
		}
	}
	same := len(body) == len(enc)-h && vx.Eq(body, enc[h:])
	rdsz := []int{1, blk, blk + 5}[vx.Choose("rd", 3)]
	got, err := openEither(cat(enc[:h], body), sk, spk, stream, rdsz)
	vx.Assert(isPrefix(got, pt), "output is not a prefix of the plaintext")
	if same {
		vx.Assert(err == nil && len(got) == len(pt), "the file is refused")
		vx.Reach("same")
		return
	}
	if err == nil {
		vx.Assert(len(got) == len(pt), "a tampered file decrypts to truncated text")
	}
	vx.Reach("refused")
}
