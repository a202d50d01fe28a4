package vxh

import (
	"errors"
	"io"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

var errTest = errors.New("injected failure")

// sink is an output that fails at the at-th write (0: never), after taking
// part of it when partial is set; everything it was given is kept.
type sink struct {
	b       []byte
	text    []byte // plaintext that was meant for it
	at      int
	partial bool
	full    bool // a failing write reports all bytes as written
	short   bool // never takes more than 5 bytes at once
	n       int
	closed  int
	noclose bool // Close fails
	once    int  // this write from now on fails although its data is seen
}

func (w *sink) Write(p []byte) (int, error) {
	w.n++
	if w.once > 0 {
		if w.once--; w.once == 0 {
			w.b = append(w.b, p...)
			return 0, errTest
		}
	}
	if w.at > 0 && w.n >= w.at {
		// what was handed over counts as seen by others
		if w.partial {
			w.b = append(w.b, p...)
			return len(p) / 2, errTest
		}
		if w.full {
			w.b = append(w.b, p...)
			return len(p), errTest
		}
		return 0, errTest
	}
	if w.short && len(p) > 5 {
		p = p[:5]
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

func (w *sink) Close() error {
	w.closed++
	if w.noclose {
		return errTest
	}
	return nil
}

type ctBlock struct {
	ct, pt []byte
}

// blocksOf cuts what a sink got into blocks.
func (w *sink) blocksOf() []ctBlock {
	b, t := w.b, w.text
	if len(b) >= 12 && string(b[:7]) == "SigTool" {
		hl := hdrLen(b)
		if hl >= len(b) {
			return nil
		}
		b = b[hl:]
	}
	var r []ctBlock
	for len(b) > 4 {
		n := int(b[0]&0x7f)<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		last := b[0]&0x80 != 0
		if n > len(b)-4 || n > len(t) {
			break
		}
		r = append(r, ctBlock{b[4 : 4+n], t[:n]})
		t = t[n:]
		b = b[4+n:]
		if last || len(b) < 16 {
			break
		}
		b = b[16:]
	}
	return r
}

// failRd delivers b and then err.
type failRd struct {
	b   []byte
	err error
}

func (r *failRd) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// noReuse checks all pairs of blocks that were ever handed out.
func noReuse(sinks []*sink) {
	var bs []ctBlock
	for _, s := range sinks {
		bs = append(bs, s.blocksOf()...)
	}
	for i := range bs {
		for j := 0; j < i; j++ {
			if len(bs[i].ct) < 8 || len(bs[j].ct) < 8 {
				continue
			}
			x := make([]byte, 8)
			y := make([]byte, 8)
			for k := 0; k < 8; k++ {
				x[k] = bs[i].ct[k] ^ bs[j].ct[k]
				y[k] = bs[i].pt[k] ^ bs[j].pt[k]
			}
			vx.Assert(!vx.Eq(x, y), "two blocks are encrypted with the same key stream")
		}
	}
	vx.Reach("compared")
}

// H_C08_history: every sequence of calls on one encryptor.
//
//vx:bound block size 8, 0 or 1 recipients, sequences of 2 (thorough 3) calls from: Encrypt of 8 or 16 bytes, Encrypt with the output failing at write 1..3 (nothing or all of that write taken), Encrypt with the input failing after 8 bytes, NewStreamWriter with 16 bytes with or without Close and with the output failing once at block 1 or 2 or not, Write of 17 more bytes to the first stream, Close of the first stream, AddRecipient; all plaintexts arbitrary
func H_C08_history() {
	sk, pk := mkKey("rx")
	_ = sk
	var ssk *sign.PrivateKey
	e, err := sign.NewEncryptor(ssk, 8)
	must(err, "NewEncryptor failed")
	if vx.Choose("rx", 2) == 0 {
		must(e.AddRecipient(pk), "AddRecipient failed")
	}
	var sinks []*sink
	var first io.WriteCloser
	var fsink *sink
	k := 2
	if vx.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		w := &sink{}
		switch vx.Choose("op", 8) {
		case 0:
			w.text = vx.Bytes("pt", 8)
			e.Encrypt(&frag{b: w.text}, w)
		case 1:
			w.text = vx.Bytes("pt", 16)
			e.Encrypt(&frag{b: w.text}, w)
		case 2:
			w.text = vx.Bytes("pt", 16)
			w.at = 1 + vx.Choose("at", 3)
			w.partial = vx.Choose("partial", 2) == 1
			e.Encrypt(&frag{b: w.text}, w)
		case 3:
			w.text = vx.Bytes("pt", 8)
			e.Encrypt(&failRd{w.text, errTest}, w)
		case 4:
			st, err := e.NewStreamWriter(w)
			if err != nil {
				break
			}
			w.once = vx.Choose("once", 3)
			if first == nil {
				first, fsink = st, w
			}
			w.text = vx.Bytes("pt", 16)
			st.Write(w.text)
			if vx.Choose("close", 2) == 1 {
				st.Close()
			}
		case 5:
			if first != nil {
				t := vx.Bytes("pt", 17)
				fsink.text = append(fsink.text, t...)
				first.Write(t)
			}
		case 6:
			if first != nil {
				first.Close()
			}
		case 7:
			e.AddRecipient(pk)
		}
		sinks = append(sinks, w)
	}
	noReuse(sinks)
}

// parts is an output that keeps each write by itself and fails once.
type parts struct {
	ws   [][]byte
	fail int // this write from now on fails
	seen bool
}

func (w *parts) Write(p []byte) (int, error) {
	if w.fail > 0 {
		if w.fail--; w.fail == 0 {
			if w.seen {
				w.ws = append(w.ws, cat(p))
			}
			return 0, errTest
		}
	}
	w.ws = append(w.ws, cat(p))
	return len(p), nil
}

func (w *parts) Close() error { return nil }

// H_C08_close: a stream after its Close.
//
//vx:bound block size 8, 0, 3, 8, 11 or 16 bytes, then Close which succeeds or fails once (its data being seen or not) at its first or second write, then 8, 9 or 17 more bytes and Close, then 8 more and Close; every two blocks handed out compared; the plaintext is one arbitrary byte repeated
func H_C08_close() {
	_, pk := mkKey("rx")
	var ssk *sign.PrivateKey
	e, err := sign.NewEncryptor(ssk, 8)
	must(err, "NewEncryptor failed")
	must(e.AddRecipient(pk), "AddRecipient failed")
	w := &parts{}
	st, err := e.NewStreamWriter(w)
	must(err, "NewStreamWriter failed")
	v := vx.Byte("v")
	data := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = v
		}
		return b
	}
	st.Write(data([]int{0, 3, 8, 11, 16}[vx.Choose("n", 5)]))
	if how := vx.Choose("how", 5); how > 0 {
		w.fail, w.seen = 1+how%2, how > 2
	}
	st.Close()
	w.fail = 0
	st.Write(data([]int{8, 9, 17}[vx.Choose("m", 3)]))
	st.Close()
	st.Write(data(8))
	st.Close()
	var bs [][]byte
	for _, b := range w.ws {
		if len(b) == 4+8+16 && b[0]&0x7f == 0 && b[1] == 0 && b[2] == 0 && b[3] == 8 {
			bs = append(bs, b)
		}
	}
	for i := range bs {
		for j := 0; j < i; j++ {
			// the same block once more tells nothing
			if len(bs[i]) == len(bs[j]) && vx.Eq(bs[i], bs[j]) {
				continue
			}
			x := make([]byte, 8)
			for k := range x {
				x[k] = bs[i][4+k] ^ bs[j][4+k]
			}
			vx.Assert(!vx.Eq(x, make([]byte, 8)), "two blocks are encrypted with the same key stream")
		}
	}
	vx.Reach("compared")
}

// H_C08_many: blocks far apart in one file.
//
//vx:bound block size 8, one file of 300 blocks (thorough 700), the nonces of every block compared with block 0 and the one 256 (512) blocks earlier
//vx:opt steps=400000000
func H_C08_many() {
	n := 300
	if vx.Thorough() {
		n = 700
	}
	_, pk := mkKey("rx")
	z := make([]byte, 8*n)
	copy(z, vx.Bytes("pt", 16))
	w := &sink{text: z}
	if vx.Choose("stream", 2) == 1 {
		w.b = streamEnc(z, []int{8 * n}, 8, nil, pk)
	} else {
		w.b = encrypt(z, 8, nil, pk)
	}
	bs := w.blocksOf()
	vx.Assert(len(bs) >= n, "blocks are missing")
	for i := 1; i < n; i++ {
		for _, j := range []int{0, i - 1, i - 128, i - 256, i - 512} {
			if j < 0 || (j == 0 && i > 40 && i != 256 && i != 512) {
				continue
			}
			x := make([]byte, 8)
			y := make([]byte, 8)
			for k := 0; k < 8; k++ {
				x[k] = bs[i].ct[k] ^ bs[j].ct[k]
				y[k] = bs[i].pt[k] ^ bs[j].pt[k]
			}
			vx.Assert(!vx.Eq(x, y), "two blocks are encrypted with the same key stream")
		}
	}
	vx.Reach("compared")
}

// H_C08_far: blocks 65536 apart.
//
//vx:bound block size 8, one file of 65600 blocks, every block after the 65536th compared with the one 65536 earlier
//vx:opt steps=4000000000 samples=1
func H_C08_far() {
	const far = 65536
	n := far + 64
	_, pk := mkKey("rx")
	z := make([]byte, 8*n)
	copy(z, vx.Bytes("pt", 8))
	w := &sink{text: z}
	if vx.Choose("stream", 2) == 1 {
		w.b = streamEnc(z, []int{8 * n}, 8, nil, pk)
	} else {
		w.b = encrypt(z, 8, nil, pk)
	}
	bs := w.blocksOf()
	vx.Assert(len(bs) >= n, "blocks are missing")
	for i := far; i < n; i++ {
		x := make([]byte, 8)
		y := make([]byte, 8)
		for k := 0; k < 8; k++ {
			x[k] = bs[i].ct[k] ^ bs[i-far].ct[k]
			y[k] = bs[i].pt[k] ^ bs[i-far].pt[k]
		}
		vx.Assert(!vx.Eq(x, y), "two blocks are encrypted with the same key stream")
	}
	vx.Reach("compared")
}
