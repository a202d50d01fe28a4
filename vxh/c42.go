package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// typedText makes n arbitrary characters that can be typed in a line.
func typedText(name string, n int) []byte {
	b := vx.Bytes(name, n)
	for _, x := range b {
		vx.Assume(vx.And(x >= ' ', x < 0x7f))
	}
	return b
}

// H_C42_generate: the new key is protected by the passphrase typed twice.
//
//vx:opt samples=4
//vx:bound 0..5 lines typed, each one of two arbitrary printable texts of 0..2 characters, or no terminal at all; with and without comment, existing files, overwriting requested or not
func H_C42_generate() {
	vx.Scratch()
	words := [][]byte{typedText("p", vx.Choose("np", 3)), typedText("q", vx.Choose("nq", 3))}
	vx.Assume(!vx.Eq(words[0], words[1]))
	var lines [][]byte
	terminal := vx.Choose("terminal", 2) == 1
	if terminal {
		n := vx.Choose("lines", 6)
		for i := 0; i < n; i++ {
			lines = append(lines, words[vx.Choose("word", 2)])
		}
	}
	// two tries, each with a confirmation
	ok := false
	var pw []byte
	for i := 0; i+1 < len(lines) && i < 4; i += 2 {
		if !ok && vx.Eq(lines[i], lines[i+1]) {
			ok, pw = true, lines[i]
		}
	}
	args := []string{"generate"}
	if vx.Choose("comment", 2) == 1 {
		args = append(args, "-c", "my key")
	}
	old := vx.Bytes("old", 2)
	exists := vx.Choose("exists", 2) == 1
	if exists {
		put("k.key", old)
		put("k.pub", old)
		args = append(args, "--overwrite")
	}
	before := vx.Listing()
	if terminal {
		vx.Type(lines...)
	}
	c, _, _ := vx.RunTool(nil, append(args, "k")...)
	if !ok {
		vx.Assert(c != 0, "generate succeeds without a confirmed passphrase")
		vx.Assert(vx.Listing() == before, "generate makes keys without a confirmed passphrase")
		if exists {
			vx.Assert(vx.Eq(get("k.key"), old) && vx.Eq(get("k.pub"), old), "generate replaces keys without a confirmed passphrase")
		}
		vx.Reach("refused")
		return
	}
	vx.Assert(c == 0, "generate fails with a confirmed passphrase")
	pairOK("k", string(pw), "the keys generated")
	for _, w := range append(words, nil, []byte("x")) {
		if !vx.Eq(w, pw) {
			_, err := sign.ReadPrivateKey("k.key", pwOf(w))
			vx.Assert(err != nil, "the key generated opens with another passphrase")
		}
	}
	vx.Reach("made")
}

// askCase is a private key, what is typed for it, and whether that opens it.
type askCase struct {
	sk       *sign.PrivateKey
	pk       *sign.PublicKey
	terminal bool
	lines    [][]byte
	ok       bool
}

// ask writes a private key file that needs (or does not need) a passphrase.
func ask(nm string) *askCase {
	a := &askCase{}
	a.sk, a.pk = mkKey("k")
	form := vx.Choose("form", 3)
	pw := typedText("pw", vx.Choose("npw", 3))
	if form == 0 {
		pw = nil
	}
	keyFile(form, a.sk, nm, string(pw))
	a.terminal = vx.Choose("terminal", 2) == 1
	if a.terminal {
		switch vx.Choose("typed", 5) {
		case 1:
			a.lines = [][]byte{pw}
		case 2:
			a.lines = [][]byte{typedText("typed", vx.Choose("ntyped", 3))}
		case 3:
			a.lines = [][]byte{typedText("typed", vx.Choose("ntyped", 3)), pw}
		case 4:
			a.lines = [][]byte{pw, typedText("typed", 1)}
		}
	}
	// a key that is not encrypted does not ask
	a.ok = form == 2 || len(a.lines) > 0 && vx.Eq(a.lines[0], pw)
	return a
}

func (a *askCase) run(args ...string) (int, []byte) {
	if a.terminal {
		vx.Type(a.lines...)
	}
	c, so, _ := vx.RunTool(nil, args...)
	return c, so
}

// output adds the options for one of three places to write to.
func askOutput(args []string) ([]string, string) {
	switch vx.Choose("out", 3) {
	case 1:
		return append(args, "-o", "out"), "out"
	case 2:
		return append(args, "-o", "-"), ""
	}
	return args, ""
}

// H_C42_sign: signing with a typed passphrase.
//
//vx:opt samples=3
//vx:bound arbitrary key, passphrases of 0..2 arbitrary printable characters, sigtool key file without or with passphrase or an OpenSSH one, no terminal or one at which nothing, the passphrase, another text, or two lines are typed; signature to FILE.sig, -o FILE or -o -
func H_C42_sign() {
	vx.Scratch()
	a := ask("key")
	put("f", vx.Bytes("f", 2))
	args, out := askOutput([]string{"sign"})
	if len(args) == 1 {
		out = "f.sig"
	}
	before := vx.Listing()
	c, so := a.run(append(args, "key", "f")...)
	vx.Assert((c == 0) == a.ok, "the exit status of sign is wrong")
	if c != 0 {
		vx.Assert(vx.Listing() == before, "sign leaves files without the passphrase")
		vx.Assert(len(so) == 0, "sign writes to stdout without the passphrase")
		vx.Reach("refused")
		return
	}
	if out != "" {
		vx.Assert(len(so) == 0, "sign writes to stdout and a file")
		so = get(out)
	}
	goodSig(so, a.pk, "f", "the signature")
	var s sign.Signature
	must(s.UnmarshalBinary(so), "not a signature")
	vx.Reach("signed")
}

// H_C42_encrypt: a sender key with a typed passphrase.
//
//vx:opt samples=3
//vx:bound as for sign; 1 recipient, input of 0..3 arbitrary bytes in blocks of 2, output to a file or stdout
func H_C42_encrypt() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	a := ask("key")
	rsk, rpk := mkKey("r")
	vx.Assume(!vx.Eq(rpk.Pk, a.pk.Pk))
	pubArg(0, rpk, "to.pub")
	pt := vx.Bytes("pt", vx.Choose("npt", 4))
	put("in", pt)
	args, out := askOutput([]string{"encrypt", "-B", "2", "--sign", "key"})
	before := vx.Listing()
	c, so := a.run(append(args, "to.pub", "in")...)
	vx.Assert((c == 0) == a.ok, "the exit status of encrypt is wrong")
	if c != 0 {
		vx.Assert(vx.Listing() == before, "encrypt leaves files without the passphrase")
		vx.Assert(len(so) == 0, "encrypt writes to stdout without the passphrase")
		vx.Reach("refused")
		return
	}
	if out != "" {
		vx.Assert(len(so) == 0, "encrypt writes to stdout and a file")
		so = get(out)
	}
	goodEnc(so, pt, a.sk, []*sign.PrivateKey{rsk}, "the encrypted file")
	vx.Reach("encrypted")
}

// H_C42_decrypt: decrypting with a typed passphrase.
//
//vx:opt samples=3
//vx:bound as for sign; file of 0..3 arbitrary bytes in blocks of 2, output to a file or stdout, test mode
func H_C42_decrypt() {
	vx.Scratch()
	a := ask("key")
	pt := vx.Bytes("pt", vx.Choose("npt", 4))
	put("in", encrypt(pt, 2, nil, a.pk))
	args, out := askOutput([]string{"decrypt"})
	test := vx.Choose("test", 2) == 1
	if test {
		args = append(args, "--test")
	}
	before := vx.Listing()
	c, so := a.run(append(args, "key", "in")...)
	vx.Assert((c == 0) == a.ok, "the exit status of decrypt is wrong")
	if c != 0 || test {
		vx.Assert(vx.Listing() == before, "decrypt leaves files without the passphrase")
		vx.Assert(len(so) == 0, "decrypt writes to stdout without the passphrase")
		vx.Reach("refused")
		return
	}
	if out != "" {
		vx.Assert(len(so) == 0, "decrypt writes to stdout and a file")
		so = get(out)
	}
	vx.Assert(vx.Eq(so, pt), "wrong text")
	vx.Reach("decrypted")
}
