package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
)

func put(nm string, b []byte) {
	if err := os.WriteFile(nm, b, 0644); err != nil {
		panic(err)
	}
}

func get(nm string) []byte {
	b, err := os.ReadFile(nm)
	vx.Assert(err == nil, "file cannot be read back: "+nm)
	return b
}

// H_C18_content: the whole content and its length are signed.
//
//vx:bound file content 0..9 bytes (and 63..65, 127..129) when signed, every such length when verified, arbitrary bytes on both sides; same or other file
func H_C18_content() {
	lens := []int{0, 1, 2, 3, 8, 9, 63, 64, 65, 127, 128, 129}
	if !vx.Thorough() {
		lens = []int{0, 1, 2, 8, 9, 64, 128}
	}
	vx.Scratch()
	n0 := lens[vx.Choose("n0", len(lens))]
	n1 := lens[vx.Choose("n1", len(lens))]
	sk, pk := mkKey("k")
	a, b := vx.Bytes("a", n0), vx.Bytes("b", n1)
	put("f", a)
	s, err := sk.SignFile("f")
	must(err, "SignFile failed")
	vx.Assert(vx.Eq(get("f"), a), "signing changes the file")
	vk := clonePK(pk)
	ok, err := vk.VerifyFile("f", s)
	vx.Assert(err == nil && ok, "a signature does not verify for its own file")
	other := "f"
	if vx.Choose("other", 2) == 1 {
		other = "g"
	}
	put(other, b)
	ok, err = vk.VerifyFile(other, s)
	must(err, "VerifyFile failed")
	vx.Assert(ok == vx.Eq(a, b), "a file signature does not decide equality of the content")
	ok, err = vk.VerifyFile(other, s)
	vx.Assert(err == nil && ok == vx.Eq(a, b), "a second verification differs")
	vx.Reach("ok")
}

// H_C18_size: content that ends like the size field is not confused with it.
//
//vx:bound content of 0..3 bytes against the same content followed by 8..10 arbitrary bytes, and against the content without its last 8 bytes
func H_C18_size() {
	vx.Scratch()
	sk, pk := mkKey("k")
	n := vx.Choose("n", 4)
	a := vx.Bytes("a", n)
	x := vx.Bytes("x", 8+vx.Choose("m", 3))
	b := cat(a, x)
	if vx.Choose("dir", 2) == 1 {
		a, b = b, a
	}
	put("f", a)
	put("g", b)
	s, err := sk.SignFile("f")
	must(err, "SignFile failed")
	ok, err := pk.VerifyFile("g", s)
	vx.Assert(err == nil && !ok, "a file signature verifies for an extended or cut file")
	// the raw checksum and raw content as messages
	vx.Assert(!pk.VerifyMessage(a, s), "a file signature verifies for the content as a message")
	vx.Reach("ok")
}

// H_C18_special: inputs whose size is not known beforehand.
//
//vx:bound a pipe with 1..4 arbitrary bytes signed, verified against regular files of 0..4 bytes, and the other way round
func H_C18_special() {
	vx.Scratch()
	sk, pk := mkKey("k")
	a := vx.Bytes("a", 1+vx.Choose("n0", 4))
	b := vx.Bytes("b", vx.Choose("n1", 5))
	vx.Fifo("p", a)
	put("g", b)
	sf, vf := "p", "g"
	if vx.Choose("dir", 2) == 1 {
		sf, vf = "g", "p"
	}
	s, err := sk.SignFile(sf)
	if err != nil {
		vx.Reach("refused")
		return
	}
	ok, err := pk.VerifyFile(vf, s)
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Assert(ok == vx.Eq(a, b), "a pipe is not signed by its content")
	vx.Reach("ok")
}

// H_C18_missing: what cannot be read is an error.
//
//vx:bound missing file, missing directory, a directory in place of the file, an open or read failure at every step
func H_C18_missing() {
	vx.Scratch()
	sk, pk := mkKey("k")
	a := vx.Bytes("a", vx.Choose("n", 4))
	put("f", a)
	s, err := sk.SignFile("f")
	must(err, "SignFile failed")
	os.Mkdir("d", 0755)
	nm := []string{"nope", "nope/f", "d", "f/x", ""}[vx.Choose("kind", 5)]
	_, err = sk.SignFile(nm)
	vx.Assert(err != nil, "signing an unreadable file succeeds")
	ok, err := pk.VerifyFile(nm, s)
	vx.Assert(err != nil, "verifying an unreadable file reports no error")
	vx.Assert(!ok, "verifying an unreadable file succeeds")

	vx.Arm("open,read")
	s2, e1 := sk.SignFile("f")
	ok, e2 := pk.VerifyFile("f", s)
	if vx.Disarm() {
		vx.Assert(e1 != nil || e2 != nil, "a failing read is not reported")
		if e1 == nil {
			vx.Assert(pk.VerifyMessage(nil, s2) == false, "impossible")
			vx.Assert(!ok, "verification succeeds although the file could not be read")
		} else {
			vx.Assert(ok && e2 == nil, "verification fails without a reason")
		}
	} else {
		vx.Assert(e1 == nil && e2 == nil && ok, "signing or verifying fails without a reason")
	}
	vx.Reach("ok")
}

// H_C18_broken: a pipe that breaks is no shorter file.
//
//vx:bound a pipe with 1..4 arbitrary bytes signed or verified, with a failure of any one open or read
func H_C18_broken() {
	vx.Scratch()
	sk, pk := mkKey("k")
	a := vx.Bytes("a", 1+vx.Choose("n", 4))
	put("f", a)
	s, err := sk.SignFile("f")
	must(err, "SignFile failed")
	vx.Fifo("p", a)
	verify := vx.Choose("verify", 2) == 1
	vx.Arm("open,read")
	ok := false
	if verify {
		ok, err = pk.VerifyFile("p", s)
	} else {
		_, err = sk.SignFile("p")
	}
	if vx.Disarm() {
		vx.Assert(err != nil && !ok, "a pipe that breaks is taken for a shorter file")
		vx.Reach("broken")
	} else if err == nil {
		vx.Assert(!verify || ok, "the content of a pipe does not verify")
		vx.Reach("ok")
	}
}
