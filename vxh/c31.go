package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C31_sender: -v accepts the named sender and nothing else.
//
//vx:opt samples=4
//vx:bound arbitrary keys; files signed by the named sender, another one, the recipient, or nobody, with 1..2 recipients; plaintext of 0..6 arbitrary bytes in blocks of 4; sender key as native or OpenSSH file, or one that is missing or no public key, input from file or stdin, output to a new or existing file, stdout or test mode; encrypted by the tool or the library
func H_C31_sender() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	bad := vx.Choose("bad", 5)
	sks, pks := mkKeys("k", 4)
	npt := 3
	if bad == 0 {
		npt = []int{0, 3, 6}[vx.Choose("npt", 3)]
	}
	pt := vx.Bytes("pt", npt)
	// 0 nobody, 1 the named sender, 2 another, 3 the recipient
	signer := vx.Choose("signer", 4)
	var sender *sign.PrivateKey
	if signer > 0 {
		sender = sks[[]int{0, 1, 2, 0}[signer]]
	}
	rx := pks[:1]
	if bad == 0 && vx.Choose("nrx", 2) == 1 {
		rx = []*sign.PublicKey{pks[3], pks[0]}
	}
	var enc []byte
	if bad > 0 || vx.Choose("by", 2) == 0 {
		enc = encrypt(pt, 4, sender, rx...)
	} else {
		put("pt", pt)
		args := []string{"encrypt", "-B", "4", "-o", "enc"}
		if sender != nil {
			keyFile(0, sender, "s.key", "")
			args = append(args, "-s", "s.key", "--no-password")
		}
		for i, p := range rx {
			nm := "rx" + string(rune('0'+i))
			must(p.Serialize(nm, "", false), "Serialize failed")
			args = append(args, nm)
		}
		c, _, _ := vx.RunTool(nil, append(args, "pt")...)
		vx.Assert(c == 0, "encrypt fails")
		enc = get("enc")
	}
	keyFile(0, sks[0], "key", "")
	form := 0
	if bad == 0 {
		form = vx.Choose("form", 2)
	}
	named := pubArg(form, pks[1], "v.pub")
	out := ""
	exists := false
	switch bad {
	case 1:
		named = "nofile"
	case 2:
		named = "junk"
		put(named, []byte("junk\n"))
	case 3:
		named = "key"
	case 4:
		named = "pk3"
		put(named, []byte("ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIA== me\n"))
	}
	args := []string{"decrypt", "--no-password", []string{"-v", "--verify-sender"}[vx.Choose("flag", 2)], named}
	switch vx.Choose("out", 4) {
	case 1:
		out = "out"
		args = append(args, "-o", out)
	case 2:
		out, exists = "out", true
		args = append(args, "-o", out, "--overwrite")
		put(out, []byte("old"))
	case 3:
		args = append(args, "-t")
	}
	args = append(args, "key")
	var in []byte
	if vx.Choose("in", 2) == 0 {
		put("in", enc)
		args = append(args, "in")
	} else {
		in = enc
	}
	before := vx.Listing()
	c, so, _ := vx.RunTool(in, args...)
	if signer == 1 && bad == 0 {
		vx.Assert(c == 0, "a file signed by the named sender is refused")
		vx.Reach("accepted")
		return
	}
	vx.Assert(c != 0, "a file not signed by the named sender is accepted")
	vx.Assert(len(so) == 0, "an unverified file produces output")
	vx.Assert(vx.Listing() == before, "a refused file leaves files behind")
	if exists {
		vx.Assert(vx.Eq(get(out), []byte("old")), "a refused file changes the existing output")
	}
	vx.Reach("refused")
}

// H_C31_forged: a file whose sender part was changed or transplanted.
//
//vx:opt samples=2 dec=30 decT=40
//vx:bound a file signed by the named sender whose root-key signature, sender field or trailer was changed, moved from another file or removed, or whose content, sender field or both were replaced under the right keys by a recipient; plaintext of 3 arbitrary bytes
func H_C31_forged() {
	vx.Scratch()
	sks, pks := mkKeys("k", 2)
	pt := vx.Bytes("pt", 3)
	enc := encrypt(pt, 4, sks[1], pks[0])
	hl := hdrLen(enc)
	h, ok := refDecode(enc[12 : hl-32])
	vx.Assert(ok, "header does not parse")
	key, ok := h.refUnwrap(0, sks[0].Sk)
	vx.Assert(ok, "recipient cannot unwrap")
	switch vx.Choose("how", 6) {
	case 0:
		// a recipient keeps the header and replaces the content
		p2 := vx.Bytes("p2", 3)
		vx.Assume(!vx.Eq(pt, p2))
		e2 := encrypt(p2, 4, nil, pks[0])
		enc = cat(enc[:hl], e2[hdrLen(e2):])
	case 1:
		// any byte of the trailer
		at := len(enc) - 1 - []int{0, 1, 31, 32, 63}[vx.Choose("at", 5)]
		b := vx.Byte("b")
		vx.Assume(b != enc[at])
		enc = cat(enc[:at], []byte{b}, enc[at+1:])
	case 2:
		// the trailer of another file of the same sender
		e2 := encrypt(pt, 4, sks[1], pks[0])
		enc = cat(enc[:len(enc)-64], e2[len(e2)-64:])
	case 3:
		// no trailer
		enc = enc[:len(enc)-64]
	case 4:
		// a recipient replaces the content under the right keys
		p2 := vx.Bytes("p2", 3)
		vx.Assume(!vx.Eq(pt, p2))
		tr := vx.Words("trailer", 64)
		if vx.Choose("keep", 2) == 1 {
			tr = enc[len(enc)-64:]
		}
		enc = cat(enc[:hl], newRefBody(key, enc[hl-32:hl]).seal(p2, true), tr)
	case 5:
		// a recipient makes it unsigned or puts something else
		p2 := vx.Bytes("p2", 3)
		sig := make([]byte, 64)
		if vx.Choose("sig", 2) == 1 {
			sig = vx.Words("sig", 64)
			vx.Assume(!refVerify(pks[1].Pk, h.senderMsg(key), sig))
		}
		h.sealSender(key, sig)
		hd := frame(h.encode())
		enc = cat(hd, newRefBody(key, hd[len(hd)-32:]).seal(p2, true), enc[len(enc)-64:])
	}
	put("in", enc)
	keyFile(0, sks[0], "key", "")
	must(pks[1].Serialize("v.pub", "", false), "Serialize failed")
	c, _, _ := vx.RunTool(nil, "decrypt", "--no-password", "-v", "v.pub", "-o", "out", "key", "in")
	vx.Assert(c != 0, "a forged file is accepted")
	vx.Assert(!vx.Exists("out"), "a forged file produces output")
	vx.Reach("refused")
}
