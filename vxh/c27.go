package vxh

import (
	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// pubArg makes a public key argument in one of its forms.
func pubArg(form int, pk *sign.PublicKey, nm string) string {
	switch form {
	case 0:
		must(pk.Serialize(nm, "c", true), "Serialize failed")
	case 1:
		put(nm, []byte("ssh-ed25519 "+b64(edBlob(pk.Pk))+" me@host\n"))
	case 2:
		return b64(pk.Pk)
	case 3:
		return b64(edBlob(pk.Pk))
	}
	return nm
}

func sigDoc(sig, hash []byte) []byte {
	return []byte("comment: c\npkhash: " + b64(hash) + "\nsignature: " + b64(sig) + "\n")
}

// quietly adds the quiet flag in one of its forms.
func quietly(q int, cmd string, args ...string) []string {
	a := []string{cmd}
	switch q {
	case 1:
		a = append(a, "-q")
	case 2:
		a = append(a, "--quiet")
	}
	a = append(a, args...)
	if q == 3 {
		a = append(a, "-q")
	}
	return a
}

// H_C27_verdict: the exit status is 0 exactly for a valid signature by the given key.
//
//vx:bound arbitrary keys, file contents of 0..2 and 64 bytes when signed and when verified, arbitrary signature bytes (0, 63..65) and key hashes (0, 15..17) in the signature file, public key as file (native and OpenSSH) or string (both), quiet or not
func H_C27_verdict() {
	vx.Scratch()
	sks, pks := mkKeys("k", 2)
	lens := []int{0, 1, 2, 64}
	a := vx.Bytes("a", lens[vx.Choose("na", 4)])
	put("f", a)
	by := vx.Choose("signer", 2)
	s, err := sks[by].SignFile("f")
	must(err, "SignFile failed")
	b := a
	sg, hs := s.Sig, pks[by].Hash()
	named := vx.Choose("key", 2)
	form := 0
	switch vx.Choose("change", 4) {
	case 0:
		form = vx.Choose("form", 4)
	case 1:
		b = vx.Bytes("b", lens[vx.Choose("nb", 4)])
		put("f", b)
	case 2:
		sg = vx.Tamper("sig", s.Sig, []int{0, 63, 64, 65}[vx.Choose("ns", 4)])
	case 3:
		hs = vx.Tamper("hash", pks[named].Hash(), []int{0, 15, 16, 17}[vx.Choose("nh", 4)])
	}
	put("s", sigDoc(sg, hs))
	want := vx.And(by == named, vx.Eq(a, b), vx.Eq(sg, s.Sig), vx.Eq(hs, pks[named].Hash()))
	c, _, _ := vx.RunTool(nil, quietly(vx.Choose("q", 4), "verify", pubArg(form, pks[named], "pub"), "s", "f")...)
	vx.Assert(vx.Implies(c == 0, want), "verify succeeds without a valid signature")
	vx.Assert(vx.Implies(want, c == 0), "verify fails on a valid signature")
	vx.Assert(vx.Eq(get("f"), b), "verify changes the file")
	vx.Assert(vx.Eq(get("s"), sigDoc(sg, hs)), "verify changes the signature file")
	vx.Reach("ok")
}

var badDocs = []string{"", "\n", "hello", "- a\n", "signature: [a]\n", "{", "comment: x\n", "pkhash: \"\"\nsignature: \"\"\n", "signature: \"!!!!\"\npkhash: \"!!!!\"\n", "\x00\x01"}

// H_C27_bad: unreadable or malformed input is never a verdict of validity.
//
//vx:bound missing or directory arguments, too few arguments, malformed public keys and signature files (10 forms), any single failure to open, read or map a file; quiet or not
func H_C27_bad() {
	vx.Scratch()
	sk, pk := mkKey("k")
	a := vx.Bytes("a", []int{0, 2}[vx.Choose("na", 2)])
	put("f", a)
	s, err := sk.SignFile("f")
	must(err, "SignFile failed")
	must(s.Serialize("s", "c", false), "Serialize failed")
	must(pk.Serialize("pub", "c", false), "Serialize failed")
	args := []string{"pub", "s", "f"}
	fired := false
	which := vx.Choose("which", 3)
	bad := true
	arm := false
	switch vx.Choose("how", 5) {
	case 0:
		args[which] = "nope"
	case 1:
		args[which] = "."
	case 2:
		args = args[:which]
	case 3:
		vx.Assume(which < 2)
		put(args[which], []byte(badDocs[vx.Choose("doc", len(badDocs))]))
	case 4:
		vx.Assume(which == 0)
		bad, arm = false, true
	}
	q := quietly(vx.Choose("q", 4), "verify", args...)
	if arm {
		vx.Arm("open,read,mmap")
	}
	c, _, _ := vx.RunTool(nil, q...)
	if arm {
		fired = vx.Disarm()
	}
	vx.Assert((c != 0) == (bad || fired), "the exit status of verify on unusable input is wrong")
	vx.Reach("ok")
}
