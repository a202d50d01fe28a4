package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// every failure the tool can meet on files
const allFaults = "create,write,partial,sync,close,rename,open,read,mmap"

// moments at which it can be killed
const kills = "crash,crashw"

// keyFile writes a private key file: 0 without passphrase, 1 with pw, 2 OpenSSH.
func keyFile(form int, sk *sign.PrivateKey, nm, pw string) {
	switch form {
	case 0:
		must(sk.Serialize(nm, "c", true, nil), "Serialize failed")
	case 1:
		must(sk.Serialize(nm, "c", true, []byte(pw)), "Serialize failed")
	case 2:
		o := newOssh(sk.Sk)
		o.seal(8)
		put(nm, o.doc())
	}
}

// text makes a passphrase of n arbitrary characters.
func text(name string, n int) string {
	b := vx.Bytes(name, n)
	for _, x := range b {
		vx.Assume(x != 0)
	}
	return string(b)
}

// goodSig checks that doc is a valid signature of the file f by pk.
func goodSig(doc []byte, pk *sign.PublicKey, f, msg string) {
	var s sign.Signature
	err := s.UnmarshalBinary(doc)
	vx.Assert(err == nil, msg+": not a signature document")
	vx.Assert(s.IsPKMatch(clonePK(pk)), msg+": does not name the key")
	ok, err := clonePK(pk).VerifyFile(f, &s)
	vx.Assert(err == nil && ok, msg+": does not verify")
	// and the verify command agrees
	must(pk.Serialize("pk.tmp", "", true), "Serialize failed")
	put("sig.tmp", doc)
	c, _, _ := vx.RunTool(nil, "verify", "pk.tmp", "sig.tmp", f)
	vx.Assert(c == 0, msg+": refused by the verify command")
	os.Remove("pk.tmp")
	os.Remove("sig.tmp")
}

// H_C28_sign: status 0 means a delivered valid signature.
//
//vx:opt samples=4
//vx:bound arbitrary key (file without passphrase, OpenSSH), file of 0..2 arbitrary bytes under 4 names, output FILE.sig, -o FILE or -o -, existing or not, overwriting requested or not, every single failure of create, open, read, map, write, sync, close, rename, and every kill between or within these
func H_C28_sign() {
	vx.Scratch()
	sk, pk := mkKey("k")
	keyFile(2*vx.Choose("form", 2), sk, "key", "")
	f := []string{"f", "a b.c", "x: y", "-"}[vx.Choose("name", 4)]
	a := vx.Bytes("a", []int{0, 2}[vx.Choose("na", 2)])
	put(f, a)
	out := f + ".sig"
	args := []string{"sign", "--no-password"}
	force := vx.Choose("force", 2) == 1
	if force {
		args = append(args, "--overwrite")
	}
	switch vx.Choose("out", 3) {
	case 1:
		out = "out"
		args = append(args, "-o", out)
	case 2:
		out = "-"
		args = append(args, "--output=-")
	}
	exists := vx.Choose("exists", 2) == 1
	vx.Assume(!exists || out != "-")
	old := vx.Bytes("old", 2)
	if exists {
		put(out, old)
	}
	args = append(args, "--", "key", f)
	before := vx.Listing()
	killed := vx.Choose("kill", 2) == 1
	if killed {
		vx.Arm(kills)
	} else {
		vx.Arm(allFaults)
	}
	c, so, _ := vx.RunTool(nil, args...)
	fired := vx.Disarm()
	vx.Assert(vx.Eq(get(f), a), "signing changes the file")
	if killed && fired {
		if out == "-" {
			return
		}
		if exists && vx.Eq(get(out), old) || !exists && !vx.Exists(out) {
			vx.Reach("killed before")
			return
		}
		vx.Assert(force || !exists, "an existing file is replaced without being asked")
		goodSig(get(out), pk, f, "the file left by a killed sign")
		vx.Reach("killed after")
		return
	}
	if c != 0 {
		vx.Assert(fired || exists && !force, "sign fails without reason")
		vx.Assert(vx.Listing() == before, "a failed sign leaves files behind")
		if exists {
			vx.Assert(vx.Eq(get(out), old), "a failed sign changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	vx.Assert(!fired, "a failure while signing is reported as success")
	vx.Assert(force || !exists, "an existing signature is replaced without being asked")
	doc := so
	want := before
	if out != "-" {
		vx.Assert(len(so) == 0, "sign writes to stdout and a file")
		doc = get(out)
		if !exists {
			want++
		}
	}
	vx.Assert(vx.Listing() == want, "sign leaves temporary files behind")
	goodSig(doc, pk, f, "the signature")
	vx.Reach("signed")
}

// H_C28_bad: without a usable key or file nothing is written.
//
//vx:opt samples=2
//vx:bound arbitrary key and passphrases of 0..2 arbitrary bytes on both sides, from the environment; missing, directory or malformed key file (10 forms), missing file or directory to sign, too few arguments, output in a missing directory or over a directory
func H_C28_bad() {
	vx.Scratch()
	sk, pk := mkKey("k")
	put("f", []byte("hello"))
	out := "f.sig"
	args := []string{"sign", "-E", "PW", "key", "f"}
	bad := true
	form := 0
	switch vx.Choose("how", 6) {
	case 0:
		p1, p2 := text("p1", vx.Choose("n1", 3)), text("p2", vx.Choose("n2", 3))
		must(sk.Serialize("key", "c", false, []byte(p1)), "Serialize failed")
		os.Setenv("PW", p2)
		bad = !vx.EqStr(p1, p2)
		form = -1
	case 1:
		args[3] = []string{"nope", ".", "nope/x"}[vx.Choose("key", 3)]
	case 2:
		form = -1
		put("key", []byte(badDocs[vx.Choose("doc", len(badDocs))]))
	case 3:
		args[4] = []string{"nope", ".", "nope/x"}[vx.Choose("file", 3)]
		out = ""
	case 4:
		args = args[:[]int{1, 3, 4}[vx.Choose("n", 3)]]
	case 5:
		args = append(args, "-o", []string{".", "nope/x", "key/x"}[vx.Choose("out", 3)])
		out = ""
	}
	if form >= 0 {
		keyFile(0, sk, "key", "")
	}
	exists := out != "" && vx.Choose("exists", 2) == 1
	if exists {
		put(out, []byte("old"))
		args = append(args, "--overwrite")
	}
	before := vx.Listing()
	c, _, _ := vx.RunTool(nil, args...)
	vx.Assert((c != 0) == bad, "the exit status of sign is wrong")
	if bad {
		vx.Assert(vx.Listing() == before, "a failed sign leaves files behind")
		if exists {
			vx.Assert(vx.Eq(get(out), []byte("old")), "a failed sign changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	goodSig(get(out), pk, "f", "the signature")
	vx.Reach("signed")
}
