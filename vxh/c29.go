package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// goodEnc checks that enc is the complete encryption of pt for every recipient.
func goodEnc(enc, pt []byte, sender *sign.PrivateKey, rx []*sign.PrivateKey, msg string) {
	for _, sk := range rx {
		var spk *sign.PublicKey
		if sender != nil {
			spk = clonePK(sender.PublicKey())
		}
		b, d, err := decryptAll(enc, cloneSK(sk), spk)
		vx.Assert(err == nil, msg+" cannot be decrypted by a recipient")
		vx.Assert(vx.Eq(b, pt), msg+" decrypts to something else")
		vx.Assert(d.AuthenticatedSender() == (sender != nil), msg+" is not signed as requested")
	}
}

// H_C29_encrypt: status 0 means a complete file.
//
//vx:opt samples=3
//vx:bound 1..2 recipients with arbitrary keys (key files or authorized_keys), input of 0..6 arbitrary bytes in blocks of 4 from a file or stdin, signed or not, output to a file (existing or not, overwriting requested or not) or stdout, every single failure of create, open, read, write, sync, close, rename, and every kill between or within these
func H_C29_encrypt() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	n := 1 + vx.Choose("nrx", 2)
	sks, pks := mkKeys("k", 3)
	ak := ""
	args := []string{"encrypt", "-B", "4"}
	var sender *sign.PrivateKey
	if vx.Choose("signed", 2) == 1 {
		sender = sks[2]
		keyFile(0, sender, "my.key", "")
		args = append(args, "--sign", "my.key", "--no-password")
	}
	out := ""
	switch vx.Choose("out", 3) {
	case 1:
		out = "out"
		args = append(args, "-o", out)
	case 2:
		args = append(args, "-o", "-")
	}
	exists, force := false, false
	old := vx.Bytes("old", 2)
	if out != "" {
		force = vx.Choose("force", 2) == 1
		if force {
			args = append(args, "--overwrite")
		}
		if exists = vx.Choose("exists", 2) == 1; exists {
			put(out, old)
		}
	}
	for i := 0; i < n; i++ {
		nm := "to" + string(rune('0'+i))
		if form := vx.Choose("form", 2); form == 0 {
			args = append(args, pubArg(i, pks[i], nm))
		} else {
			ak += "ssh-ed25519 " + b64(edBlob(pks[i].Pk)) + " " + nm + "@host\n"
			args = append(args, nm+"@host")
		}
	}
	if ak != "" {
		os.Mkdir(".ssh", 0700)
		put(".ssh/authorized_keys", []byte(ak))
	}
	pt := vx.Bytes("pt", []int{0, 3, 6}[vx.Choose("npt", 3)])
	var in []byte
	if vx.Choose("stdin", 2) == 1 {
		in = pt
		args = append(args, "-")
	} else {
		put("in", pt)
		args = append(args, "in")
	}
	before := vx.Listing()
	killed := vx.Choose("kill", 2) == 1
	if killed {
		vx.Arm(kills)
	} else {
		vx.Arm(allFaults)
	}
	c, so, _ := vx.RunTool(in, args...)
	fired := vx.Disarm()
	if killed && fired {
		if out == "" {
			return
		}
		if exists && vx.Eq(get(out), old) || !exists && !vx.Exists(out) {
			vx.Reach("killed before")
			return
		}
		vx.Assert(force || !exists, "an existing file is replaced without being asked")
		goodEnc(get(out), pt, sender, sks[:n], "the file left by a killed encrypt")
		vx.Reach("killed after")
		return
	}
	if c != 0 {
		vx.Assert(fired || exists && !force, "encrypt fails without reason")
		vx.Assert(vx.Listing() == before, "a failed encrypt leaves files behind")
		if exists {
			vx.Assert(vx.Eq(get(out), old), "a failed encrypt changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	vx.Assert(!fired, "a failure while encrypting is reported as success")
	vx.Assert(force || !exists, "an existing file is replaced without being asked")
	enc := so
	want := before
	if out != "" {
		vx.Assert(len(so) == 0, "encrypt writes to stdout and a file")
		enc = get(out)
		if !exists {
			want++
		}
	}
	vx.Assert(vx.Listing() == want, "encrypt leaves temporary files behind")
	goodEnc(enc, pt, sender, sks[:n], "the output")
	if in == nil && len(pt) > 0 {
		vx.Assert(vx.Eq(get("in"), pt), "encrypt changes its input")
	}
	vx.Reach("encrypted")
}

// H_C29_alike: recipients that look alike are still all of them served.
//
//vx:opt samples=2
//vx:bound 2..3 recipients with arbitrary different keys, each named by a sigtool file, an OpenSSH file or user@host, all with the same comment; in the same or in different directories under the same file name; one of them named twice
func H_C29_alike() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	n := 2 + vx.Choose("nrx", 2)
	sks, pks := mkKeys("k", 3)
	args := []string{"encrypt"}
	os.Mkdir("d0", 0700)
	os.Mkdir("d1", 0700)
	os.Mkdir("d2", 0700)
	os.Mkdir(".ssh", 0700)
	names := vx.Choose("names", 2) == 1
	user := false
	for i := 0; i < n; i++ {
		nm := "d" + string(rune('0'+i)) + "/pub"
		if names {
			nm = "pub" + string(rune('0'+i))
		}
		switch form := vx.Choose("form", 3); {
		case form == 0:
			must(pks[i].Serialize(nm, "me@host", false), "Serialize failed")
		case form == 1 || user:
			put(nm, []byte("ssh-ed25519 "+b64(edBlob(pks[i].Pk))+" me@host\n"))
		default:
			user = true
			put(".ssh/authorized_keys", []byte("ssh-ed25519 "+b64(edBlob(pks[i].Pk))+" me@host\n"))
			nm = "me@host"
		}
		args = append(args, nm)
	}
	if vx.Choose("twice", 2) == 1 {
		args = append(args, args[1])
	}
	pt := vx.Bytes("pt", 3)
	put("in", pt)
	c, so, _ := vx.RunTool(nil, append(args, "in")...)
	vx.Assert(c == 0, "encrypt fails")
	goodEnc(so, pt, nil, sks[:n], "the output")
	vx.Reach("encrypted")
}

// H_C29_bad: if anything named cannot be used, nothing is written.
//
//vx:opt samples=3
//vx:bound an unusable recipient (missing, directory, malformed key file in 10 forms, unknown user, private key) before, between or after usable ones; unusable signing key (missing, malformed, wrong passphrase of 0..2 arbitrary bytes) or input (missing, directory); too few arguments; bad block sizes; output in a missing directory or over a directory
func H_C29_bad() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sks, pks := mkKeys("k", 3)
	must(pks[0].Serialize("a.pub", "", false), "Serialize failed")
	must(pks[1].Serialize("b.pub", "", false), "Serialize failed")
	keyFile(0, sks[2], "my.key", "")
	put("in", []byte("hello"))
	opts := []string{"-B", "1k"}
	rx := []string{"a.pub", "b.pub"}
	in := "in"
	out := "out"
	bad := true
	var sender *sign.PrivateKey
	switch vx.Choose("how", 7) {
	case 0:
		b := []string{"nope", ".", "nobody@nowhere", "bad", "my.key"}[vx.Choose("rx", 5)]
		if b == "bad" {
			put("bad", []byte(badDocs[vx.Choose("doc", len(badDocs))]))
		}
		switch vx.Choose("pos", 4) {
		case 0:
			rx = []string{b, "a.pub", "b.pub"}
		case 1:
			rx = []string{"a.pub", b, "b.pub"}
		case 2:
			rx = []string{"a.pub", "b.pub", b}
		case 3:
			rx = []string{b}
		}
	case 1:
		opts = append(opts, "-s", []string{"nope", ".", "a.pub", "bad"}[vx.Choose("key", 4)], "--no-password")
		put("bad", []byte(badDocs[vx.Choose("doc", len(badDocs))]))
	case 2:
		p1, p2 := text("p1", vx.Choose("n1", 3)), text("p2", vx.Choose("n2", 3))
		keyFile(1, sks[2], "my.key", p1)
		os.Setenv("PW", p2)
		opts = append(opts, "-s", "my.key", "-E", "PW")
		bad = !vx.EqStr(p1, p2)
		sender = sks[2]
	case 3:
		in = []string{"nope", "."}[vx.Choose("in", 2)]
	case 4:
		switch vx.Choose("few", 3) {
		case 0:
			rx = nil
		case 1:
			rx, in = nil, ""
		case 2:
			rx, in = nil, "a.pub"
		}
	case 5:
		opts[1] = []string{"x", "-1", "1q", "0", "99999999999999999999"}[vx.Choose("size", 5)]
		bad = opts[1] != "0"
	case 6:
		out = []string{".", "nope/x", "in/x"}[vx.Choose("out", 3)]
	}
	exists := out == "out" && vx.Choose("exists", 2) == 1
	if exists {
		put(out, []byte("old"))
		opts = append(opts, "--overwrite")
	}
	args := append([]string{"encrypt", "-o", out}, opts...)
	args = append(args, rx...)
	if in != "" {
		args = append(args, in)
	}
	before := vx.Listing()
	c, so, _ := vx.RunTool(nil, args...)
	vx.Assert((c != 0) == bad, "the exit status of encrypt is wrong")
	if bad {
		vx.Assert(vx.Listing() == before, "a failed encrypt leaves files behind")
		vx.Assert(len(so) == 0, "a failed encrypt writes to stdout")
		if exists {
			vx.Assert(vx.Eq(get(out), []byte("old")), "a failed encrypt changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	goodEnc(get(out), []byte("hello"), sender, sks[:2], "the output")
	vx.Reach("encrypted")
}
