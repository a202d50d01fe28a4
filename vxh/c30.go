package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// H_C30_decrypt: output appears only for a whole authentic file.
//
//vx:opt samples=4
//vx:bound arbitrary keys, plaintext of 0..6 arbitrary bytes in blocks of 4, signed or not; intact, or for another recipient, cut at 15 places (thorough: any length), or with a byte at 13 places (thorough: anywhere) changed to any value; input from a file or stdin, output to a file (existing or not, overwriting requested or not), to stdout, or test mode (with and without -o)
func H_C30_decrypt() {
	vx.Scratch()
	sks, pks := mkKeys("k", 3)
	must(pks[1].Serialize("sender.pub", "", false), "Serialize failed")
	args := []string{"decrypt", "--no-password"}
	var sender *sign.PrivateKey
	if vx.Choose("signed", 2) == 1 {
		sender = sks[1]
		args = append(args, "-v", "sender.pub")
	}
	pt := vx.Bytes("pt", []int{0, 3, 6}[vx.Choose("npt", 3)])
	enc := encrypt(pt, 4, sender, pks[0])
	who := 0
	bad := true
	switch vx.Choose("how", 4) {
	case 0:
		bad = false
	case 1:
		who = 2
	case 2:
		cuts := []int{1, 2, 63, 64, 65, 68, 80, 81, 84, 88, 100, 104, len(enc) - 45, len(enc) - 5, len(enc)}
		cut := 0
		if vx.Thorough() {
			cut = 1 + vx.Choose("anycut", len(enc))
		} else {
			cut = cuts[vx.Choose("cut", len(cuts))]
		}
		enc = enc[:len(enc)-cut]
	case 3:
		// not the random trailer of unsigned files
		n := len(enc)
		if sender == nil {
			n -= 64
		}
		at := 0
		if vx.Thorough() {
			at = vx.Choose("anyat", n)
		} else {
			ats := []int{0, 8, 12, 20, 45, 60, 140, n - 1, n - 2, n - 20, n - 21, n - 40, n - 66}
			at = ats[vx.Choose("at", len(ats))]
		}
		b := vx.Byte("b")
		vx.Assume(b != enc[at])
		enc = cat(enc[:at], []byte{b}, enc[at+1:])
	}
	keyFile(0, sks[who], "key", "")
	out, test := "", false
	switch vx.Choose("out", 4) {
	case 1:
		out = "out"
	case 2:
		test = true
		args = append(args, "-t")
	case 3:
		test, out = true, "out"
		args = append(args, "--test")
	}
	exists, force := false, false
	old := vx.Bytes("old", 2)
	vx.Assume(!bad || out != "")
	if out != "" {
		args = append(args, "-o", out)
		if bad {
			exists = vx.Choose("exists", 2) == 1
			force = exists
		} else {
			exists, force = vx.Choose("exists", 2) == 1, vx.Choose("force", 2) == 1
		}
		if force {
			args = append(args, "--overwrite")
		}
		if exists {
			put(out, old)
		}
	}
	args = append(args, "key")
	var in []byte
	switch vx.Choose("in", 3) {
	case 0:
		put("in", enc)
		args = append(args, "in")
	case 1:
		vx.Assume(!bad)
		in = enc
		args = append(args, "-")
	case 2:
		vx.Assume(!bad)
		in = enc
	}
	before := vx.Listing()
	c, so, _ := vx.RunTool(in, args...)
	if test {
		vx.Assert(len(so) == 0, "test mode writes the plaintext to stdout")
		vx.Assert((c != 0) == bad, "the exit status of decrypt -t is wrong")
		vx.Assert(vx.Listing() == before, "test mode creates files")
		if exists {
			vx.Assert(vx.Eq(get(out), old), "test mode writes the output file")
		}
		vx.Reach("tested")
		return
	}
	if bad || exists && !force {
		vx.Assert(c != 0, "decrypt succeeds when it should not")
		vx.Assert(vx.Listing() == before, "a failed decrypt leaves files behind")
		if exists {
			vx.Assert(vx.Eq(get(out), old), "a failed decrypt changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	vx.Assert(c == 0, "decrypt fails without reason")
	if out == "" {
		vx.Assert(vx.Eq(so, pt), "decrypt writes something else than the plaintext")
	} else {
		vx.Assert(len(so) == 0, "decrypt writes to stdout and a file")
		vx.Assert(vx.Eq(get(out), pt), "the output file is not the plaintext")
		if !exists {
			before++
			st, err := os.Stat(out)
			vx.Assert(err == nil && st.Mode()&0077 == 0, "the plaintext is accessible to others")
		}
	}
	vx.Assert(vx.Listing() == before, "decrypt leaves temporary files behind")
	vx.Reach("decrypted")
}

// H_C30_faults: any failing or interrupted step.
//
//vx:opt samples=6
//vx:bound plaintext of 0..9 arbitrary bytes in blocks of 4, signed or not, output to a file (existing or not) or stdout or test mode, input from a file or stdin; every single failure of create, open, read, write, sync, close, rename, and every kill between or within these
func H_C30_faults() {
	vx.Scratch()
	sks, pks := mkKeys("k", 2)
	must(pks[1].Serialize("sender.pub", "", false), "Serialize failed")
	args := []string{"decrypt", "--no-password"}
	var sender *sign.PrivateKey
	if vx.Choose("signed", 2) == 1 {
		sender = sks[1]
		args = append(args, "-v", "sender.pub")
	}
	pt := vx.Bytes("pt", []int{0, 3, 9}[vx.Choose("npt", 3)])
	enc := encrypt(pt, 4, sender, pks[0])
	keyFile(2*vx.Choose("form", 2), sks[0], "key", "")
	out := ""
	test := false
	switch vx.Choose("out", 3) {
	case 1:
		out = "out"
		args = append(args, "-o", out)
	case 2:
		test = true
		args = append(args, "-t")
	}
	old := vx.Bytes("old", 2)
	exists := out != "" && vx.Choose("exists", 2) == 1
	if exists {
		args = append(args, "--overwrite")
		put(out, old)
	}
	args = append(args, "key")
	var in []byte
	if vx.Choose("in", 2) == 0 {
		put("in", enc)
		args = append(args, "in")
	} else {
		in = enc
	}
	before := vx.Listing()
	killed := vx.Choose("kill", 2) == 1
	if killed {
		vx.Arm(kills)
	} else {
		vx.Arm(allFaults)
	}
	c, so, _ := vx.RunTool(in, args...)
	fired := vx.Disarm()
	vx.Assert((c == 0) == !fired, "the exit status of a decrypt with a fault is wrong")
	if killed && fired {
		if out == "" {
			return
		}
		if exists && vx.Eq(get(out), old) || !exists && !vx.Exists(out) {
			vx.Reach("killed before")
			return
		}
		vx.Assert(vx.Eq(get(out), pt), "a killed decrypt leaves a partial output file")
		vx.Reach("killed after")
		return
	}
	if fired {
		vx.Assert(vx.Listing() == before, "a failed decrypt leaves files behind")
		if exists {
			vx.Assert(vx.Eq(get(out), old), "a failed decrypt changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	if out != "" {
		vx.Assert(vx.Eq(get(out), pt), "the output file is not the plaintext")
	} else if !test {
		vx.Assert(vx.Eq(so, pt), "the output is not the plaintext")
	}
	vx.Reach("decrypted")
}

// H_C30_bad: unusable arguments.
//
//vx:opt samples=3
//vx:bound unusable key file (missing, directory, malformed in 10 forms, public key, wrong passphrase of 0..2 arbitrary bytes), sender key (missing, directory, malformed in 10 forms) or input (missing, directory, malformed in 10 forms, empty); no arguments; output in a missing directory or over a directory
func H_C30_bad() {
	vx.Scratch()
	sks, pks := mkKeys("k", 2)
	must(pks[1].Serialize("sender.pub", "", false), "Serialize failed")
	put("in", encrypt([]byte("hello"), 4, sks[1], pks[0]))
	keyFile(0, sks[0], "key", "")
	out := "out"
	key, spk, in := "key", "sender.pub", "in"
	pass := []string{"--no-password"}
	bad := true
	some := []string{"nope", ".", "nope/x", "bad"}
	switch vx.Choose("how", 6) {
	case 0:
		key = append(some, "sender.pub")[vx.Choose("key", 5)]
	case 1:
		spk = append(some, "key")[vx.Choose("spk", 5)]
	case 2:
		in = append(some, "empty")[vx.Choose("in", 5)]
		put("empty", nil)
	case 3:
		p1, p2 := text("p1", vx.Choose("n1", 3)), text("p2", vx.Choose("n2", 3))
		keyFile(1, sks[0], "key", p1)
		os.Setenv("PW", p2)
		pass = []string{"-E", "PW"}
		bad = !vx.EqStr(p1, p2)
	case 4:
		out = []string{".", "nope/x", "in/x"}[vx.Choose("out", 3)]
	case 5:
		key = ""
	}
	if key == "bad" || spk == "bad" || in == "bad" {
		put("bad", []byte(badDocs[vx.Choose("doc", len(badDocs))]))
	}
	exists := out == "out" && vx.Choose("exists", 2) == 1
	args := append([]string{"decrypt", "-o", out, "-v", spk}, pass...)
	if exists {
		put(out, []byte("old"))
		args = append(args, "--overwrite")
	}
	if key != "" {
		args = append(args, key, in)
	}
	before := vx.Listing()
	c, so, _ := vx.RunTool(nil, args...)
	vx.Assert((c != 0) == bad, "the exit status of decrypt is wrong")
	vx.Assert(len(so) == 0, "decrypt writes to stdout")
	if bad {
		vx.Assert(vx.Listing() == before, "a failed decrypt leaves files behind")
		if exists {
			vx.Assert(vx.Eq(get(out), []byte("old")), "a failed decrypt changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	vx.Assert(vx.Eq(get(out), []byte("hello")), "the output file is not the plaintext")
	vx.Reach("decrypted")
}
