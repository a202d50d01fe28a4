package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
)

// told compares what two runs that differ in secrets only tell about them.
type told struct {
	c    []int
	o, e [][]byte
}

func (t *told) run(in []byte, args ...string) {
	c, o, e := vx.RunTool(in, args...)
	t.c, t.o, t.e = append(t.c, c), append(t.o, o), append(t.e, e)
}

func (t *told) same(result bool) {
	vx.Assert(t.c[0] == t.c[1], "the exit status depends on a secret")
	vx.Assert(vx.Eq(t.e[0], t.e[1]), "messages depend on a secret")
	if !result {
		vx.Assert(vx.Eq(t.o[0], t.o[1]), "standard output depends on a secret")
	}
}

// H_C45_pass: messages do not depend on a passphrase.
//
//vx:opt samples=2
//vx:bound generate, sign, encrypt with a signing key and decrypt with two right or two wrong passphrases of 1..3 arbitrary characters from the environment, new or existing output
func H_C45_pass() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sks, pks := mkKeys("k", 2)
	right := vx.Choose("right", 2) == 1
	must(pks[1].Serialize("rx.pub", "", false), "Serialize failed")
	put("in", []byte("abc"))
	put("enc", encrypt([]byte("abc"), 4, nil, pks[0]))
	out := vx.Choose("out", 2) == 1
	what := vx.Choose("what", 4)
	t := &told{}
	for i, nm := range []string{"p", "q"} {
		pw := text(nm, 1+vx.Choose("n"+nm, 3))
		kp := pw
		if !right {
			kp = "otherpw"
			vx.Assume(!vx.EqStr(kp, pw))
		}
		keyFile(1, sks[0], "key", kp)
		os.Setenv("PW", pw)
		var args []string
		switch what {
		case 0:
			args = []string{"generate", "-E", "PW", "new"}
		case 1:
			args = []string{"sign", "-E", "PW", "-o", "o", "key", "in"}
		case 2:
			args = []string{"encrypt", "-E", "PW", "-s", "key", "-o", "o", "rx.pub", "in"}
		case 3:
			args = []string{"decrypt", "-E", "PW", "-o", "o", "key", "enc"}
		}
		for _, f := range []string{"o", "new.key", "new.pub"} {
			os.Remove(f)
			if out {
				put(f, []byte("x"))
			}
		}
		t.run(nil, args...)
		if i == 0 && !out && (right || what == 0) {
			vx.Assert(t.c[0] == 0, "command fails")
			vx.Reach("done")
		}
	}
	t.same(false)
	vx.Reach("ok")
}

// H_C45_keys: messages do not depend on a private key or a plaintext.
//
//vx:opt samples=2
//vx:bound sign, encrypt with a signing key, decrypt (to a file, to standard output, in test mode) with two arbitrary private keys (sigtool form or OpenSSH), or of two arbitrary plaintexts of 3 bytes; the encrypted file intact, for others, cut, with its last block or its trailer changed, or with the sender's key not given or another one
func H_C45_keys() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sks, pks := mkKeys("k", 4)
	must(pks[3].Serialize("other.pub", "", false), "Serialize failed")
	form := 2 * vx.Choose("form", 2)
	what := vx.Choose("what", 3)
	how, where, signed := 0, 0, false
	if what == 2 {
		how, where = vx.Choose("how", 7), vx.Choose("where", 3)
		signed = how >= 4 || vx.Choose("signed", 2) == 1
	}
	sender := "other.pub"
	if how == 5 {
		must(pks[2].Serialize("third.pub", "", false), "Serialize failed")
		sender = "third.pub"
	}
	t := &told{}
	for i, nm := range []string{"a", "b"} {
		pt := vx.Bytes(nm, 3)
		put("in", pt)
		keyFile(form, sks[i], "key", "")
		os.Remove("o")
		switch what {
		case 0:
			t.run(nil, "sign", "--no-password", "-o", "o", "key", "in")
		case 1:
			t.run(nil, "encrypt", "--no-password", "-s", "key", "-o", "o", "other.pub", "in")
		case 2:
			rx := pks[i]
			if how == 1 {
				rx = pks[2]
			}
			args := []string{"decrypt", "--no-password"}
			enc := encrypt(pt, 2, nil, rx)
			if signed {
				if how != 6 {
					args = append(args, "-v", sender)
				}
				enc = encrypt(pt, 2, sks[3], rx)
			}
			n := len(enc)
			switch how {
			case 2:
				enc = enc[:n-70]
			case 3:
				enc[n-65] ^= 1
			case 4:
				enc[n-1] ^= 1
			}
			put("enc", enc)
			switch where {
			case 0:
				args = append(args, "-o", "o")
			case 1:
				args = append(args, "--test")
			}
			t.run(nil, append(args, "key", "enc")...)
		}
		if how == 0 {
			vx.Assert(t.c[i] == 0, "command fails")
			vx.Reach("done")
		} else {
			vx.Assert(t.c[i] != 0, "a bad file is accepted")
			vx.Reach("failed")
		}
	}
	t.same(what == 2 && where == 2)
	vx.Reach("ok")
}

// H_C45_bad: neither do messages about malformed private keys.
//
//vx:opt samples=2
//vx:bound an OpenSSH key with two arbitrary private keys in it and different check words, changed padding, another key type, a key of 63 bytes, several keys, or cut; a sigtool key whose encrypted key holds 63 bytes or whose encrypted key or salt are no base64
func H_C45_bad() {
	vx.Scratch()
	sks, _ := mkKeys("k", 2)
	put("in", []byte("abc"))
	put("enc", make([]byte, 200))
	what := vx.Choose("what", 9)
	cmd := vx.Choose("cmd", 2)
	salt := make([]byte, 32)
	t := &told{}
	for i := range sks {
		o := newOssh(sks[i].Sk)
		switch what {
		case 0:
			o.c2 = []byte("abce")
		case 2:
			o.ktype = []byte("ssh-ed25518")
		case 3:
			o.priv = o.priv[:63]
		case 4:
			o.nkeys = be32(2)
		}
		o.seal(8)
		if what == 1 {
			o.inner[len(o.inner)-1] ^= 1
		}
		doc := o.doc()
		esk := b64(seal(sks[i].Sk, salt, nil, 1024, 1, 1))
		tail := "\nsalt: " + b64(salt) + "\nalgo: scrypt-sha256\nZ: 1024\nr: 1\np: 1\n"
		switch what {
		case 5:
			o.inner = o.inner[:len(o.inner)-40]
			doc = o.doc()
		case 6:
			doc = []byte("esk: " + b64(seal(sks[i].Sk[:63], salt, nil, 1024, 1, 1)) + tail)
		case 7:
			doc = []byte("esk: \"" + esk + "!\"" + tail)
		case 8:
			doc = []byte("esk: " + esk + "\nsalt: \"!\"\nalgo: scrypt-sha256\nZ: 1024\nr: 1\np: 1\n")
		}
		put("key", doc)
		if cmd == 0 {
			t.run(nil, "sign", "--no-password", "key", "in")
		} else {
			t.run(nil, "decrypt", "--no-password", "key", "enc")
		}
		vx.Assert(t.c[i] != 0, "a malformed private key is accepted")
	}
	t.same(false)
	vx.Reach("ok")
}

// H_C45_typed: nor on passphrases that are typed.
//
//vx:opt samples=2
//vx:bound generate, sign, encrypt with a signing key and decrypt with passphrases of 1..2 arbitrary characters typed at a terminal: right, wrong, or (generate) confirmed wrongly once or twice
func H_C45_typed() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sks, pks := mkKeys("k", 2)
	must(pks[1].Serialize("rx.pub", "", false), "Serialize failed")
	put("in", []byte("abc"))
	put("enc", encrypt([]byte("abc"), 4, nil, pks[0]))
	what := vx.Choose("what", 4)
	wrong := vx.Choose("wrong", 3)
	t := &told{}
	for i, nm := range []string{"p", "q"} {
		pw := typedText(nm, 1+vx.Choose("n"+nm, 2))
		kp := pw
		lines := [][]byte{pw}
		if wrong > 0 {
			kp = []byte("other")
		}
		if what == 0 {
			for k := 0; k < wrong; k++ {
				lines = append(lines, append([]byte{'x'}, pw...), pw)
			}
			if wrong < 2 {
				lines = append(lines, pw)
			}
		}
		keyFile(1, sks[0], "key", string(kp))
		var args []string
		switch what {
		case 0:
			args = []string{"generate", "new"}
		case 1:
			args = []string{"sign", "-o", "o", "key", "in"}
		case 2:
			args = []string{"encrypt", "-s", "key", "-o", "o", "rx.pub", "in"}
		case 3:
			args = []string{"decrypt", "-o", "o", "key", "enc"}
		}
		for _, f := range []string{"o", "new.key", "new.pub"} {
			os.Remove(f)
		}
		vx.Type(lines...)
		t.run(nil, args...)
		if i == 0 && wrong == 0 {
			vx.Assert(t.c[0] == 0, "command fails")
			vx.Reach("done")
		}
		if wrong == 2 || wrong == 1 && what > 0 {
			vx.Assert(t.c[i] != 0, "a wrong passphrase is accepted")
			vx.Reach("refused")
		}
	}
	t.same(false)
	vx.Reach("ok")
}
