package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

// pairOK checks that the two files hold keys that belong together.
func pairOK(prefix, pw string, msg string) *sign.PrivateKey {
	sk, err := sign.ReadPrivateKey(prefix+".key", pwOf([]byte(pw)))
	vx.Assert(err == nil, msg+": the private key does not read back")
	pk, err := sign.ReadPublicKey(prefix + ".pub")
	vx.Assert(err == nil, msg+": the public key does not read back")
	vx.Assert(vx.Eq(sk.PublicKey().Pk, pk.Pk), msg+": the keys do not belong together")
	vx.Assert(vx.Eq(sk.PublicKey().Hash(), pk.Hash()), msg+": the key hashes differ")
	st, err := os.Stat(prefix + ".key")
	vx.Assert(err == nil && st.Mode()&0077 == 0, msg+": the private key is accessible to others")
	return sk
}

// H_C34_generate: success means a complete protected pair.
//
//vx:opt samples=4
//vx:bound 5 prefix forms, with and without comment, no passphrase or one of 0..2 arbitrary bytes from the environment; either or both files existing with arbitrary content, overwriting requested or not; every single failure of create, write, sync, close, rename, and every kill between or within these
func H_C34_generate() {
	vx.Scratch()
	os.Mkdir("d", 0755)
	prefix := []string{"k", "./k", "d/k", "k.key", "a b"}[vx.Choose("prefix", 5)]
	args := []string{"generate"}
	pw := ""
	if vx.Choose("nopw", 2) == 1 {
		args = append(args, "--no-password")
	} else {
		pw = text("pw", vx.Choose("npw", 3))
		os.Setenv("PW", pw)
		args = append(args, "-E", "PW")
	}
	if vx.Choose("comment", 2) == 1 {
		args = append(args, "-c", "my: key")
	}
	force := vx.Choose("force", 2) == 1
	if force {
		args = append(args, "--overwrite")
	}
	ex := vx.Choose("exists", 4)
	exKey, exPub := ex&1 != 0, ex&2 != 0
	oldKey, oldPub := vx.Bytes("oldkey", 2), vx.Bytes("oldpub", 3)
	if exKey {
		put(prefix+".key", oldKey)
	}
	if exPub {
		put(prefix+".pub", oldPub)
	}
	before := vx.Listing()
	killed := vx.Choose("kill", 2) == 1
	if killed {
		vx.Arm(kills)
	} else {
		vx.Arm(allFaults)
	}
	c, _, _ := vx.RunTool(nil, append(args, prefix)...)
	fired := vx.Disarm()
	vx.Assert((c == 0) == (!fired && (force || ex == 0)), "the exit status of generate is wrong")
	if c == 0 {
		want := 2
		if exKey {
			want--
		}
		if exPub {
			want--
		}
		vx.Assert(vx.Listing() == before+want, "generate leaves other files behind")
		sk := pairOK(prefix, pw, "the generated pair")
		_, err := sign.ReadPrivateKey(prefix+".key", pwOf(append([]byte(pw), 'x')))
		vx.Assert(err != nil, "the private key opens with another passphrase")
		// it is a working pair
		vx.Assert(vx.Eq(sk.Sk[32:], sk.PublicKey().Pk), "the private key is not consistent")
		vx.Reach("generated")
		return
	}
	if !force && ex != 0 {
		vx.Assert(vx.Listing() == before, "a refused generate creates files")
	}
	whole := func(nm string, exists bool, old []byte) bool {
		if !vx.Exists(nm) {
			vx.Assert(!exists, "an existing file disappears")
			return false
		}
		b := get(nm)
		if exists && vx.Eq(b, old) {
			return false
		}
		vx.Assert(force || !exists, "an existing file is changed without being asked")
		return true
	}
	n := 0
	if whole(prefix+".key", exKey, oldKey) {
		_, err := sign.ReadPrivateKey(prefix+".key", pwOf([]byte(pw)))
		vx.Assert(err == nil, "a partial private key file is left behind")
		if !exKey {
			n++
		}
	}
	if whole(prefix+".pub", exPub, oldPub) {
		_, err := sign.ReadPublicKey(prefix + ".pub")
		vx.Assert(err == nil, "a partial public key file is left behind")
		if !exPub {
			n++
		}
	}
	if !killed {
		vx.Assert(vx.Listing() == before+n, "a failed generate leaves other files behind")
	}
	vx.Reach("refused")
}

// H_C34_twice: two key pairs are different, and nothing else is touched.
//
//vx:opt samples=2
//vx:bound two generated pairs under different or the same prefix (with and without overwriting), missing directory, no prefix, no way to ask for a passphrase
func H_C34_twice() {
	vx.Scratch()
	c, _, _ := vx.RunTool(nil, "generate", "--no-password", "a")
	vx.Assert(c == 0, "generate fails")
	s1 := pairOK("a", "", "the first pair")
	k, p := get("a.key"), get("a.pub")
	switch vx.Choose("second", 6) {
	case 0:
		c, _, _ = vx.RunTool(nil, "generate", "--no-password", "b")
		vx.Assert(c == 0, "generate fails")
		s2 := pairOK("b", "", "the second pair")
		vx.Assert(!vx.Eq(s1.Sk, s2.Sk), "two generated keys are the same")
		vx.Assert(vx.And(vx.Eq(get("a.key"), k), vx.Eq(get("a.pub"), p)), "another pair is changed")
		vx.Reach("other")
	case 1:
		c, _, _ = vx.RunTool(nil, "generate", "--no-password", "a")
		vx.Assert(c != 0 && vx.Listing() == 2, "an existing pair is accepted without overwriting")
		vx.Assert(vx.And(vx.Eq(get("a.key"), k), vx.Eq(get("a.pub"), p)), "an existing pair is changed")
	case 2:
		c, _, _ = vx.RunTool(nil, "generate", "--no-password", "--overwrite", "a")
		vx.Assert(c == 0 && vx.Listing() == 2, "generate fails to overwrite")
		s2 := pairOK("a", "", "the second pair")
		vx.Assert(!vx.Eq(s1.Sk, s2.Sk), "two generated keys are the same")
	case 3:
		c, _, _ = vx.RunTool(nil, "generate", "--no-password", "nodir/a")
		vx.Assert(c != 0 && vx.Listing() == 2, "generate into nowhere succeeds")
	case 4:
		c, _, _ = vx.RunTool(nil, "generate", "--no-password")
		vx.Assert(c != 0 && vx.Listing() == 2, "generate without a prefix succeeds")
	case 5:
		c, _, _ = vx.RunTool(nil, "generate", "b")
		vx.Assert(c != 0 && vx.Listing() == 2, "generate without a passphrase succeeds")
	}
	vx.Reach("ok")
}
