package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
)

var akComments = []string{"me@host", "me@host2", "me@hos", "xme@host", "Me@host", "me@host laptop", "x me@host", "me", "host", "", "me@@host", "you@host"}

// H_C33_lookup: a name selects the entry with exactly that comment.
//
//vx:opt samples=3
//vx:bound authorized_keys with 2 entries (thorough 3) with arbitrary keys and comments out of 12 around the looked-up name, in any order, with and without options and other lines; 6 looked-up names; alone or together with a key file; missing file or directory
func H_C33_lookup() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	n := 2
	if vx.Thorough() {
		n = 3
	}
	sks, pks := mkKeys("k", n+1)
	want := []string{"me@host", "me@host2", "me@@host", "you@host", "nobody@host", "me@"}[vx.Choose("want", 6)]
	hit := -1
	if vx.Choose("file", 2) > 0 {
		ak := "# me@host\n\n"
		for i := 0; i < n; i++ {
			c := akComments[vx.Choose("c", len(akComments))]
			if c == want {
				// two entries for one name: not specified
				vx.Assume(hit < 0)
				hit = i
			}
			if i == 0 && vx.Choose("opt", 2) == 1 {
				ak += "from=\"me@host\",command=\"x me@host2\" "
			}
			ak += "ssh-ed25519 " + b64(edBlob(pks[i].Pk)) + " " + c + "\n"
			if i == 0 {
				ak += "ssh-rsa " + b64(cat(sshStr([]byte("ssh-rsa")), sshStr([]byte{1, 0, 1}), sshStr([]byte{1}))) + " " + want + "\nbad line " + want + "\n"
			}
		}
		os.Mkdir(".ssh", 0700)
		put(".ssh/authorized_keys", []byte(ak))
	}
	pt := vx.Bytes("pt", 3)
	put("in", pt)
	args := []string{"encrypt", "-B", "4", "-o", "out"}
	extra := vx.Choose("extra", 3)
	if extra > 0 {
		must(pks[n].Serialize("pub", want, false), "Serialize failed")
	}
	switch extra {
	case 0:
		args = append(args, want, "in")
	case 1:
		args = append(args, "pub", want, "in")
	case 2:
		args = append(args, want, "pub", "in")
	}
	before := vx.Listing()
	c, so, _ := vx.RunTool(nil, args...)
	vx.Assert(len(so) == 0, "encrypt writes to stdout")
	if hit < 0 {
		vx.Assert(c != 0, "an unknown name is accepted")
		vx.Assert(vx.Listing() == before, "an unknown name leaves files behind")
		vx.Reach("unknown")
		return
	}
	vx.Assert(c == 0, "a known name is refused")
	enc := get("out")
	for i := range sks {
		b, _, err := decryptAll(enc, cloneSK(sks[i]), nil)
		if i == hit || i == n && extra > 0 {
			vx.Assert(err == nil && vx.Eq(b, pt), "the named recipient cannot decrypt")
		} else {
			vx.Assert(err != nil, "somebody else can decrypt")
		}
	}
	vx.Reach("found")
}

// H_C33_any: arbitrary comments and names.
//
//vx:opt samples=2
//vx:bound 2 entries with arbitrary keys and comments of 3..4 arbitrary printable bytes with one '@' inside, looked-up name of 3..4 such bytes
func H_C33_any() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sks, pks := mkKeys("k", 2)
	name := func(nm string) string {
		b := vx.Bytes(nm, 2+vx.Choose(nm+".n", 2))
		for _, x := range b {
			vx.Assume(vx.And(x > ' ', x < 0x7f))
		}
		vx.Assume(vx.And(b[0] != '-', b[0] != '@'))
		return string(b[:1]) + "@" + string(b[1:])
	}
	c0, c1, w := name("c0"), name("c1"), name("w")
	vx.Assume(!vx.EqStr(c0, c1))
	os.Mkdir(".ssh", 0700)
	put(".ssh/authorized_keys", []byte("ssh-ed25519 "+b64(edBlob(pks[0].Pk))+" "+c0+"\nssh-ed25519 "+b64(edBlob(pks[1].Pk))+" "+c1+"\n"))
	put("in", []byte("hello"))
	c, _, _ := vx.RunTool(nil, "encrypt", "-B", "4", "-o", "out", w, "in")
	h0, h1 := vx.EqStr(w, c0), vx.EqStr(w, c1)
	vx.Assert((c == 0) == vx.Or(h0, h1), "the exit status for a name is wrong")
	if c != 0 {
		vx.Assert(!vx.Exists("out"), "an unknown name leaves files behind")
		vx.Reach("unknown")
		return
	}
	enc := get("out")
	_, _, e0 := decryptAll(enc, cloneSK(sks[0]), nil)
	_, _, e1 := decryptAll(enc, cloneSK(sks[1]), nil)
	vx.Assert((e0 == nil) == h0, "the file is (not) encrypted to the first entry")
	vx.Assert((e1 == nil) == h1, "the file is (not) encrypted to the second entry")
	vx.Reach("found")
}

// H_C33_faults: a file that cannot be read is not an empty one.
//
//vx:opt samples=2
//vx:bound one entry, every single failure to open or read; authorized_keys being a directory; no home directory
func H_C33_faults() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sk, pk := mkKey("k")
	os.Mkdir(".ssh", 0700)
	put("in", []byte("hello"))
	kind := vx.Choose("kind", 3)
	switch kind {
	case 0, 2:
		put(".ssh/authorized_keys", []byte("ssh-ed25519 "+b64(edBlob(pk.Pk))+" me@host\n"))
	case 1:
		os.Mkdir(".ssh/authorized_keys", 0755)
	}
	if kind == 2 {
		os.Setenv("HOME", "")
	}
	before := vx.Listing()
	vx.Arm("open,read")
	c, _, _ := vx.RunTool(nil, "encrypt", "-B", "4", "-o", "out", "me@host", "in")
	fired := vx.Disarm()
	if kind > 0 || fired {
		vx.Assert(c != 0, "an unreadable authorized_keys file is accepted")
		vx.Assert(vx.Listing() == before, "files are left behind")
		vx.Reach("refused")
		return
	}
	vx.Assert(c == 0, "encrypt fails without reason")
	b, _, err := decryptAll(get("out"), cloneSK(sk), nil)
	vx.Assert(err == nil && vx.Eq(b, []byte("hello")), "the named recipient cannot decrypt")
	vx.Reach("found")
}
