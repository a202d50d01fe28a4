package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
)

// H_C32_same: the output is never the input.
//
//vx:opt samples=4
//vx:bound encrypt and decrypt, input of 0..5 arbitrary bytes; input and output named by the same name, ./name, an absolute path, a path through a directory, a symbolic link, a link to a link, or a hard link, in every combination; overwriting requested or not; other existing files as control
func H_C32_same() {
	vx.Scratch()
	os.Setenv("HOME", vx.Scratch())
	sk, pk := mkKey("k")
	pt := vx.Bytes("pt", []int{0, 5}[vx.Choose("npt", 2)])
	data := pt
	dec := vx.Choose("cmd", 2) == 1
	if dec {
		data = encrypt(pt, 4, nil, pk)
	}
	put("real", data)
	os.Mkdir("d", 0755)
	os.Symlink("real", "sym")
	os.Symlink("sym", "sym2")
	if err := os.Link("real", "hard"); err != nil {
		panic(err)
	}
	names := []string{"real", "./real", vx.Scratch() + "/real", "d/../real", "sym", "sym2", "hard"}
	keyFile(0, sk, "key", "")
	must(pk.Serialize("pub", "", false), "Serialize failed")
	put("other", []byte("other"))
	in := names[vx.Choose("in", len(names))]
	out := append(names, "other")[vx.Choose("out", len(names)+1)]
	force := vx.Choose("force", 2) == 1
	args := []string{"encrypt", "-B", "4", "-o", out}
	if dec {
		args = []string{"decrypt", "--no-password", "-o", out}
	}
	if force {
		args = append(args, "--overwrite")
	}
	if dec {
		args = append(args, "key", in)
	} else {
		args = append(args, "pub", in)
	}
	before := vx.Listing()
	c, so, _ := vx.RunTool(nil, args...)
	for _, n := range names {
		vx.Assert(vx.Eq(get(n), data), "the input is replaced under one of its names")
	}
	vx.Assert(vx.Listing() == before, "files are left behind")
	vx.Assert(len(so) == 0, "something is written to stdout")
	if out == "other" {
		vx.Assert((c == 0) == force, "the exit status for another existing output is wrong")
		if !force {
			vx.Assert(vx.Eq(get(out), []byte("other")), "an existing file is replaced without being asked")
		}
		vx.Reach("other")
		return
	}
	vx.Assert(c != 0, "the input is accepted as output")
	vx.Reach("refused")
}
