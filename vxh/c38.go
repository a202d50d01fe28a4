package vxh

import (
	"os"
	"strings"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

var commands = []string{"generate", "sign", "verify", "encrypt", "decrypt", "help"}

// bench is a directory in which every command can do something.
type bench struct {
	sk          *sign.PrivateKey
	pk          *sign.PublicKey
	pt, enc     []byte
	docs        map[string][]byte
	listing     int
	names       []string
	unsignedEnc bool
}

func newBench() *bench {
	os.Setenv("HOME", vx.Scratch())
	b := &bench{docs: map[string][]byte{}}
	b.sk, b.pk = mkKey("k")
	b.pt = vx.Bytes("pt", 2)
	b.enc = encrypt(b.pt, 4, nil, b.pk)
	keyFile(0, b.sk, "key", "")
	must(b.pk.Serialize("pub", "", false), "Serialize failed")
	put("f", b.pt)
	s, err := b.sk.SignFile("f")
	must(err, "SignFile failed")
	sg, err := s.MarshalBinary("")
	must(err, "MarshalBinary failed")
	put("sig", sg)
	put("enc", b.enc)
	b.names = []string{"key", "pub", "f", "sig", "enc"}
	for _, n := range b.names {
		b.docs[n] = get(n)
	}
	b.listing = vx.Listing()
	return b
}

// args are good arguments of a command.
func (b *bench) args(cmd int) []string {
	switch commands[cmd] {
	case "generate":
		return []string{"--no-password", "new"}
	case "sign":
		return []string{"--no-password", "key", "f"}
	case "verify":
		return []string{"pub", "sig", "f"}
	case "encrypt":
		return []string{"pub", "f"}
	case "decrypt":
		return []string{"--no-password", "key", "enc"}
	}
	return nil
}

// kept checks that the files are as before and there are n more.
func (b *bench) kept(n int, msg string) {
	for _, x := range b.names {
		vx.Assert(vx.Eq(get(x), b.docs[x]), msg+" changes a file")
	}
	vx.Assert(vx.Listing() == b.listing+n, msg+" makes or removes other files")
}

// did checks that the command did its work and nothing else.
func (b *bench) did(cmd, c int, so []byte) {
	name := commands[cmd]
	vx.Assert(c == 0, name+" is not run by its name")
	switch name {
	case "generate":
		b.kept(2, name)
		pairOK("new", "", name)
		vx.Assert(len(so) == 0, name+" writes to stdout")
	case "sign":
		b.kept(1, name)
		goodSig(get("f.sig"), b.pk, "f", name)
		vx.Assert(len(so) == 0, name+" writes to stdout")
	case "verify":
		b.kept(0, name)
		vx.Assert(!strings.Contains(string(so), "Usage"), name+" only prints a usage")
	case "encrypt":
		b.kept(0, name)
		goodEnc(so, b.pt, nil, []*sign.PrivateKey{b.sk}, name)
	case "decrypt":
		b.kept(0, name)
		vx.Assert(vx.Eq(so, b.pt), name+" writes something else")
	case "help":
		b.kept(0, name)
		vx.Assert(strings.Contains(string(so), "Usage"), name+" prints no usage")
	}
}

// H_C38_names: every command runs by its name and every prefix of it.
//
//vx:opt samples=4
//vx:bound every prefix of one or more letters of the six commands, in every mix of upper and lower case, with and without --debug; also a verify that fails
func H_C38_names() {
	b := newBench()
	cmd := vx.Choose("cmd", len(commands))
	name := commands[cmd]
	n := 1 + vx.Choose("len", len(name))
	w := []byte(name[:n])
	for i := range w {
		w[i] = vx.IteByte(vx.Bool("upper"), w[i]-32, w[i])
	}
	var args []string
	debug := vx.Choose("debug", 2) == 1
	if debug {
		args = append(args, "--debug")
	}
	args = append(args, string(w))
	args = append(args, b.args(cmd)...)
	if name == "verify" && vx.Choose("bad", 2) == 1 {
		b.docs["f"] = vx.Bytes("pt2", 3)
		put("f", b.docs["f"])
		c, so, _ := vx.RunTool(nil, args...)
		vx.Assert(c != 0, "a failed verify has status 0")
		vx.Assert(len(so) == 0 || !strings.Contains(string(so), "Usage"), "verify only prints a usage")
		b.kept(0, name)
		vx.Reach("bad")
		return
	}
	c, so, _ := vx.RunTool(nil, args...)
	b.did(cmd, c, so)
	vx.Reach(name)
}

// isPrefixOf tells whether w (of n bytes) is a prefix of name, ignoring case.
func isPrefixOf(w []byte, name string) bool {
	if len(w) == 0 || len(w) > len(name) {
		return false
	}
	eq := true
	for i := range w {
		eq = vx.And(eq, vx.Or(w[i] == name[i], w[i] == name[i]-32))
	}
	return eq
}

// H_C38_other: any other word runs nothing.
//
//vx:opt samples=4
//vx:bound every word of 0..9 characters (ASCII, not starting with '-') which is not a prefix of a command, followed by good arguments of any of the commands, with and without --debug; also words that continue a command by 1..2 arbitrary characters, or have one arbitrary character put in front or in the middle
func H_C38_other() {
	b := newBench()
	cmd := vx.Choose("args", len(commands))
	var w []byte
	switch vx.Choose("kind", 3) {
	case 0:
		w = vx.Bytes("w", vx.Choose("n", 10))
	case 1:
		n := commands[vx.Choose("cmd", len(commands))]
		w = cat([]byte(n), vx.Bytes("more", 1+vx.Choose("nmore", 2)))
	case 2:
		n := commands[vx.Choose("cmd", len(commands))]
		k := vx.Choose("at", len(n))
		w = cat([]byte(n[:k]), vx.Bytes("ins", 1), []byte(n[k:]))
	}
	for i, x := range w {
		vx.Assume(x != 0 && x < 0x80)
		if i == 0 {
			vx.Assume(x != '-')
		}
	}
	for _, n := range commands {
		vx.Assume(!isPrefixOf(w, n))
	}
	var args []string
	if vx.Choose("debug", 2) == 1 {
		args = append(args, "--debug")
	}
	args = append(args, string(w))
	args = append(args, b.args(cmd)...)
	c, so, _ := vx.RunTool(nil, args...)
	vx.Assert(c != 0, "an unknown command has status 0")
	vx.Assert(len(so) == 0, "an unknown command writes to stdout")
	b.kept(0, "an unknown command")
	vx.Reach("refused")
}

// moreOpts are further options of each command.
var moreOpts = [][]string{
	{"--overwrite", "-c", "words", "-E", "VXPW"},
	{"--overwrite", "-o", "out", "-E", "VXPW"},
	{"-q"},
	{"--overwrite", "-o", "out", "-s", "key", "-E", "VXPW", "-B", "4k"},
	{"-t", "--overwrite", "-o", "out", "-v", "pub", "-E", "VXPW"},
	nil,
}

// H_C38_args: missing arguments are refused.
//
//vx:opt samples=2
//vx:bound no command at all; every command with every number of good arguments below the required one, with none, --no-password or all other options of the command (--overwrite, -q, -t, -c, -o, -E, -s, -v, -B) before them; standard input with data
func H_C38_args() {
	b := newBench()
	cmd := vx.Choose("cmd", len(commands))
	var args []string
	if vx.Choose("debug", 2) == 1 {
		args = append(args, "--debug")
	}
	if commands[cmd] == "help" {
		if vx.Choose("dashes", 2) == 1 {
			args = append(args, "--")
		}
	} else {
		var opts, pos []string
		for _, a := range b.args(cmd) {
			if a[0] == '-' {
				opts = append(opts, a)
			} else {
				pos = append(pos, a)
			}
		}
		args = append(args, commands[cmd])
		switch vx.Choose("opts", 3) {
		case 1:
			args = append(args, opts...)
		case 2:
			args = append(args, moreOpts[cmd]...)
		}
		if vx.Choose("dashes", 2) == 1 {
			args = append(args, "--")
		}
		req := len(pos)
		if commands[cmd] == "decrypt" {
			req = 1 // the input is optional
		}
		args = append(args, pos[:vx.Choose("n", req)]...)
	}
	c, so, _ := vx.RunTool(b.enc, args...)
	vx.Assert(c != 0, "missing arguments have status 0")
	vx.Assert(len(so) == 0, "missing arguments write to stdout")
	b.kept(0, "a command without its arguments")
	vx.Reach("refused")
}

// H_C38_flags: the global options.
//
//vx:opt samples=2
//vx:bound -h, --help, -v, --version in front of any command with its arguments, or alone: status 0 and nothing else happens; unknown options of 1..2 arbitrary letters in front of the command: status not 0 and nothing happens
func H_C38_flags() {
	b := newBench()
	cmd := vx.Choose("cmd", len(commands)+1)
	var rest []string
	if cmd < len(commands) {
		rest = append([]string{commands[cmd]}, b.args(cmd)...)
	}
	k := vx.Choose("flag", 5)
	if k < 4 {
		c, so, _ := vx.RunTool(nil, append([]string{[]string{"-h", "--help", "-v", "--version"}[k]}, rest...)...)
		vx.Assert(c == 0, "the status is not 0")
		vx.Assert(len(so) > 0, "nothing is printed")
		b.kept(0, "a global option")
		vx.Reach("shown")
		return
	}
	w := vx.Bytes("w", 1+vx.Choose("n", 2))
	for _, x := range w {
		vx.Assume(vx.And(x >= 'a', x <= 'z', x != 'h', x != 'v'))
	}
	f := "-" + string(w)
	if vx.Choose("long", 2) == 1 {
		// long options can be abbreviated
		vx.Assume(w[0] != 'd')
		f = "--" + string(w)
	}
	c, _, _ := vx.RunTool(nil, append([]string{f}, rest...)...)
	vx.Assert(c != 0, "an unknown option has status 0")
	b.kept(0, "an unknown option")
	vx.Reach("refused")
}

// options of the commands.
var options = [][]string{
	{"help", "no-password", "comment", "env-password", "overwrite"},
	{"help", "no-password", "env-password", "output", "overwrite"},
	{"help", "quiet"},
	{"help", "outfile", "sign", "no-password", "env-password", "block-size", "overwrite"},
	{"help", "outfile", "no-password", "env-password", "verify-sender", "test", "overwrite"},
}
var shorts = []string{"hcE", "hEo", "hq", "hosEB", "hoEvt"}

// with puts a word before the positional arguments, between them or at the end.
func with(args []string, w string) []string {
	at := vx.Choose("at", len(args)+1)
	var out []string
	out = append(out, args[:at]...)
	out = append(out, w)
	return append(out, args[at:]...)
}

// unknown is an option that the command does not have.
func unknown(cmd int) string {
	if vx.Choose("long", 2) == 0 {
		x := vx.Byte("x")
		vx.Assume(vx.Or(vx.And(x >= 'a', x <= 'z'), vx.And(x >= 'A', x <= 'Z')))
		for _, k := range []byte(shorts[cmd]) {
			vx.Assume(x != k)
		}
		return "-" + string([]byte{x})
	}
	w := vx.Bytes("w", 1+vx.Choose("n", 3))
	for _, x := range w {
		vx.Assume(vx.And(x >= 'a', x <= 'z'))
	}
	for _, o := range options[cmd] {
		vx.Assume(!isPrefixOf(w, o))
	}
	return "--" + string(w)
}

// badOption runs a command with an option it does not have.
func badOption(cmd int) {
	b := newBench()
	w := unknown(cmd)
	c, so, _ := vx.RunTool(nil, append([]string{commands[cmd]}, with(b.args(cmd), w)...)...)
	vx.Assert(c != 0, commands[cmd]+" with an unknown option has status 0")
	vx.Assert(!vx.Eq(so, b.pt), commands[cmd]+" with an unknown option does its work")
	b.kept(0, commands[cmd]+" with an unknown option")
	vx.Reach("refused")
}

// H_C38_options: an option that the command does not have is refused.
//
//vx:opt samples=2
//vx:bound every one-letter option and every long option of 1..3 letters that the command does not have, at every place among its good arguments, for each of the five commands
func H_C38_options() {
	badOption(vx.Choose("cmd", 5))
}

// H_C38_help: asking a command for help does nothing else.
//
//vx:opt samples=2
//vx:bound -h, --help and --he at every place among the good arguments, or alone, for each of the five commands
func H_C38_help() {
	b := newBench()
	cmd := vx.Choose("cmd", 5)
	w := []string{"-h", "--help", "--he"}[vx.Choose("word", 3)]
	var args []string
	if vx.Choose("alone", 2) == 0 {
		args = b.args(cmd)
	}
	c, so, _ := vx.RunTool(nil, append([]string{commands[cmd]}, with(args, w)...)...)
	vx.Assert(c == 0, "help has a status other than 0")
	vx.Assert(strings.Contains(string(so), commands[cmd]), "help shows nothing about the command")
	b.kept(0, commands[cmd]+" -h")
	vx.Reach("shown")
}

// H_C29_options: an encrypt that is asked for what it cannot do fails.
//
//vx:opt samples=2
//vx:bound every one-letter option and every long option of 1..3 letters that encrypt does not have, at every place among its good arguments
func H_C29_options() {
	badOption(3)
}

// H_C30_options: a decrypt that is asked for what it cannot do fails.
//
//vx:opt samples=2
//vx:bound every one-letter option and every long option of 1..3 letters that decrypt does not have, at every place among its good arguments
func H_C30_options() {
	badOption(4)
}
