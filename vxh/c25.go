package vxh

import (
	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

type akEntry struct {
	raw     []byte
	comment string
}

// akLine makes a line of an authorized_keys file; ok tells whether it is an entry.
func akLine(kind int, raw []byte, c string) (line string, e akEntry, ok bool) {
	k := b64(edBlob(raw))
	rsa := b64(cat(sshStr([]byte("ssh-rsa")), sshStr([]byte{1, 0, 1}), sshStr(raw)))
	e = akEntry{raw, c}
	switch kind {
	case 0:
		return "ssh-ed25519 " + k + " " + c, e, true
	case 1:
		return "ssh-ed25519 " + k, akEntry{raw, ""}, true
	case 2:
		return "  ssh-ed25519\t" + k + " \t " + c + " \t", e, true
	case 3:
		return "ssh-ed25519 " + k + " " + c + " two  words # x", akEntry{raw, c + " two  words # x"}, true
	case 4:
		return "no-pty,no-X11-forwarding ssh-ed25519 " + k + " " + c, e, true
	case 5:
		return "from=\"a b,c\",command=\"echo \\\"x y\\\" # z\" \t ssh-ed25519 " + k + " " + c, e, true
	case 6:
		return "environment=\"A=ssh-rsa " + rsa + " x\" ssh-ed25519 " + k + " " + c, e, true
	case 7:
		return "command=\"ssh-ed25519 " + b64(edBlob(make([]byte, 32))) + " evil\" ssh-ed25519 " + k + " " + c, e, true
	case 8:
		return "# ssh-ed25519 " + k + " " + c, e, false
	case 9:
		return "", e, false
	case 10:
		return " \t ", e, false
	case 11:
		return "ssh-rsa " + rsa + " " + c, e, false
	case 12:
		return "ssh-ed25519 " + b64(edBlob(raw)[:50]) + " " + c, e, false
	case 13:
		return "ssh-ed25519 " + b64(append(edBlob(raw), 0)) + " " + c, e, false
	case 14:
		return "ssh-ed25519", e, false
	case 15:
		return "garbage in", e, false
	case 16:
		return "command=\"never closed ssh-ed25519 " + k + " " + c, e, false
	case 17:
		return "no-pty ssh-rsa " + rsa + " " + c, e, false
	case 18:
		return "no-pty ssh-ed25519 !!!! " + c, e, false
	case 19:
		return "  # comment", e, false
	case 20:
		return "ecdsa-sha2-nistp256 " + b64(cat(sshStr([]byte("ecdsa-sha2-nistp256")), sshStr([]byte("nistp256")), sshStr(raw))) + " " + c, e, false
	case 21:
		return "no-pty ", e, false
	case 22:
		return "no-pty   \t ssh-ed25519 " + k + " " + c, e, true
	case 23:
		return "ssh-ed25519\t" + k + "\t" + c, e, true
	case 24:
		return "no-pty\tssh-ed25519\t" + k + "\t" + c + "=", akEntry{raw, c + "="}, true
	case 25:
		b := cat(sshStr([]byte("sk-ssh-ed25519@openssh.com")), sshStr(raw), sshStr([]byte("ssh:")))
		return "sk-ssh-ed25519@openssh.com " + b64(b) + " " + c, e, false
	case 26:
		b := cat(sshStr([]byte("ssh-ed25519-cert-v01@openssh.com")), sshStr(raw), sshStr(raw))
		return "cert-authority ssh-ed25519-cert-v01@openssh.com " + b64(b) + " " + c, e, false
	case 27:
		return "a=\"\",b=\"\\\"\",c ssh-ed25519 " + k + " " + c, e, true
	}
	return "ssh-ed25519 " + k + " " + c + "\rrest", e, true
}

const akKinds = 29

func checkAK(file string, want []akEntry) {
	got, err := sign.ParseAuthorizedKeys([]byte(file))
	must(err, "ParseAuthorizedKeys fails")
	vx.Assert(len(got) == len(want), "wrong number of keys")
	for i := range want {
		isPK(got[i], want[i].raw, "entry")
		vx.Assert(vx.EqStr(got[i].Comment, want[i].comment), "comment of an entry differs")
	}
}

// H_C25_lines: every sequence of lines.
//
//vx:bound files of up to 3 lines (every triple of 29 kinds: entries with and without options and comments, comments, blank lines, other types, malformed lines), LF or CRLF, with or without final newline, arbitrary keys
func H_C25_lines() {
	var file string
	var want []akEntry
	n := 1 + vx.Choose("n", 3)
	nl := []string{"\n", "\r\n"}[vx.Choose("nl", 2)]
	for i := 0; i < n; i++ {
		raw := vx.Words("raw", 32)
		l, e, ok := akLine(vx.Choose("kind", akKinds), raw, "c"+string(rune('0'+i))+"@h")
		if ok {
			want = append(want, e)
		}
		file += l
		if i < n-1 || vx.Choose("last", 2) == 0 {
			file += nl
		}
	}
	checkAK(file, want)
	vx.Reach("ok")
}

// H_C25_comment: arbitrary comments and options.
//
//vx:opt dec=24 decT=40
//vx:bound comments of 0..6 arbitrary printable bytes without blanks; unquoted options of 1..4 and quoted options of 0..4 arbitrary printable bytes (up to 24, thorough 40, data-dependent decisions); a neighbour after it, or before it and no final newline
func H_C25_comment() {
	raw, raw2 := vx.Words("raw", 32), vx.Words("raw2", 32)
	pr := func(name string, n int, not string) string {
		b := vx.Bytes(name, n)
		for i := range b {
			vx.Assume(vx.And(b[i] > ' ', b[i] < 0x7f))
			for j := range not {
				vx.Assume(b[i] != not[j])
			}
		}
		return string(b)
	}
	c := "me"
	opt := ""
	switch vx.Choose("kind", 3) {
	case 0:
		c = pr("c", vx.Choose("n", 7), "")
	case 1:
		opt = pr("o", 1+vx.Choose("n", 4), "#\"") + " "
	case 2:
		opt = "o=\"" + pr("q", vx.Choose("n", 5), "\"\\") + " x\" "
	}
	l2, e2, _ := akLine(0, raw2, "two")
	if vx.Choose("last", 2) == 1 {
		checkAK(l2+"\n"+opt+"ssh-ed25519 "+b64(edBlob(raw))+" "+c, []akEntry{e2, {raw, c}})
		vx.Reach("ok")
		return
	}
	checkAK(opt+"ssh-ed25519 "+b64(edBlob(raw))+" "+c+"\n"+l2, []akEntry{{raw, c}, e2})
	vx.Reach("ok")
}

// H_C25_arb: arbitrary bytes never crash and do not affect their neighbours.
//
//vx:opt dec=9 decT=12
//vx:bound a line of 0..6 (thorough 8) arbitrary bytes (including line ends) before, between and after two entries, and alone (up to 9, thorough 12, data-dependent decisions)
func H_C25_arb() {
	max := 7
	if vx.Thorough() {
		max = 9
	}
	j := string(vx.Bytes("junk", vx.Choose("n", max)))
	l1, e1, _ := akLine(0, vx.Words("raw", 32), "one")
	l2, e2, _ := akLine(1, vx.Words("raw2", 32), "two")
	switch vx.Choose("where", 4) {
	case 0:
		checkAK(j, nil)
	case 1:
		checkAK(j+"\n"+l1+"\n"+l2, []akEntry{e1, e2})
	case 2:
		checkAK(l1+"\n"+j+"\n"+l2, []akEntry{e1, e2})
	case 3:
		checkAK(l1+"\n"+l2+"\n"+j, []akEntry{e1, e2})
	}
	vx.Reach("ok")
}
