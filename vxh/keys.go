package vxh

import (
	"encoding/base64"
	"encoding/pem"

	"github.com/opencoff/sigtool/sign"
)

func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func sshStr(b []byte) []byte { return append(be32(len(b)), b...) }

// container builds an unencrypted OpenSSH private key body.
func container(pub, priv []byte, comment string) []byte {
	c := []byte("abcd")
	in := cat(c, c, sshStr([]byte("ssh-ed25519")), sshStr(pub), sshStr(priv), sshStr([]byte(comment)))
	for i := 1; len(in)%8 != 0; i++ {
		in = append(in, byte(i))
	}
	blob := cat(sshStr([]byte("ssh-ed25519")), sshStr(pub))
	return cat([]byte("openssh-key-v1\x00"), sshStr([]byte("none")), sshStr([]byte("none")), sshStr(nil), be32(1), sshStr(blob), sshStr(in))
}

// newSK makes a PrivateKey object from a 64-byte Ed25519 key through the public API.
func newSK(ed []byte) (*sign.PrivateKey, error) {
	p := pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: container(ed[32:64], ed, "x")})
	return sign.MakePrivateKey(p, nil)
}

// newPK makes a PublicKey object from 32 bytes through the public API.
func newPK(pk []byte) (*sign.PublicKey, error) {
	return sign.MakePublicKey([]byte("pk: " + base64.StdEncoding.EncodeToString(pk) + "\n"))
}
