package vxh

import (
	"os"

	"github.com/opencoff/sigtool/internal/vx"
	"github.com/opencoff/sigtool/sign"
)

const wfaults = "create,write,partial,sync,close,rename"

// H_C26_write: the three kinds of files, with and without an existing target, with and without a fault.
//
//vx:opt samples=3
//vx:bound a private key (with and without passphrase), public key or signature, arbitrary key material; target missing, a file with arbitrary content of 0..3 bytes and mode 0644 or 0666, a link to a file, a directory, or in a missing directory; overwriting requested or not; any single failure of creating, writing (nothing or half written), syncing, closing or renaming
func H_C26_write() {
	vx.Scratch()
	sk, pk := mkKey("k")
	kind := vx.Choose("kind", 4)
	target := vx.Choose("target", 5)
	force := vx.Choose("force", 2) == 1
	old := vx.Bytes("old", vx.Choose("nold", 4))
	nm := "f"
	switch target {
	case 1:
		put(nm, old)
		if vx.Choose("chmod", 2) == 1 {
			os.Chmod(nm, 0666)
		}
	case 2:
		put("real", old)
		os.Symlink("real", nm)
	case 3:
		os.Mkdir(nm, 0755)
	case 4:
		nm = "nodir/f"
	}
	var sig *sign.Signature
	if kind == 3 {
		s, err := sk.SignMessage([]byte("m"), "")
		must(err, "SignMessage fails")
		sig = s
	}
	before := vx.Listing()
	vx.Arm(wfaults)
	var err error
	switch kind {
	case 0:
		err = sk.Serialize(nm, "c", force, nil)
	case 1:
		err = sk.Serialize(nm, "c", force, []byte("pw"))
	case 2:
		err = pk.Serialize(nm, "c", force)
	case 3:
		err = sig.Serialize(nm, "c", force)
	}
	fired := vx.Disarm()
	exists := target == 1 || target == 2
	if err != nil {
		vx.Assert(fired || target >= 3 || exists && !force, "writing a file fails without reason")
		vx.Assert(vx.Listing() == before, "a failed write leaves files behind")
		if exists {
			vx.Assert(vx.Eq(get(nm), old), "a failed write changes the existing file")
		}
		vx.Reach("refused")
		return
	}
	vx.Assert(!fired, "a failed write is reported as success")
	vx.Assert(target < 3, "writing over a directory or into nowhere succeeds")
	vx.Assert(force || !exists, "an existing file is replaced without being asked")
	want := before
	if target == 0 {
		want++
	}
	vx.Assert(vx.Listing() == want, "temporary files are left behind")
	switch kind {
	case 0, 1:
		st, err := os.Stat(nm)
		vx.Assert(err == nil && st.Mode()&0077 == 0, "a private key is accessible to others")
		sk2, err := sign.ReadPrivateKey(nm, func() ([]byte, error) {
			if kind == 0 {
				return nil, nil
			}
			return []byte("pw"), nil
		})
		vx.Assert(err == nil && vx.Eq(sk2.Sk, sk.Sk), "the written private key does not read back")
	case 2:
		pk2, err := sign.ReadPublicKey(nm)
		vx.Assert(err == nil && vx.Eq(pk2.Pk, pk.Pk), "the written public key does not read back")
		b, _ := pk.MarshalBinary("c")
		vx.Assert(vx.Eq(get(nm), b), "the file is not exactly the new content")
	case 3:
		s2, err := sign.ReadSignature(nm)
		vx.Assert(err == nil && vx.Eq(s2.Sig, sig.Sig), "the written signature does not read back")
		b, _ := sig.MarshalBinary("c")
		vx.Assert(vx.Eq(get(nm), b), "the file is not exactly the new content")
	}
	vx.Reach("written")
}
