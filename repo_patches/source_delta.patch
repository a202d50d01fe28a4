From eaf5cf6bad35745208c2814bc25ae697ba07fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 01/21] fix: authenticate an empty last block when decrypting

A zero length block marked as the last one ended the decryption without
verifying its tag or the trailer, so anyone could truncate a file at a block
boundary by appending the four bytes 80 00 00 00.
---
 sign/encrypt.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 6db7e1c..2c09f4c 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -576,13 +576,11 @@ func (d *Decryptor) decrypt(i uint32) ([]byte, bool, error) {
 	case m > uint32(d.ChunkSize):
 		return nil, false, fmt.Errorf("decrypt: chunksize is too large (%d)", m)
 
-	case m == 0:
-		if !eof {
-			return nil, false, fmt.Errorf("decrypt: block %d: zero-sized chunk without EOF", i)
-		}
-		return nil, eof, nil
+	case m == 0 && !eof:
+		return nil, false, fmt.Errorf("decrypt: block %d: zero-sized chunk without EOF", i)
 
 	default:
+		// NB: An empty last block must still be authenticated.
 	}
 
 	// make the nonce - top 4 bytes are the counter
-- 
2.43.0


From d73be8858fff178cc84c05e470cfeb2d5b417eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 02/21] fix: accept a private key only after the sender was
 verified

---
 sign/encrypt.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 2c09f4c..906e683 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -472,8 +472,6 @@ func (d *Decryptor) SetPrivateKey(sk *PrivateKey, senderPk *PublicKey) error {
 			return fmt.Errorf("decrypt: can't unwrap key %d: %w", i, err)
 		}
 		if key != nil {
-			d.key = key
-			d.sender = senderPk
 			goto havekey
 		}
 	}
@@ -487,7 +485,7 @@ havekey:
 
 	outbuf := make([]byte, sha256.Size+_AesKeySize+_AEADNonceSize)
 
-	buf := expand(outbuf, d.key, d.hdrsum, []byte(_DataKeyExpansion))
+	buf := expand(outbuf, key, d.hdrsum, []byte(_DataKeyExpansion))
 
 	var dkey, hmackey []byte
 
@@ -513,6 +511,10 @@ havekey:
 	// We have a separate on-stack buffer for reading the header (4 bytes).
 	// Thus, the actual I/O buf will never be larger than the chunksize + AEAD Overhead
 	d.buf = make([]byte, int(d.ChunkSize)+d.ae.Overhead())
+
+	// NB: Decryption is possible only after every check above has passed.
+	d.key = key
+	d.sender = senderPk
 	return nil
 }
 
-- 
2.43.0


From ba5588acec9ce5bcc14296e9458a28d76c50d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 03/21] fix: never start an encryptor twice (nonce reuse)

---
 sign/encrypt.go | 13 ++++++++-----
 sign/stream.go  | 11 ++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 906e683..be1a8ad 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -186,11 +186,14 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 		return ErrEncIsStream
 	}
 
-	if !e.started {
-		err := e.start(wr)
-		if err != nil {
-			return err
-		}
+	// NB: every block must be encrypted with a unique nonce; so, an encryptor
+	//     can only be used once.
+	if e.started {
+		return ErrEncStarted
+	}
+
+	if err := e.start(wr); err != nil {
+		return err
 	}
 
 	buf := make([]byte, e.ChunkSize)
diff --git a/sign/stream.go b/sign/stream.go
index 7c25ec2..f07bbff 100644
--- a/sign/stream.go
+++ b/sign/stream.go
@@ -34,11 +34,12 @@ var _ io.WriteCloser = &encWriter{}
 // NewStreamWriter begins stream encryption to an underlying destination writer 'wr'.
 // It returns an io.WriteCloser.
 func (e *Encryptor) NewStreamWriter(wr io.WriteCloser) (io.WriteCloser, error) {
-	if !e.started {
-		err := e.start(wr)
-		if err != nil {
-			return nil, err
-		}
+	if e.started {
+		return nil, ErrEncStarted
+	}
+
+	if err := e.start(wr); err != nil {
+		return nil, err
 	}
 
 	w := &encWriter{
-- 
2.43.0


From 86837231456eb2a9acb8555a5ec965dd7059bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 04/21] fix: refuse block numbers that would wrap around

---
 sign/encrypt.go | 9 +++++++++
 sign/errors.go  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index be1a8ad..43627c9 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -87,6 +87,7 @@ const (
 	chunkSize    uint32 = 4 * 1048576 // 4 MB
 	maxChunkSize uint32 = 1 << 30
 	_EOF         uint32 = 1 << 31
+	_MaxBlock    uint32 = 1<<32 - 1
 
 	_Magic       = "SigTool"
 	_MagicLen    = len(_Magic)
@@ -300,6 +301,11 @@ func (e *Encryptor) encrypt(pt []byte, wr io.Writer, i uint32, eof bool) error {
 		z |= _EOF
 	}
 
+	// The block# must never wrap around: that would reuse a nonce.
+	if i == _MaxBlock && !eof {
+		return ErrTooManyBlocks
+	}
+
 	copy(nonce[:], e.nonce)
 
 	// now change the upper bytes to track the block#; we use the len+eof as AD
@@ -584,6 +590,9 @@ func (d *Decryptor) decrypt(i uint32) ([]byte, bool, error) {
 	case m == 0 && !eof:
 		return nil, false, fmt.Errorf("decrypt: block %d: zero-sized chunk without EOF", i)
 
+	case i == _MaxBlock && !eof:
+		return nil, false, ErrTooManyBlocks
+
 	default:
 		// NB: An empty last block must still be authenticated.
 	}
diff --git a/sign/errors.go b/sign/errors.go
index 91fbd28..d540ae4 100644
--- a/sign/errors.go
+++ b/sign/errors.go
@@ -32,6 +32,7 @@ var (
 	ErrBadKey         = errors.New("decrypt: wrong key")
 	ErrBadTrailer     = errors.New("decrypt: message integrity failed (bad trailer)")
 	ErrBadSender      = errors.New("unwrap: sender verification failed")
+	ErrTooManyBlocks  = errors.New("sigtool: too many blocks in one file")
 	ErrNoSenderPK     = errors.New("unwrap: missing sender public key")
 
 	ErrIncorrectPassword = errors.New("ssh: invalid passphrase")
-- 
2.43.0


From b857f884d75527efd4cba92e84017f4e74c900e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 05/21] fix: report a failing input instead of taking it for
 the end

---
 sign/encrypt.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 43627c9..a8f4758 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -202,14 +202,12 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 	var i uint32
 	var eof bool
 	for !eof {
-		n, err := io.ReadAtLeast(rd, buf, int(e.ChunkSize))
+		var n int
+		var err error
+
+		n, eof, err = fullread(buf, rd)
 		if err != nil {
-			switch err {
-			case io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF:
-				eof = true
-			default:
-				return fmt.Errorf("encrypt: I/O read error: %w", err)
-			}
+			return fmt.Errorf("encrypt: I/O read error: %w", err)
 		}
 
 		if n >= 0 {
@@ -856,6 +854,22 @@ func (d *Decryptor) unwrapKey(w *pb.WrappedKey, sk *PrivateKey) ([]byte, error)
 	return dkey, nil
 }
 
+// Read until 'buf' is full or the input ends. Only io.EOF denotes the end of
+// the input; every other error (including io.ErrUnexpectedEOF) is a failure.
+func fullread(buf []byte, rd io.Reader) (n int, eof bool, err error) {
+	for n < len(buf) {
+		m, err := rd.Read(buf[n:])
+		n += m
+		if err == io.EOF {
+			return n, true, nil
+		}
+		if err != nil {
+			return n, false, err
+		}
+	}
+	return n, false, nil
+}
+
 // Write _all_ bytes of buffer 'buf'
 func fullwrite(buf []byte, wr io.Writer) error {
 	n := len(buf)
-- 
2.43.0


From 688730008ccd4f76caee17573ba137a83dca73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 06/21] fix: accept the largest block size when decrypting

---
 sign/encrypt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index a8f4758..317a69d 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -445,7 +445,7 @@ func NewDecryptor(rd io.Reader) (*Decryptor, error) {
 		return nil, fmt.Errorf("decrypt: decode error: %w", err)
 	}
 
-	if d.ChunkSize == 0 || d.ChunkSize >= maxChunkSize {
+	if d.ChunkSize == 0 || d.ChunkSize > maxChunkSize {
 		return nil, fmt.Errorf("decrypt: invalid chunkSize %d", d.ChunkSize)
 	}
 
-- 
2.43.0


From e6e0cba60ac2900767d96f9027707d002dcda572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 07/21] fix: checksum pipes and files of unknown size by their
 content

---
 sign/iomisc.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sign/iomisc.go b/sign/iomisc.go
index cdc1eb3..f08e850 100644
--- a/sign/iomisc.go
+++ b/sign/iomisc.go
@@ -19,6 +19,7 @@ import (
 	"github.com/opencoff/go-fio"
 	"github.com/opencoff/go-mmap"
 	"hash"
+	"io"
 	"os"
 )
 
@@ -51,10 +52,22 @@ func fileCksum(fn string, h hash.Hash) ([]byte, error) {
 
 	defer fd.Close()
 
-	sz, err := mmap.Reader(fd, func(b []byte) error {
-		h.Write(b)
-		return nil
-	})
+	st, err := fd.Stat()
+	if err != nil {
+		return nil, fmt.Errorf("can't stat %s: %s", fn, err)
+	}
+
+	// Only a regular file knows its size; everything else (pipes, devices,
+	// procfs) must be read to the end.
+	var sz int64
+	if st.Mode().IsRegular() && st.Size() > 0 {
+		sz, err = mmap.Reader(fd, func(b []byte) error {
+			h.Write(b)
+			return nil
+		})
+	} else {
+		sz, err = io.Copy(h, fd)
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7fd8f4921e474c2dbda7cdd0c182b9ecd0357441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 08/21] fix: refuse short salts and absurd scrypt parameters in
 private keys

---
 sign/keys.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sign/keys.go b/sign/keys.go
index a6869b8..ec6bd38 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -68,6 +68,11 @@ const (
 	_r int = 8
 	_p int = 1
 
+	// Limits for Scrypt parameters read from a key file: the memory used is
+	// 128 * N * r bytes and the time grows with N * r * p.
+	_max_rp  int = 1 << 10
+	_max_Nrp int = 1 << 23
+
 	// Algorithm used in the encrypted private key
 	sk_algo  = "scrypt-sha256"
 	sig_algo = "sha512-ed25519"
@@ -315,6 +320,10 @@ func (sk *PrivateKey) UnmarshalBinary(b []byte, getpw func() ([]byte, error)) er
 		return fmt.Errorf("unmarshal priv key: can't decode key: %s", err)
 	}
 
+	if ssk.R < 1 || ssk.P < 1 || ssk.R > _max_rp || ssk.P > _max_rp || ssk.N > _max_Nrp/(ssk.R*ssk.P) {
+		return fmt.Errorf("unmarshal priv key: bad scrypt parameters")
+	}
+
 	// "32" == Length of AES-256 key
 	key, err := scrypt.Key(pwb[:], salt, ssk.N, ssk.R, ssk.P, 32)
 	if err != nil {
@@ -331,6 +340,10 @@ func (sk *PrivateKey) UnmarshalBinary(b []byte, getpw func() ([]byte, error)) er
 		return fmt.Errorf("unmarshal priv key: aes failure: %s", err)
 	}
 
+	if len(salt) < ae.NonceSize() {
+		return fmt.Errorf("unmarshal priv key: salt too short")
+	}
+
 	skb := make([]byte, 64)
 	skb, err = ae.Open(skb[:0], salt[:ae.NonceSize()], esk, nil)
 	if err != nil {
-- 
2.43.0


From b8a0596486e56d55d49d7755f9ebc2aa65ae446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 09/21] fix: malformed OpenSSH private keys must not crash

---
 sign/ssh.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 13bc1e2..81eca65 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -253,7 +253,7 @@ type opensshED25519 struct {
 
 func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*PrivateKey, error) {
 	magic := append([]byte(opensshv1Magic), 0)
-	if !bytes.Equal(magic, data[0:len(magic)]) {
+	if !bytes.HasPrefix(data, magic) {
 		return nil, ErrBadFormat
 	}
 	remaining := data[len(magic):]
@@ -271,6 +271,10 @@ func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*Private
 	var privateKeyBytes []byte
 	var encrypted bool
 
+	if getpw == nil {
+		getpw = func() ([]byte, error) { return nil, nil }
+	}
+
 	switch {
 	// OpenSSH supports bcrypt KDF w/ AES256-CBC or AES256-CTR mode
 	case w.KdfName == "bcrypt" && w.CipherName == "aes256-cbc":
@@ -285,6 +289,9 @@ func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*Private
 
 		cbc := cipher.NewCBCDecrypter(block, iv)
 		privateKeyBytes = []byte(w.PrivKeyBlock)
+		if len(privateKeyBytes)%cbc.BlockSize() != 0 {
+			return nil, ErrBadLength
+		}
 		cbc.CryptBlocks(privateKeyBytes, privateKeyBytes)
 
 		encrypted = true
-- 
2.43.0


From 3c3606e5f3ce9368a2d72302d34d679d191b6d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 10/21] fix: refuse OpenSSH public keys of other types without
 crashing

---
 sign/keys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sign/keys.go b/sign/keys.go
index ec6bd38..8efa22e 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -385,7 +385,8 @@ func MakePublicKey(yml []byte) (*PublicKey, error) {
 // Make a public key from a string
 func MakePublicKeyFromString(s string) (*PublicKey, error) {
 	// first try to decode it as a openssh key
-	if pk2, err := parseEncPubKey([]byte(s), "command-line-pk"); err == nil {
+	// (any other type of openssh key yields nil)
+	if pk2, err := parseEncPubKey([]byte(s), "command-line-pk"); err == nil && pk2 != nil {
 		return pk2, nil
 	}
 
@@ -500,7 +501,8 @@ func (pk *PublicKey) MarshalBinary(comment string) ([]byte, error) {
 func (pk *PublicKey) UnmarshalBinary(yml []byte) error {
 
 	// first try to parse as a ssh key
-	if xk, err := parseSSHPublicKey(yml); err == nil {
+	// (any other type of openssh key yields nil)
+	if xk, err := parseSSHPublicKey(yml); err == nil && xk != nil {
 		*pk = *xk
 		return nil
 	}
-- 
2.43.0


From ed3c41263f2bc5010365ccb2210fc85fb9d03d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 11/21] fix: forget the converted key when another key is read
 into the same object

---
 sign/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sign/keys.go b/sign/keys.go
index 8efa22e..d171c5b 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -181,6 +181,7 @@ func makePrivateKeyFromBytes(sk *PrivateKey, buf []byte) error {
 	}
 	sk.Sk = skb
 	sk.pk = pk
+	sk.ck = nil
 	return nil
 }
 
@@ -412,6 +413,7 @@ func makePublicKeyFromBytes(pk *PublicKey, b []byte) error {
 	}
 
 	pk.Pk = make([]byte, 32)
+	pk.ck = nil
 	pk.hash = pkhash(b)
 	copy(pk.Pk, b)
 
-- 
2.43.0


From 339010e9d563927ca7f7fe56cdcea8bc1ba98080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 12/21] fix: do not take a key from inside a quoted option

---
 sign/ssh.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 81eca65..53cbe39 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -168,12 +168,16 @@ func ParseAuthorizedKeys(in []byte) ([]*PublicKey, error) {
 			continue
 		}
 
-		if pk, err := parseAuthorizedKey(in[i:]); err == nil {
-			if pk != nil {
-				pka = append(pka, pk)
+		// A key type has no quotes: a first word with one is (part of)
+		// an option, and what follows may still be inside its quotes.
+		if bytes.IndexByte(in[:i], '"') == -1 {
+			if pk, err := parseAuthorizedKey(in[i:]); err == nil {
+				if pk != nil {
+					pka = append(pka, pk)
+				}
+				in = rest
+				continue
 			}
-			in = rest
-			continue
 		}
 
 		// No key type recognised. Maybe there's an options field at
-- 
2.43.0


From 5b789a5baedaaab7c1c424b0e5e92376006c64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 13/21] fix: sign must not report success when the signature
 was not written

---
 src/sign.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sign.go b/src/sign.go
index f6e92b0..ff78bce 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -111,6 +111,13 @@ Options:
 	}
 
 	sigbytes, err := sig.MarshalBinary(fmt.Sprintf("input=%s", fn))
-	fd.Write(sigbytes)
-	fd.Close()
+	if err != nil {
+		Die("%s", err)
+	}
+	if _, err = fd.Write(sigbytes); err != nil {
+		Die("can't write sig file: %s", err)
+	}
+	if err = fd.Close(); err != nil {
+		Die("can't write sig file: %s", err)
+	}
 }
-- 
2.43.0


From 7d1db99cdf2c67ef2b1f65e9993c556a5b78dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 14/21] fix: decrypt must not report success when the output
 was not completed

---
 src/crypt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypt.go b/src/crypt.go
index 9de5638..4ccda71 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -343,7 +343,9 @@ func decrypt(args []string) {
 		Die("%s", err)
 	}
 
-	outfd.Close()
+	if err = outfd.Close(); err != nil {
+		Die("%s", err)
+	}
 
 	if test {
 		Warn("Enc file OK")
-- 
2.43.0


From 7ead6ac0bc022d4323ecffb7617f09b4b3522467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 15/21] fix: decrypt with a sender key must refuse unsigned
 files

---
 src/crypt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crypt.go b/src/crypt.go
index 4ccda71..1ba7d7c 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -331,6 +331,10 @@ func decrypt(args []string) {
 		Die("%s", err)
 	}
 
+	if pk != nil && !d.AuthenticatedSender() {
+		Die("can't verify sender: the encrypted file is not signed")
+	}
+
 	if pk == nil && d.AuthenticatedSender() {
 		var fn string = infile
 		if len(fn) == 0 || fn == "-" {
-- 
2.43.0


From ffa0152b92797ae0a04059eac66e00a14240656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 16/21] fix: refuse to write the output over the input file

---
 src/crypt.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 1ba7d7c..9bc1ad1 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -92,7 +92,7 @@ func encrypt(args []string) {
 	if len(args) > 1 {
 		infile = args[len(args)-1]
 		if infile != "-" {
-			inf := mustOpen(infile, os.O_RDONLY)
+			inf = mustOpen(infile, os.O_RDONLY)
 			defer inf.Close()
 
 			infd = inf
@@ -127,18 +127,17 @@ func encrypt(args []string) {
 			var err error
 			var ist, ost os.FileInfo
 
-			if ost, err = os.Stat(outfile); err != nil {
-				Die("can't stat %s: %s", outfile, err)
-			}
-
 			if ist, err = inf.Stat(); err != nil {
 				Die("can't stat %s: %s", infile, err)
 			}
 
-			if os.SameFile(ist, ost) {
-				Die("won't create output file: same as input file!")
+			if ost, err = os.Stat(outfile); err == nil {
+				if os.SameFile(ist, ost) {
+					Die("won't create output file: same as input file!")
+				}
+			} else if !os.IsNotExist(err) {
+				Die("can't stat %s: %s", outfile, err)
 			}
-			mode = ist.Mode()
 		}
 
 		var opts uint32
@@ -279,7 +278,7 @@ func decrypt(args []string) {
 	if len(args) > 1 {
 		infile = args[1]
 		if infile != "-" {
-			inf := mustOpen(infile, os.O_RDONLY)
+			inf = mustOpen(infile, os.O_RDONLY)
 			defer inf.Close()
 
 			infd = inf
@@ -295,16 +294,17 @@ func decrypt(args []string) {
 			var ist, ost os.FileInfo
 			var err error
 
-			if ost, err = os.Stat(outfile); err != nil {
-				Die("can't stat %s: %s", outfile, err)
-			}
 			if ist, err = inf.Stat(); err != nil {
 				Die("can't stat %s: %s", infile, err)
 			}
-			if os.SameFile(ist, ost) {
-				Die("won't create output file: same as input file!")
+
+			if ost, err = os.Stat(outfile); err == nil {
+				if os.SameFile(ist, ost) {
+					Die("won't create output file: same as input file!")
+				}
+			} else if !os.IsNotExist(err) {
+				Die("can't stat %s: %s", outfile, err)
 			}
-			mode = ist.Mode()
 		}
 
 		var opts uint32
-- 
2.43.0


From 903cff176cb01f31a6ca0c2408275ecaf2545355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:55 +0000
Subject: [PATCH 17/21] fix: encrypt and decrypt fail on a bad option instead
 of exiting with status 0

---
 src/crypt.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 9bc1ad1..9337d5b 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -30,17 +30,14 @@ import (
 
 func encrypt(args []string) {
 	fs := flag.NewFlagSet("encrypt", flag.ExitOnError)
-	fs.Usage = func() {
-		encryptUsage(fs)
-	}
-
 	var outfile string
 	var keyfile string
 	var szstr string = "128k"
 	var envpw string
-	var nopw, force bool
+	var nopw, help, force bool
 	var blksize uint64
 
+	fs.BoolVarP(&help, "help", "h", false, "Show this help and exit")
 	fs.StringVarP(&outfile, "outfile", "o", "", "Write the output to file `F`")
 	fs.StringVarP(&keyfile, "sign", "s", "", "Sign using private key `S`")
 	fs.BoolVarP(&nopw, "no-password", "", false, "Don't ask for passphrase to decrypt the private key")
@@ -53,6 +50,10 @@ func encrypt(args []string) {
 		Die("%s", err)
 	}
 
+	if help {
+		encryptUsage(fs)
+	}
+
 	if blksize, err = utils.ParseSize(szstr); err != nil {
 		Die("%s", err)
 	}
@@ -214,15 +215,12 @@ var _ io.WriteCloser = &nullWriter{}
 // sigtool decrypt a.key [file] [-o output]
 func decrypt(args []string) {
 	fs := flag.NewFlagSet("decrypt", flag.ExitOnError)
-	fs.Usage = func() {
-		decryptUsage(fs)
-	}
-
 	var envpw string
 	var outfile string
 	var pubkey string
-	var nopw, test, force bool
+	var nopw, help, test, force bool
 
+	fs.BoolVarP(&help, "help", "h", false, "Show this help and exit")
 	fs.StringVarP(&outfile, "outfile", "o", "", "Write the output to file `F`")
 	fs.BoolVarP(&nopw, "no-password", "", false, "Don't ask for passphrase to decrypt the private key")
 	fs.StringVarP(&envpw, "env-password", "E", "", "Use passphrase from environment variable `E`")
@@ -235,6 +233,10 @@ func decrypt(args []string) {
 		Die("%s", err)
 	}
 
+	if help {
+		decryptUsage(fs)
+	}
+
 	args = fs.Args()
 	if len(args) < 1 {
 		Die("Insufficient args. Try '%s --help'", os.Args[0])
-- 
2.43.0


From edc6b6e7699f968e91266995411cdd9b48b53431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:43 +0000
Subject: [PATCH 18/21] fix: prompt for passphrases on stderr, not in the
 output

The prompts of utils.Askpass() go to stdout: redirecting the output of
encrypt, decrypt or sign put them in front of the encrypted file, the
plaintext or the signature.
---
 src/askpass.go | 31 +++++++++++++++++++++++++++++++
 src/crypt.go   |  4 ++--
 src/gen.go     |  3 +--
 src/sign.go    |  3 +--
 4 files changed, 35 insertions(+), 6 deletions(-)
 create mode 100644 src/askpass.go

diff --git a/src/askpass.go b/src/askpass.go
new file mode 100644
index 0000000..28aaa36
--- /dev/null
+++ b/src/askpass.go
@@ -0,0 +1,31 @@
+// askpass.go -- ask for passphrases
+//
+// (c) 2016 Sudhi Herle <sudhi@herle.net>
+//
+// Licensing Terms: GPLv2
+//
+// If you need a commercial license for this work, please contact
+// the author.
+//
+// This software does not come with any express or implied
+// warranty; it is provided "as is". No claim  is made to its
+// suitability for any purpose.
+
+package main
+
+import (
+	"os"
+
+	"github.com/opencoff/go-utils"
+)
+
+// askpass prompts the user for a passphrase on stderr: stdout may be where
+// the output of the command goes, and the prompt must not end up in it.
+func askpass(prompt string, verify bool) (string, error) {
+	// utils.Askpass() writes its prompts to os.Stdout
+	stdout := os.Stdout
+	os.Stdout = os.Stderr
+	defer func() { os.Stdout = stdout }()
+
+	return utils.Askpass(prompt, verify)
+}
diff --git a/src/crypt.go b/src/crypt.go
index 9337d5b..fd3edae 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -69,7 +69,7 @@ func encrypt(args []string) {
 			if len(envpw) > 0 {
 				pws = os.Getenv(envpw)
 			} else {
-				pws, err = utils.Askpass("Enter passphrase for private key", false)
+				pws, err = askpass("Enter passphrase for private key", false)
 				if err != nil {
 					Die("%s", err)
 				}
@@ -257,7 +257,7 @@ func decrypt(args []string) {
 		if len(envpw) > 0 {
 			pws = os.Getenv(envpw)
 		} else {
-			pws, err = utils.Askpass("Enter passphrase for private key", false)
+			pws, err = askpass("Enter passphrase for private key", false)
 			if err != nil {
 				Die("%s", err)
 			}
diff --git a/src/gen.go b/src/gen.go
index d99e16f..8ec5863 100644
--- a/src/gen.go
+++ b/src/gen.go
@@ -18,7 +18,6 @@ import (
 	"os"
 	"path"
 
-	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
 	"github.com/opencoff/sigtool/sign"
 )
@@ -75,7 +74,7 @@ Options:
 		if len(envpw) > 0 {
 			pws = os.Getenv(envpw)
 		} else {
-			pws, err = utils.Askpass("Enter passphrase for private key", true)
+			pws, err = askpass("Enter passphrase for private key", true)
 			if err != nil {
 				Die("%s", err)
 			}
diff --git a/src/sign.go b/src/sign.go
index ff78bce..a78af64 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -19,7 +19,6 @@ import (
 	"os"
 
 	"github.com/opencoff/go-fio"
-	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
 	"github.com/opencoff/sigtool/sign"
 )
@@ -93,7 +92,7 @@ Options:
 		if len(envpw) > 0 {
 			pws = os.Getenv(envpw)
 		} else {
-			pws, err = utils.Askpass("Enter passphrase for private key", false)
+			pws, err = askpass("Enter passphrase for private key", false)
 			if err != nil {
 				Die("%s", err)
 			}
-- 
2.43.0


From e30dc512dabba3983e330f82240c3356ea7b1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 19/21] fix: read private keys whose comment mentions an
 OpenSSH private key

A key file with "OPENSSH PRIVATE KEY-" in its comment was taken for an
OpenSSH key and could not be read anymore.
---
 sign/keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sign/keys.go b/sign/keys.go
index d171c5b..293faa6 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -18,13 +18,13 @@
 package sign
 
 import (
-	"bytes"
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/base64"
+	"encoding/pem"
 	"fmt"
 	"io/ioutil"
 	"math/big"
@@ -277,7 +277,8 @@ func (sk *PrivateKey) MarshalBinary(comment string, pw []byte) ([]byte, error) {
 // input byte stream 'b' is an OpenSSH ed25519 key, this function transparently
 // decodes it.
 func (sk *PrivateKey) UnmarshalBinary(b []byte, getpw func() ([]byte, error)) error {
-	if bytes.Index(b, []byte("OPENSSH PRIVATE KEY-")) > 0 {
+	// NB: the comment of our own keys can contain anything
+	if block, _ := pem.Decode(b); block != nil {
 		xk, err := parseSSHPrivateKey(b, getpw)
 		if err != nil {
 			return err
-- 
2.43.0


From b564916b1e4a769cd79b88cd8f081a65bff6e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:52 +0000
Subject: [PATCH 20/21] fix: accept OpenSSH public keys without comment or with
 blanks in it

Lines like 'ssh-ed25519 AAAA...' and 'ssh-ed25519 AAAA... my laptop key',
both of which ssh-keygen writes, were refused.
---
 sign/ssh.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 53cbe39..9fc010b 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -57,13 +57,22 @@ func parseSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*PrivateKey,
 }
 
 func parseSSHPublicKey(in []byte) (*PublicKey, error) {
+	// NB: the comment is optional and can have blanks of its own.
 	splitter := regexp.MustCompile("[ \\t]+")
-	v := splitter.Split(string(in), -1)
-	if len(v) != 3 {
+	v := splitter.Split(strings.TrimSpace(string(in)), 3)
+	if len(v) < 2 || v[0] != ssh.KeyAlgoED25519 {
 		return nil, ErrBadPublicKey
 	}
 
-	return parseEncPubKey([]byte(v[1]), v[2])
+	var comm string
+	if len(v) == 3 {
+		comm = v[2]
+	}
+	if strings.ContainsAny(comm, "\r\n") {
+		return nil, ErrBadPublicKey
+	}
+
+	return parseEncPubKey([]byte(v[1]), comm)
 }
 
 // parse a wire encoded public key
-- 
2.43.0


From 4e14d6a50796dce48ef5fcedbf31e5193889fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:04 +0000
Subject: [PATCH 21/21] fix: refuse to encrypt for more recipients than a
 header can hold

With more than about 15000 recipients the header exceeds the size that
decryption accepts: encryption succeeded, but nobody could decrypt the
file.
---
 sign/encrypt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 317a69d..0703ded 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -227,6 +227,11 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 func (e *Encryptor) start(wr io.Writer) error {
 	varSize := e.Size()
 
+	// too many recipients: no decryptor would accept this header
+	if varSize > 1048576 {
+		return fmt.Errorf("encrypt: header too large (max 1048576): too many recipients")
+	}
+
 	buffer := make([]byte, _FixedHdrLen+varSize+sha256.Size)
 	fixHdr := buffer[:_FixedHdrLen]
 	varHdr := buffer[_FixedHdrLen : _FixedHdrLen+varSize]
-- 
2.43.0

