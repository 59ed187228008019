From 5707f20cb78e4adecb077dc361d84984f92c5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 01/33] fix: authenticate an empty last chunk and check its
 trailer

A zero length chunk with the EOF mark ended decryption successfully without
looking at its AEAD tag or the trailer; a file cut at any chunk boundary and
completed with 80000000 was accepted as a shorter file.
---
 sign/encrypt.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 6db7e1c..f3003a9 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -580,7 +580,6 @@ func (d *Decryptor) decrypt(i uint32) ([]byte, bool, error) {
 		if !eof {
 			return nil, false, fmt.Errorf("decrypt: block %d: zero-sized chunk without EOF", i)
 		}
-		return nil, eof, nil
 
 	default:
 	}
-- 
2.43.0


From 3bacf7cb972ddd798d01358c6a0aede45f5c9a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 02/33] fix: accept the largest chunk size the encryptor
 produces

NewEncryptor caps the chunk size at maxChunkSize, which NewDecryptor refused.
---
 sign/encrypt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index f3003a9..fdc53bb 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -438,7 +438,7 @@ func NewDecryptor(rd io.Reader) (*Decryptor, error) {
 		return nil, fmt.Errorf("decrypt: decode error: %w", err)
 	}
 
-	if d.ChunkSize == 0 || d.ChunkSize >= maxChunkSize {
+	if d.ChunkSize == 0 || d.ChunkSize > maxChunkSize {
 		return nil, fmt.Errorf("decrypt: invalid chunkSize %d", d.ChunkSize)
 	}
 
-- 
2.43.0


From 4bef2193fd95b8efe9452dd6b29ad31720b1cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 03/33] fix: don't take a truncated input for the end of the
 input

Encrypt() treated io.ErrUnexpectedEOF returned by the reader as the end of the
data and reported success for an incomplete input.
---
 sign/encrypt.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index fdc53bb..653aa9e 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -198,10 +198,10 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 	var i uint32
 	var eof bool
 	for !eof {
-		n, err := io.ReadAtLeast(rd, buf, int(e.ChunkSize))
+		n, err := readChunk(rd, buf)
 		if err != nil {
 			switch err {
-			case io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF:
+			case io.EOF, io.ErrClosedPipe:
 				eof = true
 			default:
 				return fmt.Errorf("encrypt: I/O read error: %w", err)
@@ -221,6 +221,21 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 	return wr.Close()
 }
 
+// Fill 'buf' from 'rd'; a short count comes with the reader's own error.
+// Unlike io.ReadFull(), this doesn't turn an EOF into io.ErrUnexpectedEOF: a
+// reader that returns the latter is telling us that its input is truncated.
+func readChunk(rd io.Reader, buf []byte) (int, error) {
+	n := 0
+	for n < len(buf) {
+		m, err := rd.Read(buf[n:])
+		n += m
+		if err != nil && n < len(buf) {
+			return n, err
+		}
+	}
+	return n, nil
+}
+
 // Begin the encryption process by writing the header
 func (e *Encryptor) start(wr io.Writer) error {
 	varSize := e.Size()
-- 
2.43.0


From 7a5c718391331527fa55423c383b6a39ad1806c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 04/33] fix: use an Encryptor for one encryption only

A second Encrypt() or NewStreamWriter() on the same context encrypted different
data under the same keys and nonces (and wrote no header).
---
 sign/encrypt.go | 5 +++++
 sign/stream.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 653aa9e..189b0b3 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -186,6 +186,11 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 		return ErrEncIsStream
 	}
 
+	// the data key and nonces must not be used for a second stream
+	if e.started {
+		return ErrEncStarted
+	}
+
 	if !e.started {
 		err := e.start(wr)
 		if err != nil {
diff --git a/sign/stream.go b/sign/stream.go
index 7c25ec2..45d83be 100644
--- a/sign/stream.go
+++ b/sign/stream.go
@@ -34,6 +34,11 @@ var _ io.WriteCloser = &encWriter{}
 // NewStreamWriter begins stream encryption to an underlying destination writer 'wr'.
 // It returns an io.WriteCloser.
 func (e *Encryptor) NewStreamWriter(wr io.WriteCloser) (io.WriteCloser, error) {
+	// the data key and nonces must not be used for a second stream
+	if e.started {
+		return nil, ErrEncStarted
+	}
+
 	if !e.started {
 		err := e.start(wr)
 		if err != nil {
-- 
2.43.0


From 6a6f5f7e8e68c0fc3c05aef93882097bfe986b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 05/33] fix: a failed SetPrivateKey must not leave a key behind

When the sender check failed, Decrypt() and NewStreamReader() believed that a key
was set and crashed with a nil pointer.
---
 sign/encrypt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 189b0b3..bc48b4d 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -492,8 +492,6 @@ func (d *Decryptor) SetPrivateKey(sk *PrivateKey, senderPk *PublicKey) error {
 			return fmt.Errorf("decrypt: can't unwrap key %d: %w", i, err)
 		}
 		if key != nil {
-			d.key = key
-			d.sender = senderPk
 			goto havekey
 		}
 	}
@@ -507,7 +505,7 @@ havekey:
 
 	outbuf := make([]byte, sha256.Size+_AesKeySize+_AEADNonceSize)
 
-	buf := expand(outbuf, d.key, d.hdrsum, []byte(_DataKeyExpansion))
+	buf := expand(outbuf, key, d.hdrsum, []byte(_DataKeyExpansion))
 
 	var dkey, hmackey []byte
 
@@ -533,6 +531,8 @@ havekey:
 	// We have a separate on-stack buffer for reading the header (4 bytes).
 	// Thus, the actual I/O buf will never be larger than the chunksize + AEAD Overhead
 	d.buf = make([]byte, int(d.ChunkSize)+d.ae.Overhead())
+	d.key = key
+	d.sender = senderPk
 	return nil
 }
 
-- 
2.43.0


From dbd2378192de8e1310069bff05e66add49d625f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 06/33] fix: only one stream reader per Decryptor

A second reader shares the input and the chunk buffer with the first one, which
then returned garbage as plaintext.
---
 sign/stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sign/stream.go b/sign/stream.go
index 45d83be..b1abb6d 100644
--- a/sign/stream.go
+++ b/sign/stream.go
@@ -124,6 +124,10 @@ func (d *Decryptor) NewStreamReader() (io.Reader, error) {
 		return nil, ErrNoKey
 	}
 
+	if d.stream {
+		return nil, ErrDecStarted
+	}
+
 	if d.eof {
 		return nil, io.EOF
 	}
-- 
2.43.0


From 4fad4f39f36a24648ed5dad30a066add07d1f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 07/33] fix: reject an unsigned file when a sender is expected

A file without sender signature passed verification against any sender key.
---
 sign/encrypt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index bc48b4d..3d082e7 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -766,6 +766,9 @@ func (d *Decryptor) verifySender(key []byte, senderPk *PublicKey) error {
 
 		// we set this to indicate that the sender authenticated themselves;
 		d.auth = true
+	} else if senderPk != nil {
+		// anyone could have made this file
+		return ErrBadSender
 	}
 
 	return nil
-- 
2.43.0


From 193da6df3bd98e318a341a1e1f756b948aac90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 08/33] fix: refuse SSH public keys which aren't Ed25519

Reading one crashed (file) or returned a nil key without an error (string).
---
 sign/keys.go | 2 +-
 sign/ssh.go  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sign/keys.go b/sign/keys.go
index a6869b8..228a3ea 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -372,7 +372,7 @@ func MakePublicKey(yml []byte) (*PublicKey, error) {
 // Make a public key from a string
 func MakePublicKeyFromString(s string) (*PublicKey, error) {
 	// first try to decode it as a openssh key
-	if pk2, err := parseEncPubKey([]byte(s), "command-line-pk"); err == nil {
+	if pk2, err := parseEncPubKey([]byte(s), "command-line-pk"); err == nil && pk2 != nil {
 		return pk2, nil
 	}
 
diff --git a/sign/ssh.go b/sign/ssh.go
index 13bc1e2..81172d9 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -63,7 +63,12 @@ func parseSSHPublicKey(in []byte) (*PublicKey, error) {
 		return nil, ErrBadPublicKey
 	}
 
-	return parseEncPubKey([]byte(v[1]), v[2])
+	pk, err := parseEncPubKey([]byte(v[1]), v[2])
+	if err == nil && pk == nil {
+		// some other kind of key
+		err = ErrBadPublicKey
+	}
+	return pk, err
 }
 
 // parse a wire encoded public key
-- 
2.43.0


From 27f868e0c875e6d73c33309db05b2ab8a1b5f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 09/33] fix: validate salt and scrypt parameters of a private
 key file

A short salt, zero r or p, or an absurd N crashed the parser.
---
 sign/keys.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sign/keys.go b/sign/keys.go
index 228a3ea..251f43b 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -68,6 +68,11 @@ const (
 	_r int = 8
 	_p int = 1
 
+	// Limits for what we read back: the AEAD nonce is taken from the
+	// salt; N * r * p is upto 8 times the cost of the parameters above
+	_minSaltLen = 12
+	_maxCost    = 8 * _N * _r * _p
+
 	// Algorithm used in the encrypted private key
 	sk_algo  = "scrypt-sha256"
 	sig_algo = "sha512-ed25519"
@@ -315,6 +320,15 @@ func (sk *PrivateKey) UnmarshalBinary(b []byte, getpw func() ([]byte, error)) er
 		return fmt.Errorf("unmarshal priv key: can't decode key: %s", err)
 	}
 
+	// Don't let a damaged file crash us or use up all memory
+	if len(salt) < _minSaltLen {
+		return fmt.Errorf("unmarshal priv key: salt is too short (%d bytes)", len(salt))
+	}
+	if ssk.N < 1 || ssk.R < 1 || ssk.P < 1 ||
+		ssk.N > _maxCost || ssk.R > _maxCost/ssk.N || ssk.P > _maxCost/(ssk.N*ssk.R) {
+		return fmt.Errorf("unmarshal priv key: invalid scrypt parameters N=%d, r=%d, p=%d", ssk.N, ssk.R, ssk.P)
+	}
+
 	// "32" == Length of AES-256 key
 	key, err := scrypt.Key(pwb[:], salt, ssk.N, ssk.R, ssk.P, 32)
 	if err != nil {
-- 
2.43.0


From 85cecf2e9765efe64e21ebe89dc5a238a3b891c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 10/33] fix: don't crash on damaged OpenSSH private keys

A short body, a CBC section which isn't a multiple of the block size, or an
encrypted key without a passphrase callback caused a panic.
---
 sign/ssh.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 81172d9..0483b47 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -258,7 +258,7 @@ type opensshED25519 struct {
 
 func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*PrivateKey, error) {
 	magic := append([]byte(opensshv1Magic), 0)
-	if !bytes.Equal(magic, data[0:len(magic)]) {
+	if !bytes.HasPrefix(data, magic) {
 		return nil, ErrBadFormat
 	}
 	remaining := data[len(magic):]
@@ -276,6 +276,10 @@ func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*Private
 	var privateKeyBytes []byte
 	var encrypted bool
 
+	if getpw == nil {
+		getpw = func() ([]byte, error) { return nil, ErrIncorrectPassword }
+	}
+
 	switch {
 	// OpenSSH supports bcrypt KDF w/ AES256-CBC or AES256-CTR mode
 	case w.KdfName == "bcrypt" && w.CipherName == "aes256-cbc":
@@ -288,6 +292,10 @@ func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*Private
 			return nil, err
 		}
 
+		if len(w.PrivKeyBlock)%block.BlockSize() != 0 {
+			return nil, ErrBadLength
+		}
+
 		cbc := cipher.NewCBCDecrypter(block, iv)
 		privateKeyBytes = []byte(w.PrivKeyBlock)
 		cbc.CryptBlocks(privateKeyBytes, privateKeyBytes)
-- 
2.43.0


From 2b9c4c03ae90f00910f697d53b72e09f8e7a059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 11/33] fix: refuse to sign or verify what isn't a regular file

Pipes and devices were hashed as if they were empty, so a signature of one
verified for any other.
---
 sign/iomisc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sign/iomisc.go b/sign/iomisc.go
index cdc1eb3..d6cdbec 100644
--- a/sign/iomisc.go
+++ b/sign/iomisc.go
@@ -51,6 +51,15 @@ func fileCksum(fn string, h hash.Hash) ([]byte, error) {
 
 	defer fd.Close()
 
+	// only regular files can be mapped; anything else would pass as empty
+	fi, err := fd.Stat()
+	if err != nil {
+		return nil, fmt.Errorf("can't stat %s: %s", fn, err)
+	}
+	if !fi.Mode().IsRegular() {
+		return nil, fmt.Errorf("%s is not a regular file", fn)
+	}
+
 	sz, err := mmap.Reader(fd, func(b []byte) error {
 		h.Write(b)
 		return nil
-- 
2.43.0


From 336573c8d1ddd5409a57f5fde19d7e0a696ae05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 12/33] fix: report errors of writing the signature or
 decrypted file

'sign' ignored write and close errors and 'decrypt' ignored the close error (which
includes sync and rename): both exited with status 0 without an output file.
---
 src/crypt.go |  4 +++-
 src/sign.go  | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 9de5638..4ccda71 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -343,7 +343,9 @@ func decrypt(args []string) {
 		Die("%s", err)
 	}
 
-	outfd.Close()
+	if err = outfd.Close(); err != nil {
+		Die("%s", err)
+	}
 
 	if test {
 		Warn("Enc file OK")
diff --git a/src/sign.go b/src/sign.go
index f6e92b0..288ca10 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -111,6 +111,13 @@ Options:
 	}
 
 	sigbytes, err := sig.MarshalBinary(fmt.Sprintf("input=%s", fn))
-	fd.Write(sigbytes)
-	fd.Close()
+	if err != nil {
+		Die("%s", err)
+	}
+	if _, err = fd.Write(sigbytes); err != nil {
+		Die("%s", err)
+	}
+	if err = fd.Close(); err != nil {
+		Die("%s", err)
+	}
 }
-- 
2.43.0


From cbadb5523f3c7955295a7e6412522713e6a0ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 13/33] fix: refuse to overwrite the input file of encrypt and
 decrypt

The existing check never ran because 'inf' was shadowed.
---
 src/crypt.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/crypt.go b/src/crypt.go
index 4ccda71..5469c7d 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -141,6 +141,8 @@ func encrypt(args []string) {
 			mode = ist.Mode()
 		}
 
+		mustDiffer(infile, outfile)
+
 		var opts uint32
 		if force {
 			opts |= fio.OPT_OVERWRITE
@@ -307,6 +309,8 @@ func decrypt(args []string) {
 			mode = ist.Mode()
 		}
 
+		mustDiffer(infile, outfile)
+
 		var opts uint32
 		if force {
 			opts |= fio.OPT_OVERWRITE
@@ -399,3 +403,19 @@ func mustOpen(fn string, flag int) *os.File {
 	}
 	return fdk
 }
+
+// Die if the output file is the same as the input file
+func mustDiffer(infile, outfile string) {
+	if len(infile) == 0 || infile == "-" {
+		return
+	}
+
+	ist, err := os.Stat(infile)
+	if err != nil {
+		Die("can't stat %s: %s", infile, err)
+	}
+
+	if ost, err := os.Stat(outfile); err == nil && os.SameFile(ist, ost) {
+		Die("won't create output file: same as input file!")
+	}
+}
-- 
2.43.0


From 55f5faa88069d7bcbf8f38499557dd05328a4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 14/33] fix: accept OpenSSH public keys with no comment or one
 with spaces

---
 sign/ssh.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 0483b47..b7b0bad 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -58,11 +58,15 @@ func parseSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*PrivateKey,
 
 func parseSSHPublicKey(in []byte) (*PublicKey, error) {
 	splitter := regexp.MustCompile("[ \\t]+")
-	v := splitter.Split(string(in), -1)
-	if len(v) != 3 {
+	line := strings.TrimSpace(string(in))
+	v := splitter.Split(line, 3)
+	if len(v) < 2 || v[0] != ssh.KeyAlgoED25519 || strings.ContainsAny(line, "\r\n") {
 		return nil, ErrBadPublicKey
 	}
 
+	// the comment is optional and can have spaces
+	v = append(v, "")
+
 	pk, err := parseEncPubKey([]byte(v[1]), v[2])
 	if err == nil && pk == nil {
 		// some other kind of key
-- 
2.43.0


From a89528b6e90ff4d38100caf23fd60431497e845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 15/33] fix: don't make files with a header that can't be read
 back

With too many recipients the header exceeds the limit enforced by NewDecryptor.
---
 sign/encrypt.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 3d082e7..dc8f0f7 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -92,6 +92,8 @@ const (
 	_MagicLen    = len(_Magic)
 	_FixedHdrLen = _MagicLen + 1 + 4 // 1: version, 4: len of variable segment
 
+	_maxVarSize = 1048576 // largest variable segment
+
 	_AesKeySize    = 32
 	_AEADNonceSize = 12
 	_SaltSize      = 32
@@ -245,6 +247,11 @@ func readChunk(rd io.Reader, buf []byte) (int, error) {
 func (e *Encryptor) start(wr io.Writer) error {
 	varSize := e.Size()
 
+	// no one will be able to decrypt such a file
+	if varSize > _maxVarSize {
+		return ErrHeaderTooBig
+	}
+
 	buffer := make([]byte, _FixedHdrLen+varSize+sha256.Size)
 	fixHdr := buffer[:_FixedHdrLen]
 	varHdr := buffer[_FixedHdrLen : _FixedHdrLen+varSize]
@@ -418,7 +425,7 @@ func NewDecryptor(rd io.Reader) (*Decryptor, error) {
 	varSize := binary.BigEndian.Uint32(b[_MagicLen+1:])
 
 	// sanity check on variable segment length
-	if varSize > 1048576 {
+	if varSize > _maxVarSize {
 		return nil, ErrHeaderTooBig
 	}
 	if varSize < 32 {
-- 
2.43.0


From b897434f4268cf7ddb8aca4306dff7911418ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 16/33] fix: make the cached Curve25519 keys safe for
 concurrent use

Sessions sharing a key object raced on the lazily computed value.
---
 sign/keys.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sign/keys.go b/sign/keys.go
index 251f43b..4244a1d 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -28,6 +28,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"math/big"
+	"sync"
 
 	Ed "crypto/ed25519"
 	"golang.org/x/crypto/scrypt"
@@ -58,6 +59,9 @@ type PublicKey struct {
 	hash []byte
 }
 
+// protects the cached Curve25519 points; keys can be shared between goroutines
+var curveMu sync.Mutex
+
 // Length of Ed25519 Public Key Hash
 const PKHashLength = 16
 
@@ -200,6 +204,9 @@ func (sk *PrivateKey) PublicKey() *PublicKey {
 
 // Convert an Ed25519 Private Key to Curve25519 Private key
 func (sk *PrivateKey) ToCurve25519SK() []byte {
+	curveMu.Lock()
+	defer curveMu.Unlock()
+
 	if sk.ck == nil {
 		var ek [64]byte
 
@@ -444,6 +451,9 @@ var curve25519P, _ = new(big.Int).SetString("57896044618658097711785492504343953
 // Convert an Ed25519 Public Key to Curve25519 public key
 // from github.com/FiloSottile/age
 func (pk *PublicKey) ToCurve25519PK() []byte {
+	curveMu.Lock()
+	defer curveMu.Unlock()
+
 	if pk.ck != nil {
 		return pk.ck
 	}
-- 
2.43.0


From 2a1dbcc9a7d104af5049eebd30e953de51fce8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 17/33] fix: refuse to hash files that have content but report
 no size

Files in /proc and the like are regular but have size 0; they were signed and
verified as if they were empty.
---
 sign/iomisc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sign/iomisc.go b/sign/iomisc.go
index d6cdbec..83f8be3 100644
--- a/sign/iomisc.go
+++ b/sign/iomisc.go
@@ -19,6 +19,7 @@ import (
 	"github.com/opencoff/go-fio"
 	"github.com/opencoff/go-mmap"
 	"hash"
+	"io"
 	"os"
 )
 
@@ -69,6 +70,14 @@ func fileCksum(fn string, h hash.Hash) ([]byte, error) {
 	}
 
 	var b [8]byte
+
+	// some files (eg in /proc) have content but no size to map
+	if sz == 0 {
+		if n, err := fd.Read(b[:1]); n > 0 || err != io.EOF {
+			return nil, fmt.Errorf("%s has no size; can't read it reliably", fn)
+		}
+	}
+
 	binary.BigEndian.PutUint64(b[:], uint64(sz))
 	h.Write(b[:])
 
-- 
2.43.0


From 1d19adcf04f24d054b9b54e6e6742b60ce8160c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 18/33] fix: refuse signature files without a well-formed
 signature

An empty document, a public key or a truncated signature was returned as a valid
Signature object.
---
 sign/sign.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sign/sign.go b/sign/sign.go
index bce9d85..304a424 100644
--- a/sign/sign.go
+++ b/sign/sign.go
@@ -112,6 +112,15 @@ func makeSignature(sig *Signature, b []byte) (*Signature, error) {
 		return nil, fmt.Errorf("can't decode Base64:Pkhash <%s>: %s", ss.Pkhash, err)
 	}
 
+	// a signature that lost its content is not a signature; the hash of
+	// the public key is merely a hint
+	if len(s) != Ed.SignatureSize {
+		return nil, fmt.Errorf("signature is malformed (len %d!)", len(s))
+	}
+	if len(p) != 0 && len(p) != PKHashLength {
+		return nil, fmt.Errorf("signature is malformed (pkhash len %d!)", len(p))
+	}
+
 	sig.Sig = s
 	sig.pkhash = p
 	return sig, nil
-- 
2.43.0


From 6882108eae528033486c13e1aaa766b11508f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 19/33] fix: don't let the chunk counter wrap around

The counter is part of the AEAD nonce; after 2^32 chunks the data key was used
with the nonces of the first chunks again.
---
 sign/encrypt.go | 3 +++
 sign/errors.go  | 1 +
 sign/stream.go  | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index dc8f0f7..524b683 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -222,6 +222,9 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 			}
 
 			i++
+			if i == 0 && !eof {
+				return ErrTooManyChunks
+			}
 		}
 	}
 
diff --git a/sign/errors.go b/sign/errors.go
index 91fbd28..f253288 100644
--- a/sign/errors.go
+++ b/sign/errors.go
@@ -24,6 +24,7 @@ var (
 	ErrEncStarted     = errors.New("encrypt: can't add new recipient after encryption has started")
 	ErrDecStarted     = errors.New("decrypt: can't add new recipient after decryption has started")
 	ErrEncIsStream    = errors.New("encrypt: can't use Encrypt() after using streaming I/O")
+	ErrTooManyChunks  = errors.New("encrypt: too many chunks; use a larger chunk size")
 	ErrNotSigTool     = errors.New("decrypt: not a sigtool encrypted file?")
 	ErrHeaderTooBig   = errors.New("decrypt: header too large (max 1048576)")
 	ErrHeaderTooSmall = errors.New("decrypt: header too small (min 32)")
diff --git a/sign/stream.go b/sign/stream.go
index b1abb6d..a273ca6 100644
--- a/sign/stream.go
+++ b/sign/stream.go
@@ -85,6 +85,10 @@ func (w *encWriter) Write(b []byte) (int, error) {
 
 			w.n = 0
 			w.blk += 1
+			if w.blk == 0 {
+				w.err = ErrTooManyChunks
+				return 0, w.err
+			}
 		}
 	}
 	return n, nil
-- 
2.43.0


From 83debf87be201d09eb416b4293d42d3458915264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 20/33] fix: a comment must not turn a native private key into
 an OpenSSH one

---
 sign/keys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sign/keys.go b/sign/keys.go
index 4244a1d..5856f9e 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -18,13 +18,13 @@
 package sign
 
 import (
-	"bytes"
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/base64"
+	"encoding/pem"
 	"fmt"
 	"io/ioutil"
 	"math/big"
@@ -283,7 +283,9 @@ func (sk *PrivateKey) MarshalBinary(comment string, pw []byte) ([]byte, error) {
 // input byte stream 'b' is an OpenSSH ed25519 key, this function transparently
 // decodes it.
 func (sk *PrivateKey) UnmarshalBinary(b []byte, getpw func() ([]byte, error)) error {
-	if bytes.Index(b, []byte("OPENSSH PRIVATE KEY-")) > 0 {
+	// the comment of a native key can contain anything; so, only go by what is
+	// really a PEM block
+	if blk, _ := pem.Decode(b); blk != nil && blk.Type == "OPENSSH PRIVATE KEY" {
 		xk, err := parseSSHPrivateKey(b, getpw)
 		if err != nil {
 			return err
-- 
2.43.0


From 42421edfe1de59291503cf481f137ad28a14714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 21/33] fix: a key in an option isn't the key of the
 authorized_keys line

---
 sign/ssh.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index b7b0bad..84dffca 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -129,8 +129,13 @@ func parseString(in []byte) (out, rest []byte, ok bool) {
 }
 
 // parseAuthorizedKey parses a public key in OpenSSH binary format and decodes it.
-// removed.
-func parseAuthorizedKey(in []byte) (*PublicKey, error) {
+// removed. What precedes the key must be its type; it could also be a part of a
+// quoted option.
+func parseAuthorizedKey(algo, in []byte) (*PublicKey, error) {
+	if string(algo) != ssh.KeyAlgoED25519 {
+		return nil, ErrBadPublicKey
+	}
+
 	in = bytes.TrimSpace(in)
 	i := bytes.IndexAny(in, " \t")
 	if i == -1 {
@@ -177,7 +182,7 @@ func ParseAuthorizedKeys(in []byte) ([]*PublicKey, error) {
 			continue
 		}
 
-		if pk, err := parseAuthorizedKey(in[i:]); err == nil {
+		if pk, err := parseAuthorizedKey(in[:i], in[i:]); err == nil {
 			if pk != nil {
 				pka = append(pka, pk)
 			}
@@ -222,7 +227,7 @@ func ParseAuthorizedKeys(in []byte) ([]*PublicKey, error) {
 			continue
 		}
 
-		if pk, err := parseAuthorizedKey(in[i:]); err == nil {
+		if pk, err := parseAuthorizedKey(in[:i], in[i:]); err == nil {
 			if pk != nil {
 				pka = append(pka, pk)
 			}
-- 
2.43.0


From ca028d58c08f11ed6f04e21991a23804ab5daebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 22/33] fix: a file that can't be examined isn't absent; don't
 overwrite it

---
 sign/iomisc.go |  3 +++
 src/crypt.go   | 14 +++++++++++++-
 src/sign.go    |  2 ++
 src/sigtool.go | 10 ++++------
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/sign/iomisc.go b/sign/iomisc.go
index 83f8be3..8794d5b 100644
--- a/sign/iomisc.go
+++ b/sign/iomisc.go
@@ -30,6 +30,9 @@ func writeFile(fn string, b []byte, ovwrite bool, mode uint32) error {
 	var opts uint32
 	if ovwrite {
 		opts |= fio.OPT_OVERWRITE
+	} else if _, err := os.Lstat(fn); err == nil || !os.IsNotExist(err) {
+		// NewSafeFile takes every failure to stat 'fn' for its absence
+		return fmt.Errorf("won't overwrite %s: it exists or can't be examined", fn)
 	}
 	sf, err := fio.NewSafeFile(fn, opts, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, os.FileMode(mode))
 	if err != nil {
diff --git a/src/crypt.go b/src/crypt.go
index 5469c7d..3edd87d 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -146,6 +146,8 @@ func encrypt(args []string) {
 		var opts uint32
 		if force {
 			opts |= fio.OPT_OVERWRITE
+		} else if exists(outfile) {
+			Die("won't overwrite existing %s", outfile)
 		}
 		sf, err := fio.NewSafeFile(outfile, opts, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
 		if err != nil {
@@ -314,6 +316,8 @@ func decrypt(args []string) {
 		var opts uint32
 		if force {
 			opts |= fio.OPT_OVERWRITE
+		} else if exists(outfile) {
+			Die("won't overwrite existing %s", outfile)
 		}
 		sf, err := fio.NewSafeFile(outfile, opts, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
 		if err != nil {
@@ -415,7 +419,15 @@ func mustDiffer(infile, outfile string) {
 		Die("can't stat %s: %s", infile, err)
 	}
 
-	if ost, err := os.Stat(outfile); err == nil && os.SameFile(ist, ost) {
+	ost, err := os.Stat(outfile)
+	if err != nil {
+		if !os.IsNotExist(err) {
+			Die("can't stat %s: %s", outfile, err)
+		}
+		return
+	}
+
+	if os.SameFile(ist, ost) {
 		Die("won't create output file: same as input file!")
 	}
 }
diff --git a/src/sign.go b/src/sign.go
index 288ca10..cc6f403 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -72,6 +72,8 @@ Options:
 		var opts uint32
 		if force {
 			opts |= fio.OPT_OVERWRITE
+		} else if exists(outf) {
+			Die("won't overwrite existing %s", outf)
 		}
 		sf, err := fio.NewSafeFile(outf, opts, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
 		if err != nil {
diff --git a/src/sigtool.go b/src/sigtool.go
index f22975a..ef74dcb 100644
--- a/src/sigtool.go
+++ b/src/sigtool.go
@@ -113,13 +113,11 @@ Commands:
 	os.Exit(c)
 }
 
-// Return true if $bn.key or $bn.pub exist; false otherwise
+// Return true if $bn.key or $bn.pub exist (or we can't be sure that they
+// don't); false otherwise
 func exists(nm string) bool {
-	if _, err := os.Stat(nm); err == nil {
-		return true
-	}
-
-	return false
+	_, err := os.Lstat(nm)
+	return err == nil || !os.IsNotExist(err)
 }
 
 // This will be filled in by "build"
-- 
2.43.0


From 779bb98fdec1d21c73f1a5c3ca6d56dec451bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 23/33] fix: clean up even if stdout or stderr is a closed pipe

---
 src/sigtool.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sigtool.go b/src/sigtool.go
index ef74dcb..1424c61 100644
--- a/src/sigtool.go
+++ b/src/sigtool.go
@@ -17,8 +17,10 @@ package main
 import (
 	"fmt"
 	"os"
+	"os/signal"
 	"path"
 	"strings"
+	"syscall"
 
 	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
@@ -30,6 +32,10 @@ var Z string = path.Base(os.Args[0])
 func main() {
 	var ver, help, debug bool
 
+	// a closed stdout or stderr must not keep us from cleaning up; writes
+	// to them fail with EPIPE instead.
+	signal.Ignore(syscall.SIGPIPE)
+
 	mf := flag.NewFlagSet(Z, flag.ExitOnError)
 	mf.SetInterspersed(false)
 	mf.BoolVarP(&ver, "version", "v", false, "Show version info and exit")
-- 
2.43.0


From 79567e75d4609c03ea4cb73b9fe47ea952de7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 24/33] fix: don't leave half of a key pair behind

---
 src/gen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gen.go b/src/gen.go
index d99e16f..fcfab9c 100644
--- a/src/gen.go
+++ b/src/gen.go
@@ -89,12 +89,25 @@ Options:
 		Die("%s", err)
 	}
 
+	// keep the old key around until both files are in place
+	bak := fmt.Sprintf("%s.tmp.%d", skn, os.Getpid())
+	olderr := os.Link(skn, bak)
+	if olderr == nil {
+		AtExit(func() { os.Remove(bak) })
+	}
+
 	if err = sk.Serialize(skn, comment, force, pw); err != nil {
 		Die("%s", err)
 	}
 
 	pk := sk.PublicKey()
 	if err = pk.Serialize(pkn, comment, force); err != nil {
+		// half a key pair is worse than none
+		if olderr == nil {
+			os.Rename(bak, skn)
+		} else if os.IsNotExist(olderr) {
+			os.Remove(skn)
+		}
 		Die("%s", err)
 	}
 }
-- 
2.43.0


From 148db1ced0ba9fce09e370344a74400cd10b7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 25/33] fix: don't overwrite the input when it is read from
 stdin

---
 src/crypt.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 3edd87d..2d14cdc 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -410,11 +410,16 @@ func mustOpen(fn string, flag int) *os.File {
 
 // Die if the output file is the same as the input file
 func mustDiffer(infile, outfile string) {
+	var ist os.FileInfo
+	var err error
+
 	if len(infile) == 0 || infile == "-" {
-		return
+		// stdin may well be redirected from a file
+		infile = "<stdin>"
+		ist, err = os.Stdin.Stat()
+	} else {
+		ist, err = os.Stat(infile)
 	}
-
-	ist, err := os.Stat(infile)
 	if err != nil {
 		Die("can't stat %s: %s", infile, err)
 	}
-- 
2.43.0


From 24a8ed01ddccad1e813b9a13d8432ec54977c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:48 +0000
Subject: [PATCH 26/33] fix: without --overwrite, don't replace a file that
 appeared while we were working

Whether the output exists was only checked at the start; the final rename
replaced a file made in the meantime by somebody else. Link the output to its
name instead, which fails if the name is taken.
---
 internal/newfile/newfile.go | 69 +++++++++++++++++++++++++++++++++++++
 sign/iomisc.go              | 11 ++++--
 src/crypt.go                |  7 ++++
 src/sign.go                 |  4 +++
 4 files changed, 89 insertions(+), 2 deletions(-)
 create mode 100644 internal/newfile/newfile.go

diff --git a/internal/newfile/newfile.go b/internal/newfile/newfile.go
new file mode 100644
index 0000000..3c91396
--- /dev/null
+++ b/internal/newfile/newfile.go
@@ -0,0 +1,69 @@
+// newfile.go - create files without ever replacing one
+//
+// Licensing Terms: GPLv2
+//
+// This software does not come with any express or implied
+// warranty; it is provided "as is". No claim  is made to its
+// suitability for any purpose.
+
+// Package newfile is for output files that must not replace existing ones.
+package newfile
+
+import (
+	"os"
+
+	"github.com/opencoff/go-fio"
+)
+
+// File is a SafeFile that doesn't replace a file which came into being after the
+// SafeFile was made: renaming a file replaces such a file, linking it doesn't.
+type File struct {
+	*fio.SafeFile
+
+	err  error
+	done bool
+}
+
+// New makes a File from an open SafeFile
+func New(sf *fio.SafeFile) *File {
+	return &File{SafeFile: sf}
+}
+
+// Write writes to the file; a file with write errors can't be closed successfully.
+func (f *File) Write(b []byte) (int, error) {
+	n, err := f.SafeFile.Write(b)
+	if err != nil {
+		f.err = err
+	}
+	return n, err
+}
+
+// Close gives the file its name unless that name is taken.
+func (f *File) Close() error {
+	if f.done || f.err != nil {
+		return f.SafeFile.Close()
+	}
+	f.done = true
+
+	// the file is complete once it has its name
+	if err := f.Sync(); err != nil {
+		f.Abort()
+		return err
+	}
+
+	// not every file system has links; there, we can only rename
+	err := os.Link(f.Name(), f.RealName())
+	if os.IsExist(err) {
+		f.Abort()
+		return err
+	}
+	linked := err == nil
+
+	// this removes the temporary name
+	if err = f.SafeFile.Close(); err != nil && linked {
+		os.Remove(f.RealName())
+	}
+	return err
+}
+
+// EOF
diff --git a/sign/iomisc.go b/sign/iomisc.go
index 8794d5b..3ee3c91 100644
--- a/sign/iomisc.go
+++ b/sign/iomisc.go
@@ -21,6 +21,8 @@ import (
 	"hash"
 	"io"
 	"os"
+
+	"github.com/opencoff/sigtool/internal/newfile"
 )
 
 // Simple function to reliably write data to a file.
@@ -39,11 +41,16 @@ func writeFile(fn string, b []byte, ovwrite bool, mode uint32) error {
 		return err
 	}
 	defer sf.Abort()
-	if _, err = sf.Write(b); err != nil {
+
+	var wr io.WriteCloser = sf
+	if !ovwrite {
+		wr = newfile.New(sf)
+	}
+	if _, err = wr.Write(b); err != nil {
 		return err
 	}
 
-	return sf.Close()
+	return wr.Close()
 }
 
 // Generate file checksum out of hash function h
diff --git a/src/crypt.go b/src/crypt.go
index 2d14cdc..437e6c4 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -23,6 +23,7 @@ import (
 	"github.com/opencoff/go-fio"
 	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
+	"github.com/opencoff/sigtool/internal/newfile"
 	"github.com/opencoff/sigtool/sign"
 )
 
@@ -157,6 +158,9 @@ func encrypt(args []string) {
 		AtExit(sf.Abort)
 		defer sf.Abort()
 		outfd = sf
+		if !force {
+			outfd = newfile.New(sf)
+		}
 	}
 
 	en, err := sign.NewEncryptor(sk, blksize)
@@ -327,6 +331,9 @@ func decrypt(args []string) {
 		AtExit(sf.Abort)
 		defer sf.Abort()
 		outfd = sf
+		if !force {
+			outfd = newfile.New(sf)
+		}
 	}
 
 	d, err := sign.NewDecryptor(infd)
diff --git a/src/sign.go b/src/sign.go
index cc6f403..8afbb7e 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -21,6 +21,7 @@ import (
 	"github.com/opencoff/go-fio"
 	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
+	"github.com/opencoff/sigtool/internal/newfile"
 	"github.com/opencoff/sigtool/sign"
 )
 
@@ -84,6 +85,9 @@ Options:
 		AtExit(sf.Abort)
 		defer sf.Abort()
 		fd = sf
+		if !force {
+			fd = newfile.New(sf)
+		}
 	}
 
 	sk, err := sign.ReadPrivateKey(kn, func() ([]byte, error) {
-- 
2.43.0


From 9ecbbc64ea75b6bd3167203d6b5fcec5290a6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 27/33] fix: don't mix the passphrase prompt into the output

---
 src/crypt.go   |  4 ++--
 src/gen.go     |  3 +--
 src/sign.go    |  3 +--
 src/sigtool.go | 12 ++++++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 437e6c4..5ff825b 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -69,7 +69,7 @@ func encrypt(args []string) {
 			if len(envpw) > 0 {
 				pws = os.Getenv(envpw)
 			} else {
-				pws, err = utils.Askpass("Enter passphrase for private key", false)
+				pws, err = askpass("Enter passphrase for private key", false)
 				if err != nil {
 					Die("%s", err)
 				}
@@ -264,7 +264,7 @@ func decrypt(args []string) {
 		if len(envpw) > 0 {
 			pws = os.Getenv(envpw)
 		} else {
-			pws, err = utils.Askpass("Enter passphrase for private key", false)
+			pws, err = askpass("Enter passphrase for private key", false)
 			if err != nil {
 				Die("%s", err)
 			}
diff --git a/src/gen.go b/src/gen.go
index fcfab9c..d4377d4 100644
--- a/src/gen.go
+++ b/src/gen.go
@@ -18,7 +18,6 @@ import (
 	"os"
 	"path"
 
-	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
 	"github.com/opencoff/sigtool/sign"
 )
@@ -75,7 +74,7 @@ Options:
 		if len(envpw) > 0 {
 			pws = os.Getenv(envpw)
 		} else {
-			pws, err = utils.Askpass("Enter passphrase for private key", true)
+			pws, err = askpass("Enter passphrase for private key", true)
 			if err != nil {
 				Die("%s", err)
 			}
diff --git a/src/sign.go b/src/sign.go
index 8afbb7e..fb848db 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -19,7 +19,6 @@ import (
 	"os"
 
 	"github.com/opencoff/go-fio"
-	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
 	"github.com/opencoff/sigtool/internal/newfile"
 	"github.com/opencoff/sigtool/sign"
@@ -99,7 +98,7 @@ Options:
 		if len(envpw) > 0 {
 			pws = os.Getenv(envpw)
 		} else {
-			pws, err = utils.Askpass("Enter passphrase for private key", false)
+			pws, err = askpass("Enter passphrase for private key", false)
 			if err != nil {
 				Die("%s", err)
 			}
diff --git a/src/sigtool.go b/src/sigtool.go
index 1424c61..bae50b7 100644
--- a/src/sigtool.go
+++ b/src/sigtool.go
@@ -126,6 +126,18 @@ func exists(nm string) bool {
 	return err == nil || !os.IsNotExist(err)
 }
 
+// Ask for a passphrase. The prompt must not go to stdout: that may well be where
+// our output goes.
+func askpass(prompt string, verify bool) (string, error) {
+	stdout := os.Stdout
+	os.Stdout = os.Stderr
+	defer func() {
+		os.Stdout = stdout
+	}()
+
+	return utils.Askpass(prompt, verify)
+}
+
 // This will be filled in by "build"
 var RepoVersion string = "UNDEFINED"
 var ProductVersion string = "UNDEFINED"
-- 
2.43.0


From be7cce9257aea77891b6ff68fd7e67c4689c24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 28/33] fix: refuse excess arguments instead of ignoring them

---
 src/crypt.go  | 3 +++
 src/gen.go    | 3 +++
 src/sign.go   | 3 +++
 src/verify.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/crypt.go b/src/crypt.go
index 5ff825b..1a7e165 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -248,6 +248,9 @@ func decrypt(args []string) {
 	if len(args) < 1 {
 		Die("Insufficient args. Try '%s --help'", os.Args[0])
 	}
+	if len(args) > 2 {
+		Die("Too many args. Try '%s --help'", os.Args[0])
+	}
 
 	var infd io.Reader = os.Stdin
 	var outfd io.WriteCloser = os.Stdout
diff --git a/src/gen.go b/src/gen.go
index d4377d4..c3595a4 100644
--- a/src/gen.go
+++ b/src/gen.go
@@ -54,6 +54,9 @@ Options:
 	if len(args) < 1 {
 		Die("Insufficient arguments to 'generate'. Try '%s generate -h' ..", Z)
 	}
+	if len(args) > 1 {
+		Die("Too many arguments to 'generate'. Try '%s generate -h' ..", Z)
+	}
 
 	bn := args[0]
 
diff --git a/src/sign.go b/src/sign.go
index fb848db..4ed6f4b 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -55,6 +55,9 @@ Options:
 	if len(args) < 2 {
 		Die("Insufficient arguments to 'sign'. Try '%s sign -h' ..", Z)
 	}
+	if len(args) > 2 {
+		Die("Too many arguments to 'sign'. Try '%s sign -h' ..", Z)
+	}
 
 	kn := args[0]
 	fn := args[1]
diff --git a/src/verify.go b/src/verify.go
index 87ebd48..84a52d3 100644
--- a/src/verify.go
+++ b/src/verify.go
@@ -51,6 +51,9 @@ Options:
 	if len(args) < 3 {
 		Die("Insufficient arguments to 'verify'. Try '%s verify -h' ..", Z)
 	}
+	if len(args) > 3 {
+		Die("Too many arguments to 'verify'. Try '%s verify -h' ..", Z)
+	}
 
 	pn := args[0]
 	sn := args[1]
-- 
2.43.0


From 2a85b1caa5a8992a221b1936d11e7230056eb0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:38 +0000
Subject: [PATCH 29/33] fix: encrypt and decrypt with a wrong option don't
 succeed

---
 src/crypt.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 1a7e165..2006ec9 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -39,9 +39,10 @@ func encrypt(args []string) {
 	var keyfile string
 	var szstr string = "128k"
 	var envpw string
-	var nopw, force bool
+	var help, nopw, force bool
 	var blksize uint64
 
+	fs.BoolVarP(&help, "help", "h", false, "Show this help and exit")
 	fs.StringVarP(&outfile, "outfile", "o", "", "Write the output to file `F`")
 	fs.StringVarP(&keyfile, "sign", "s", "", "Sign using private key `S`")
 	fs.BoolVarP(&nopw, "no-password", "", false, "Don't ask for passphrase to decrypt the private key")
@@ -54,6 +55,12 @@ func encrypt(args []string) {
 		Die("%s", err)
 	}
 
+	if help {
+		fs.SetOutput(os.Stdout)
+		fs.Usage()
+		os.Exit(0)
+	}
+
 	if blksize, err = utils.ParseSize(szstr); err != nil {
 		Die("%s", err)
 	}
@@ -230,8 +237,9 @@ func decrypt(args []string) {
 	var envpw string
 	var outfile string
 	var pubkey string
-	var nopw, test, force bool
+	var help, nopw, test, force bool
 
+	fs.BoolVarP(&help, "help", "h", false, "Show this help and exit")
 	fs.StringVarP(&outfile, "outfile", "o", "", "Write the output to file `F`")
 	fs.BoolVarP(&nopw, "no-password", "", false, "Don't ask for passphrase to decrypt the private key")
 	fs.StringVarP(&envpw, "env-password", "E", "", "Use passphrase from environment variable `E`")
@@ -244,6 +252,12 @@ func decrypt(args []string) {
 		Die("%s", err)
 	}
 
+	if help {
+		fs.SetOutput(os.Stdout)
+		fs.Usage()
+		os.Exit(0)
+	}
+
 	args = fs.Args()
 	if len(args) < 1 {
 		Die("Insufficient args. Try '%s --help'", os.Args[0])
@@ -391,7 +405,6 @@ Options:
 `, Z, Z, Z, Z)
 
 	fs.PrintDefaults()
-	os.Exit(0)
 }
 
 func decryptUsage(fs *flag.FlagSet) {
@@ -407,7 +420,6 @@ Options:
 `, Z, Z, Z, Z)
 
 	fs.PrintDefaults()
-	os.Exit(0)
 }
 
 func mustOpen(fn string, flag int) *os.File {
-- 
2.43.0


From 2874775570e0a9a96aada34bdee29bd5c389671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:14 +0000
Subject: [PATCH 30/33] fix: don't drop sender authentication when its key file
 has an empty name

---
 src/crypt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 2006ec9..af897b1 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -68,7 +68,7 @@ func encrypt(args []string) {
 	var pws, infile string
 	var sk *sign.PrivateKey
 
-	if len(keyfile) > 0 {
+	if fs.Changed("sign") {
 		sk, err = sign.ReadPrivateKey(keyfile, func() ([]byte, error) {
 			if nopw {
 				return nil, nil
@@ -294,7 +294,7 @@ func decrypt(args []string) {
 
 	var pk *sign.PublicKey
 
-	if len(pubkey) > 0 {
+	if fs.Changed("verify-sender") {
 		pk, err = sign.ReadPublicKey(pubkey)
 		if err != nil {
 			Die("%s", err)
-- 
2.43.0


From 68168c222d2922edec85d98375ccdb1190f68c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 31/33] fix: refuse a block size with something after its
 suffix

---
 src/crypt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crypt.go b/src/crypt.go
index af897b1..d7bd102 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -61,6 +61,10 @@ func encrypt(args []string) {
 		os.Exit(0)
 	}
 
+	// ParseSize() ignores what follows the suffix
+	if i := strings.IndexAny(szstr, "BkKMGTPE"); i >= 0 && i < len(szstr)-1 {
+		Die("malformed block size %q", szstr)
+	}
 	if blksize, err = utils.ParseSize(szstr); err != nil {
 		Die("%s", err)
 	}
-- 
2.43.0


From 5172b796ebc13631059778599230ba5c3130bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 32/33] fix: restore the terminal when a passphrase prompt is
 interrupted

---
 src/sigtool.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sigtool.go b/src/sigtool.go
index bae50b7..a515e65 100644
--- a/src/sigtool.go
+++ b/src/sigtool.go
@@ -25,6 +25,7 @@ import (
 	"github.com/opencoff/go-utils"
 	flag "github.com/opencoff/pflag"
 	"github.com/opencoff/sigtool/sign"
+	"golang.org/x/crypto/ssh/terminal"
 )
 
 var Z string = path.Base(os.Args[0])
@@ -135,6 +136,23 @@ func askpass(prompt string, verify bool) (string, error) {
 		os.Stdout = stdout
 	}()
 
+	// We have echo turned off; don't leave it like that if we are interrupted
+	if st, err := terminal.GetState(syscall.Stdin); err == nil {
+		ch := make(chan os.Signal, 1)
+		for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGHUP} {
+			if !signal.Ignored(s) {
+				signal.Notify(ch, s)
+			}
+		}
+		defer signal.Stop(ch)
+
+		go func() {
+			<-ch
+			terminal.Restore(syscall.Stdin, st)
+			Exit(1)
+		}()
+	}
+
 	return utils.Askpass(prompt, verify)
 }
 
-- 
2.43.0


From 7f0c1f5bf8cf5b47d3b164e5156f11f700769ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 33/33] fix: reading a key into a used object must not leave
 parts of the old key behind

---
 sign/keys.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sign/keys.go b/sign/keys.go
index 5856f9e..729b5ee 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -183,8 +183,11 @@ func makePrivateKeyFromBytes(sk *PrivateKey, buf []byte) error {
 		Pk:   []byte(edpk),
 		hash: pkhash([]byte(edpk)),
 	}
-	sk.Sk = skb
-	sk.pk = pk
+	// nothing of a previous key must remain
+	*sk = PrivateKey{
+		Sk: skb,
+		pk: pk,
+	}
 	return nil
 }
 
@@ -420,8 +423,11 @@ func makePublicKeyFromBytes(pk *PublicKey, b []byte) error {
 		return fmt.Errorf("public key is malformed (len %d!)", len(b))
 	}
 
-	pk.Pk = make([]byte, 32)
-	pk.hash = pkhash(b)
+	// nothing of a previous key must remain
+	*pk = PublicKey{
+		Pk:   make([]byte, 32),
+		hash: pkhash(b),
+	}
 	copy(pk.Pk, b)
 
 	return nil
-- 
2.43.0

