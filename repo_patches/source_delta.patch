From 7606230df59aecb23636799846ebf64805239749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:06 +0000
Subject: [PATCH 01/22] fix: keep the back link of the following entry when an
 entry is refreshed in the path cache

refreshNode unlinked an entry from the middle of the list without updating
the following entry's prev pointer, so later refreshes corrupted the list and
the wrong entry was evicted.
---
 filetree/fastcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filetree/fastcache.go b/filetree/fastcache.go
index a79a30e..1265dde 100644
--- a/filetree/fastcache.go
+++ b/filetree/fastcache.go
@@ -55,6 +55,7 @@ func (f *FastCache) refreshNode(d *DirMapping) {
 		} else {
 			f.head = d.next
 		}
+		d.next.prev = d.prev
 		d.prev = f.last
 		d.next = nil
 		f.last.next = d
-- 
2.43.0


From 55ae5d5d73427c3f9ada585cc8115c5e22cd7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:36 +0000
Subject: [PATCH 02/22] fix: treat empty files, listings and names as results
 in the requester

An empty file or directory was cached as neither data nor error, so every
read of one failed after the retries. A result that came with an error was
cached and handed out as a success.
---
 requester/requester.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/requester/requester.go b/requester/requester.go
index d5d8b93..fdca2ff 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -155,20 +155,20 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
 				func() (interface{}, error) {
 					fileData, err := r.backend.ReadFile(w.arg1)
-					if len(fileData) > 0 {
-						return fileData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return fileData, nil
 				},
 			)
 		case workReadDir:
 			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
 				func() (interface{}, error) {
 					dirData, err := r.backend.ReadDir(w.arg1)
-					if len(dirData) > 0 {
-						return dirData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return dirData, nil
 				},
 			)
 		case workDecryptName:
@@ -176,10 +176,10 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,
 				func() (interface{}, error) {
 					decryptedName, err := r.decrypter.DecryptName(w.arg1, w.arg2)
-					if len(decryptedName) > 0 {
-						return decryptedName, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return decryptedName, nil
 				},
 			)
 		case workNone:
-- 
2.43.0


From 1c3217828e3b7ac797a92cfd671124992c32c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:04 +0000
Subject: [PATCH 03/22] fix: read empty files as empty and refuse files that
 end inside the first block

A zero-length file and a file with only a header could not be read, and a
file of 19 to 50 bytes crashed the proxy with an index out of range.
---
 filetree/decrypt.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 32ad17a..43926b0 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -1,16 +1,16 @@
 package filetree
 
 import (
-	"io"
+	"errors"
 
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
 )
 
 // readFileID parses the file ID from the header. It returns an error
-// if there is an error parsing or if the file is practically empty.
+// if there is an error parsing or if the file is too short to have a header.
 func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
-	if len(fileBytes) <= contentenc.HeaderLen {
-		return nil, io.EOF
+	if len(fileBytes) < contentenc.HeaderLen {
+		return nil, errors.New("file is shorter than its header")
 	}
 	buf := fileBytes[:contentenc.HeaderLen]
 	h, err := contentenc.ParseHeader(buf)
@@ -21,11 +21,22 @@ func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
 }
 
 func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
+	if len(fileBytes) == 0 {
+		// Empty files are stored without a header
+		return []byte{}, nil
+	}
 	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
 	fileID, err := f.readFileID(fileBytes)
 	if err != nil {
 		return nil, err
 	}
+	if len(fileBytes) == contentenc.HeaderLen {
+		// Created but never written to
+		return []byte{}, nil
+	}
+	if plainLength == 0 {
+		return nil, errors.New("file is too short to hold a block")
+	}
 	blocks := f.cEnc.ExplodePlainRange(0, plainLength)
 	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
 	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
-- 
2.43.0


From 1bbb9abf1ec81995641a0db518d22b78804d374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 04/22] fix: refuse directory IVs of the wrong length

The name cipher panics on any tweak that is not 16 bytes long, so a damaged
gocryptfs.diriv on the remote crashed the proxy.
---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 95be0e4..353024c 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -227,6 +227,9 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	if err != nil {
 		return fmt.Errorf("error reading directory IV: %s", err)
 	}
+	if len(iv) != nametransform.DirIVLen {
+		return fmt.Errorf("invalid directory IV: want %d bytes, have %d", nametransform.DirIVLen, len(iv))
+	}
 	dirListing, err := f.reqCacher.ReadDir(cipherPath)
 	if err != nil {
 		return fmt.Errorf("error listing directory: %s", err)
-- 
2.43.0


From eef358c7a4c5176ab4e29240f11db3657c4c2ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:00 +0000
Subject: [PATCH 05/22] fix: refuse encrypted names that are too long to
 decrypt

The name cipher panics on more than 2048 bytes, so an overlong name in a
remote listing crashed the proxy.
---
 gocrypt/nametransform/names.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gocrypt/nametransform/names.go b/gocrypt/nametransform/names.go
index 65d0b5a..ad87431 100644
--- a/gocrypt/nametransform/names.go
+++ b/gocrypt/nametransform/names.go
@@ -65,6 +65,12 @@ func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error
 		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
 		return "", syscall.EBADMSG
 	}
+	// A name of up to NameMax bytes is padded to at most NameMax+1 bytes. EME
+	// cannot take more than 2048.
+	if len(bin) > NameMax+1 {
+		tlog.Debug.Printf("DecryptName: decoded length %d is too long", len(bin))
+		return "", syscall.EBADMSG
+	}
 	bin = n.emeCipher.Decrypt(iv, bin)
 	bin, err = unPad16(bin)
 	if err != nil {
-- 
2.43.0


From 7923b6b83a03b66a5fcc5f3bf70dfe735b95dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 06/22] fix: let Stat find regular files

Stat resolved its path as a directory, so it failed for every regular file
and clients could not stat any file before opening it.
---
 filetree/filetree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 353024c..c396832 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -185,9 +185,16 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	cleanPath := filepath.Clean(plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
-	cipherPath, err := f.findPath(cleanPath)
+	cipherPath, err := f.findPath(filepath.Dir(cleanPath))
 	if err != nil {
-		return statErr(fmt.Sprintf("error finding path: %s", err))
+		return statErr(fmt.Sprintf("error finding parent path: %s", err))
+	}
+	if cleanPath != "/" {
+		entry, err := f.findInDir(cipherPath, plainBaseName)
+		if err != nil {
+			return statErr(fmt.Sprintf("error finding path: %s", err))
+		}
+		cipherPath = filepath.Join(cipherPath, entry.Name())
 	}
 	item, err := f.fsAccessor.Stat(cipherPath)
 	if err != nil {
-- 
2.43.0


From e95c96e769e97e91dfa964496b26375d99d7a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:00 +0000
Subject: [PATCH 07/22] fix: end the lookup of relative paths at the root

The parent of a relative path is eventually ".", whose parent is "." again,
so looking one up recursed until the stack overflowed and the process died.
---
 filetree/filetree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index c396832..1ebd115 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -280,7 +280,7 @@ func (f *FileTree) findInDir(cipherPath, plainName string) (item os.FileInfo, er
 // returns the full ciphertext path and an error if the path could not be found.
 func (f *FileTree) findPath(plainPath string) (string, error) {
 	cleanPath := filepath.Clean(plainPath)
-	if cleanPath == "/" {
+	if cleanPath == "/" || cleanPath == "." {
 		return f.encryptedRoot, nil
 	}
 
-- 
2.43.0


From faae34ffeed452e641b95c36f06de1db7125cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 08/22] fix: exit on scrypt parameters that cannot be used
 instead of panicking

---
 gocrypt/configfile/scrypt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gocrypt/configfile/scrypt.go b/gocrypt/configfile/scrypt.go
index c64862a..7f28b4d 100644
--- a/gocrypt/configfile/scrypt.go
+++ b/gocrypt/configfile/scrypt.go
@@ -1,7 +1,6 @@
 package configfile
 
 import (
-	"log"
 	"math"
 	"os"
 
@@ -66,7 +65,8 @@ func (s *ScryptKDF) DeriveKey(pw []byte) []byte {
 
 	k, err := scrypt.Key(pw, s.Salt, s.N, s.R, s.P, s.KeyLen)
 	if err != nil {
-		log.Panicf("DeriveKey failed: %v", err)
+		tlog.Fatal.Printf("Fatal: DeriveKey failed: %v", err)
+		os.Exit(exitcodes.ScryptParams)
 	}
 	return k
 }
@@ -103,4 +103,8 @@ func (s *ScryptKDF) validateParams() {
 		tlog.Fatal.Printf("Fatal: scrypt parameter KeyLen below minimum: value=%d, min=%d", s.KeyLen, cryptocore.KeyLen)
 		os.Exit(exitcodes.ScryptParams)
 	}
+	if s.KeyLen > cryptocore.KeyLen {
+		tlog.Fatal.Printf("Fatal: scrypt parameter KeyLen above maximum: value=%d, max=%d", s.KeyLen, cryptocore.KeyLen)
+		os.Exit(exitcodes.ScryptParams)
+	}
 }
-- 
2.43.0


From 96b64bcbb9afaccbde183f0a59952c3591d8ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 09/22] fix: refuse to unlock a master key of the wrong length

---
 gocrypt/configfile/config_file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 1c96611..ec9a44f 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -237,6 +237,11 @@ func (cf *ConfFile) DecryptMasterKey(password []byte) (masterkey []byte, err err
 		tlog.Warn.Printf("failed to unlock master key: %s", err.Error())
 		return nil, exitcodes.NewErr("Password incorrect.", exitcodes.PasswordIncorrect)
 	}
+	// DecryptBlock() passes empty and all-zero blocks through without
+	// authentication. Neither is a master key.
+	if len(masterkey) != cryptocore.KeyLen {
+		return nil, fmt.Errorf("invalid master key: want %d bytes, have %d", cryptocore.KeyLen, len(masterkey))
+	}
 	return masterkey, nil
 }
 
-- 
2.43.0


From e69e7567324356e3dfdc456db15e6ce6530c28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 10/22] fix: refuse to open a file system without a password

---
 filetree/filetree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 1ebd115..5cd25d8 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -73,6 +73,10 @@ func Init(
 	if err != nil {
 		return nil, err
 	}
+	if len(masterKey) == 0 {
+		// LoadAndDecrypt does not unlock the key if the password is empty
+		return nil, errors.New("no password given")
+	}
 	cryptoBackend := cryptocore.BackendGoGCM
 
 	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
-- 
2.43.0


From 15b92d23e2bdc7bd2dae17e9ba83f685ab1442d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:16 +0000
Subject: [PATCH 11/22] fix: keep answers for different directory IVs apart in
 the requester

---
 requester/complexkey.go  | 15 +++------------
 requester/makerequest.go |  2 +-
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/requester/complexkey.go b/requester/complexkey.go
index 83a5c98..6c35fe3 100644
--- a/requester/complexkey.go
+++ b/requester/complexkey.go
@@ -2,19 +2,10 @@ package requester
 
 import (
 	"fmt"
-
-	"github.com/dchest/siphash"
-)
-
-// Code adapted from github.com/cornelk/hashmap
-// Under the Apache 2.0 license:
-// https://github.com/cornelk/hashmap/blob/33e58823eb9d4426a8d2b604cece33c3c15df8cc/LICENSE
-const (
-	// generated by splitting the md5 sum of "hashmap"
-	sipHashKey1 = 0xdda7806a4847ec61
-	sipHashKey2 = 0xb5940c2623a5aabd
 )
 
+// complexKey returns a key that is different for every pair of s and b: the
+// hex encoding of b contains no "+", so that the last one separates the two.
 func complexKey(s string, b []byte) string {
-	return fmt.Sprintf("%s+%x", s, siphash.Hash(sipHashKey1, sipHashKey2, b))
+	return fmt.Sprintf("%s+%x", s, b)
 }
diff --git a/requester/makerequest.go b/requester/makerequest.go
index 752eaa5..ee222c4 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -21,7 +21,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 		panic("Invalid request type")
 	}
 	key := arg1
-	if len(arg2) > 0 {
+	if requestType == workDecryptName {
 		key = complexKey(arg1, arg2)
 	}
 
-- 
2.43.0


From 957fb904f80e3fa40c53e675abd019f25a8e97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 12/22] fix: keep workers of the requester alive when a request
 times out

---
 requester/makerequest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index ee222c4..bde4183 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -33,7 +33,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				return cached.data, nil
 			}
 		}
-		respChan := make(chan *workTicket)
+		// The channel is buffered so that a worker never gets stuck answering a
+		// request that has timed out in the meantime.
+		respChan := make(chan *workTicket, 1)
 		r.workQueue <- work{
 			requestType: requestType,
 			arg1:        arg1,
-- 
2.43.0


From 5b41367e04eedafcf143b50805454b64f93ec53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:51 +0000
Subject: [PATCH 13/22] fix: refuse to start with an incomplete config

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 75f3aa5..7bf7662 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ func main() {
 	if err != nil {
 		log.Fatalln("error loading config file:", err)
 	}
+	if err := cfg.Validate(); err != nil {
+		log.Fatalln("invalid config:", err)
+	}
 
 	// An SSH server is represented by a ServerConfig, which holds
 	// certificate details and handles authentication of ServerConns.
-- 
2.43.0


From cf57d601f77b13d1b77d0f2e2a048ff43c74571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:53 +0000
Subject: [PATCH 14/22] fix: deny subsystem requests without a name instead of
 panicking

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 7bf7662..9d26c22 100644
--- a/main.go
+++ b/main.go
@@ -154,6 +154,9 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 			ok := false
 			switch req.Type {
 			case "subsystem":
+				if len(req.Payload) < 4 {
+					break
+				}
 				logger.Printf("Subsystem: %s\n", req.Payload[4:])
 				if string(req.Payload[4:]) == "sftp" {
 					ok = true
-- 
2.43.0


From 5601166791957d1505deaf8e50c96ff50520e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:55 +0000
Subject: [PATCH 15/22] fix: do not let a client that hangs in the handshake
 block others

---
 main.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/main.go b/main.go
index 9d26c22..143f32a 100644
--- a/main.go
+++ b/main.go
@@ -105,20 +105,26 @@ func main() {
 			logger.Println("failed to accept incoming connection", err)
 			continue
 		}
-		// Before use, a handshake must be performed on the incoming
-		// net.Conn.
-		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
-		if err != nil {
-			logger.Println("failed to handshake", err)
-			continue
-		}
-		logger.Println("SSH server established")
-
-		// The incoming Request channel must be serviced.
-		go ssh.DiscardRequests(reqs)
+		// A client that does not finish its handshake must not keep others
+		// from connecting.
+		go handleConn(nConn, sshConfig, reqHandlers, logger)
+	}
+}
 
-		go handleChannels(chans, reqHandlers, logger)
+func handleConn(nConn net.Conn, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
+	// Before use, a handshake must be performed on the incoming
+	// net.Conn.
+	_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
+	if err != nil {
+		logger.Println("failed to handshake", err)
+		return
 	}
+	logger.Println("SSH server established")
+
+	// The incoming Request channel must be serviced.
+	go ssh.DiscardRequests(reqs)
+
+	handleChannels(chans, reqHandlers, logger)
 }
 
 func handleChannels(chans <-chan ssh.NewChannel, reqHandlers sftp.Handlers, logger *log.Logger) {
-- 
2.43.0


From 3045f04d5e340e5d240d1ccbb9992b3337b1ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:57 +0000
Subject: [PATCH 16/22] fix: report private keys that are not in PEM format
 instead of panicking

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index e1461f9..cf9b8fe 100644
--- a/config/config.go
+++ b/config/config.go
@@ -89,7 +89,7 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 
 func isPrivateKeyEncrypted(key []byte) bool {
 	block, _ := pem.Decode(key)
-	return x509.IsEncryptedPEMBlock(block)
+	return block != nil && x509.IsEncryptedPEMBlock(block)
 }
 
 func (c *Config) GetDecrpytionPassphrase() ([]byte, error) {
-- 
2.43.0


From 580bf8f6f0b439b0a305410bbea56979ccc0a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 17/22] fix: use the AES-SIV backend for file systems that were
 created with it

---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 5cd25d8..0cff8f8 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -78,6 +78,9 @@ func Init(
 		return nil, errors.New("no password given")
 	}
 	cryptoBackend := cryptocore.BackendGoGCM
+	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
+		cryptoBackend = cryptocore.BackendAESSIV
+	}
 
 	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
 	forceDecode := false
-- 
2.43.0


From de55322a7f98d99a368e6107e74c65fb260f738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:07 +0000
Subject: [PATCH 18/22] fix: report that Mkdir is not supported instead of
 success

---
 filetree/filetree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 0cff8f8..5383ef2 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -215,7 +215,7 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 }
 
 func (f *FileTree) Mkdir(plainPath string) error {
-	return nil
+	return errors.New("Not supported yet")
 }
 
 func (f *FileTree) Rename(plainPath string, target string) error {
-- 
2.43.0


From 73766830d557d3006f794ac715a1542a177ac4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 19/22] fix: report a listing or look-up as failed when a name
 request gets no answer

A name request that timed out (all workers busy with a slow remote) was treated
like a name that cannot be decrypted: the entry was silently left out of
listings, and Stat and ReadFile reported an existing entry as missing.
---
 filetree/filetree.go     |  3 +++
 requester/makerequest.go | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 5383ef2..06b335b 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -250,6 +250,9 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	}
 	for _, info := range dirListing {
 		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
+		if _, noAnswer := err.(requester.NoAnswerError); noAnswer {
+			return fmt.Errorf("error decrypting name %s: %s", info.Name(), err)
+		}
 		if err != nil {
 			continue
 		}
diff --git a/requester/makerequest.go b/requester/makerequest.go
index bde4183..7cf2dee 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -1,11 +1,18 @@
 package requester
 
 import (
-	"errors"
 	"fmt"
 	"time"
 )
 
+// NoAnswerError is returned for a request that was given up without an answer
+// of the backend or the decrypter.
+type NoAnswerError string
+
+func (e NoAnswerError) Error() string {
+	return string(e)
+}
+
 func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte) (interface{}, error) {
 	retryErrs := []string{}
 
@@ -130,9 +137,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 			}
 			return d, nil
 		case <-time.After(20 * time.Second):
-			return nil, errors.New("nonresponsive work queue")
+			return nil, NoAnswerError("nonresponsive work queue")
 		}
 	}
-	return nil, fmt.Errorf("somehow could not succeed after retries. Retry errors: %s", retryErrs)
+	return nil, NoAnswerError(fmt.Sprintf("somehow could not succeed after retries. Retry errors: %s", retryErrs))
 
 }
-- 
2.43.0


From 611f218073948072035198698777b37488b4d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 20/22] fix: do not take the end of a connection for the end of
 a file or listing

---
 backend/provider.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/backend/provider.go b/backend/provider.go
index 455cc8c..fb56572 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"bytes"
+	"io"
 	"log"
 	"os"
 
@@ -45,11 +46,19 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	defer p.p.Put(c)
 	defer func() { _ = file.Close() }()
+	info, err := file.Stat()
+	if err != nil {
+		return nil, err
+	}
 	buf := new(bytes.Buffer)
 	_, err = file.WriteTo(buf)
 	if err != nil {
 		return nil, err
 	}
+	if int64(buf.Len()) < info.Size() {
+		// WriteTo takes the end of the connection for the end of the file.
+		return nil, io.ErrUnexpectedEOF
+	}
 	return buf.Bytes(), nil
 }
 
@@ -61,6 +70,11 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 		return nil, err
 	}
 	listing, err := c.sftpConn.ReadDir(path)
+	if err == nil {
+		// ReadDir takes the end of the connection for the end of the listing,
+		// so make sure that there still is one.
+		_, err = c.sftpConn.Stat(path)
+	}
 	if err != nil {
 		// Test the underlying ssh connection to see if it's still okay.
 		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-- 
2.43.0


From 6ea56e2e26f4136404b3c6958b8f488237c183fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:00 +0000
Subject: [PATCH 21/22] fix: do not keep connections whose sftp session is over

---
 backend/pool.go     |  8 ++++++++
 backend/provider.go | 27 ++++++++++++---------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/backend/pool.go b/backend/pool.go
index a386333..d218d38 100644
--- a/backend/pool.go
+++ b/backend/pool.go
@@ -31,6 +31,14 @@ func newConn(remoteAddr string, clientConfig *ssh.ClientConfig) (*conn, error) {
 	return c, nil
 }
 
+// Alive tells whether the server still answers on this connection. The sftp
+// session can be over while the ssh connection it ran on is not.
+func (c *conn) Alive() bool {
+	_, err := c.sftpConn.Getwd()
+	_, answered := err.(*sftp.StatusError)
+	return err == nil || answered
+}
+
 func (c *conn) Close() {
 	if c.sshConn != nil {
 		_ = c.sshConn.Close()
diff --git a/backend/provider.go b/backend/provider.go
index fb56572..8cace68 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -35,12 +35,11 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	file, err := c.sftpConn.Open(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
-			c.Close()
-		} else {
+		// Test the underlying sftp session to see if it's still okay.
+		if c.Alive() {
 			p.p.Put(c)
+		} else {
+			c.Close()
 		}
 		return nil, err
 	}
@@ -76,12 +75,11 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 		_, err = c.sftpConn.Stat(path)
 	}
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
-			c.Close()
-		} else {
+		// Test the underlying sftp session to see if it's still okay.
+		if c.Alive() {
 			p.p.Put(c)
+		} else {
+			c.Close()
 		}
 		return nil, err
 	}
@@ -98,12 +96,11 @@ func (p *Provider) Stat(path string) (os.FileInfo, error) {
 	}
 	stat, err := c.sftpConn.Stat(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
-			c.Close()
-		} else {
+		// Test the underlying sftp session to see if it's still okay.
+		if c.Alive() {
 			p.p.Put(c)
+		} else {
+			c.Close()
 		}
 		return nil, err
 	}
-- 
2.43.0


From 7df91d268a39df413cc54694fc0d725bf79355c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 22/22] fix: tell requests that meet failed ones the error
 instead of giving up after retries

A request whose entry was deleted by another one retrying a failed entry used
up its three attempts and was reported as not answered, and a retry could
delete an answer that had come in between.
---
 requester/makerequest.go | 27 ++++++++++-----------------
 requester/requester.go   |  1 -
 requester/synccache.go   | 11 +++++++----
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 7cf2dee..5669441 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -1,9 +1,6 @@
 package requester
 
-import (
-	"fmt"
-	"time"
-)
+import "time"
 
 // NoAnswerError is returned for a request that was given up without an answer
 // of the backend or the decrypter.
@@ -14,8 +11,6 @@ func (e NoAnswerError) Error() string {
 }
 
 func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte) (interface{}, error) {
-	retryErrs := []string{}
-
 	var cache *syncCache
 	switch requestType {
 	case workReadFile:
@@ -32,7 +27,10 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 		key = complexKey(arg1, arg2)
 	}
 
-	for i := 0; i < cacheErrRetryAttempts; i++ {
+	// Every retry is due to an entry that failed before this request or that
+	// another request or ClearCache deleted, so that the number of retries says
+	// nothing about the backend.
+	for retry := false; ; retry = true {
 		// Return immediately if there is valid data in the cache, otherwise
 		// make a new request.
 		if cached, found := cache.Get(key); found {
@@ -57,7 +55,6 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				// in cache. If it got here, then for some reason the cache was wiped at
 				// some point between receiving a valid ticket and trying to retrieve
 				// from it. Therefore, we retry the request.
-				retryErrs = append(retryErrs, "cache wiped before ticket could be handled")
 				continue
 			}
 			if cached.data != nil {
@@ -69,12 +66,12 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				// because what we're looking for is already in cache. But if the
 				// request got to this point then there was no data in cache.
 				// Therefore we should retry the request.
-				if cached.err != nil {
-					retryErrs = append(retryErrs, "retrying because of cached error")
-				} else {
-					retryErrs = append(retryErrs, "empty data for path in cache")
+				if cached.err != nil && retry {
+					// There was no error when the previous attempt ended, so this
+					// one is not from before this request.
+					return nil, cached.err
 				}
-				cache.Delete(key)
+				cache.DeleteFailed(key)
 				continue
 			}
 
@@ -124,11 +121,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 			// We should never enter a situation where the cached data isn't found
 			// by this point, so we need to retry.
 			if !found {
-				retryErrs = append(retryErrs, "cache entry deleted while waiting")
 				continue
 			}
 			if d == nil && err == nil {
-				retryErrs = append(retryErrs, "data missing by the time request completed")
 				continue
 			}
 
@@ -140,6 +135,4 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 			return nil, NoAnswerError("nonresponsive work queue")
 		}
 	}
-	return nil, NoAnswerError(fmt.Sprintf("somehow could not succeed after retries. Retry errors: %s", retryErrs))
-
 }
diff --git a/requester/requester.go b/requester/requester.go
index fdca2ff..2bd6b2a 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -78,7 +78,6 @@ func (wt *workTicket) Wait() {
 	wt.cv.Wait()
 }
 
-const cacheErrRetryAttempts = 3
 const initialCacheSize = 1000
 const workQueueSize = 1000
 
diff --git a/requester/synccache.go b/requester/synccache.go
index f0f1351..c9b4452 100644
--- a/requester/synccache.go
+++ b/requester/synccache.go
@@ -59,10 +59,13 @@ func (s *syncCache) Set(key string, value genCacheEntry) {
 	s.lock.Unlock()
 }
 
-// Delete deletes the the value associated with the key from the cache in a
-// thread-safe way
-func (s *syncCache) Delete(key string) {
+// DeleteFailed deletes the the value associated with the key from the cache in
+// a thread-safe way if it is an error. A value that has replaced the error in
+// the meantime is left alone.
+func (s *syncCache) DeleteFailed(key string) {
 	s.lock.Lock()
-	delete(s.m, key)
+	if s.m[key].err != nil {
+		delete(s.m, key)
+	}
 	s.lock.Unlock()
 }
-- 
2.43.0

