prop("C17", "Byte ranges split into blocks without loss, overlap or misplacement", ["offsets"],
     "Splitting any plaintext or ciphertext byte range into blocks covers exactly that range, in order and without overlap; every block touched maps to the aligned stored range that holds it. Merging new data into a stored block changes only the bytes written, and cropping a decrypted block returns only the bytes asked for.",
     ["inputs"], "over all offsets below 2^50 and lengths spanning up to 3 blocks (symbolic), all block contents within the bounds",
     "Tests split a few fixed ranges with one block size.",
     ["gocrypt/contentenc/offsets.go", "gocrypt/contentenc/intrablock.go", "gocrypt/contentenc/content.go"],
     [("range splitting", "gocrypt/contentenc/offsets.go:ExplodePlainRange, ExplodeCipherRange"), ("block arithmetic", "gocrypt/contentenc/intrablock.go"), ("merge", "gocrypt/contentenc/content.go:MergeBlocks")],
     ["contentenc.ContentEnc.ExplodePlainRange/ExplodeCipherRange/MergeBlocks"],
     "ranges of up to three blocks at any offset below 2^50; merge and crop exhaustively for a small block size.")

prop("C18", "A file system opens only with its own password and an intact key", ["malice", "format", "conf"],
     "The master key is released only for the password it was wrapped with and an unaltered wrapped key; with a wrong or empty password, an altered, truncated, empty or all-zero wrapped key, an unsupported version, unknown or missing feature flags or weak or unusable key derivation parameters nothing is opened. A sound one always opens. The outcome is then an error or an orderly exit, never a panic and never a file system that works with a different key.",
     ["inputs", "configurations"], "over all wrapped keys of 0 to 80 bytes, all versions, salts of 0 to 40 and passwords of 0 to 3 bytes, pairs of passwords of 16 lengths to 300 bytes (every byte symbolic), dropped and added feature flags (symbolic, 0 to 6 characters), cost parameters around every limit, also for keys wrapped with them",
     "Tests load five fixed configurations and one wrong password.",
     ["gocrypt/configfile/config_file.go", "gocrypt/configfile/scrypt.go", "gocrypt/configfile/feature_flags.go", "filetree/filetree.go", "gocrypt/cryptocore/cryptocore.go"],
     [("configuration checks", "gocrypt/configfile/config_file.go:Load"), ("key unwrapping", "gocrypt/configfile/config_file.go:DecryptMasterKey"), ("cost parameter limits", "gocrypt/configfile/scrypt.go:validateParams"), ("opening", "filetree/filetree.go:Init")],
     ["filetree.Init", "configfile.LoadAndDecrypt"],
     "scrypt, HKDF and AES-GCM are models (injective derivations, ideal authenticated cipher) in the engine and real in replays.")

prop("C06", "A request path always resolves to the same entry, inside the encrypted root", ["paths", "served"],
     "Every path a client can send names the same plaintext entry no matter which requests came before, how it is spelled (repeated slashes, '.', '..') and whether intermediate results are remembered: the entry found by walking the decrypted tree from the root, or an error if there is none. Nothing outside the encrypted root is ever requested from the remote, and equal names in different directories are never confused.",
     ["inputs", "histories"], "over all paths of up to 5 (thorough 7) symbolic bytes, all histories of 2 (thorough 3) requests over 26 spellings, 20 directories against a smaller path cache, directories 40 deep, names of every length to 180 bytes, and all paths of up to 3 (thorough 4) symbolic bytes in every kind of SFTP request",
     "Tests resolve a few fixed paths in one fixed tree, mostly once.",
     ["filetree/filetree.go", "filetree/fastcache.go", "requester/requester.go"],
     [("path resolution", "filetree/filetree.go:findPath"), ("remembered directories", "filetree/fastcache.go")],
     ["filetree.FileTree.ReadFile/ReadDir/Stat", "paths passed to the remote accessor"],
     "trees of up to 20 directories and depth 4; name encryption is a model in the engine, real in replays.")

prop("C08", "Concurrent requests each get the answer to their own question", ["requester", "served", "paths"],
     "However many clients ask at the same time and however their requests interleave with each other, with the workers and with clearing of the remembered answers, every answer that is returned without an error is the remote's answer to exactly that request: the same operation, the same path, the same directory IV and name.",
     ["inputs", "schedules", "histories"], "over all schedules of 2 clients (3 in selected mixes) with 2 workers, all kinds and symbolic arguments of the requests, remote faults, a remote that always fails, and clearing at any point; 1 to 100 workers with as many requests in progress, each made once or twice; 3100 requests in a row; all schedules of 2 look-ups of any two paths of the tree; all mixes of 3 (thorough 4) SFTP requests sent before the first answer is read",
     "Tests run a few goroutines under whatever schedule the runtime picks.",
     ["requester/requester.go", "requester/makerequest.go", "requester/synccache.go", "requester/complexkey.go"],
     [("answer keyed by request", "requester/complexkey.go"), ("hand-over of answers", "requester/makerequest.go")],
     ["requester.Requester ReadFile/ReadDir/DecryptName"],
     "sequentially consistent schedules at the granularity of synchronisation operations and unprotected memory accesses (data races are violations); up to 3 clients and 2 workers.")

prop("C09", "The remote is asked once per distinct request", ["requester"],
     "As long as the remote answers without error, any number of requests for the same thing, concurrent or one after another, cause exactly one request to the remote until the remembered answers are cleared. Empty files, empty listings and empty names count as answers.",
     ["schedules", "histories"], "over all schedules of 2 clients (3 in selected mixes) with 2 workers, all kinds of requests with symbolic arguments",
     "Whether two requests are merged depends on the schedule; a test sees one.",
     ["requester/requester.go", "requester/makerequest.go", "requester/synccache.go", "requester/complexkey.go"],
     [("sharing of requests in flight", "requester/makerequest.go"), ("remembered answers", "requester/synccache.go")],
     ["calls received by the remote accessor"],
     "up to 3 clients and 2 workers, sequentially consistent schedules.")

prop("C10", "Errors of the remote are reported and never remembered", ["requester", "paths", "backend", "wire"],
     "A remote failure is reported to the requests that depended on it, and only to those; no failed or partial answer is kept. As soon as the remote works again, the next request for the same thing succeeds, also if several clients ask at once.",
     ["schedules", "fault_sequences", "histories"], "over every pattern of failing remote calls among the first calls, all schedules of 2 clients with 2 workers, whole path lookups with one or two failing calls at any position, up to 1000 failures in a row, and every packet of the SFTP session answered with an error, cut short, or replaced by the end of the session or of the connection, also with the whole proxy on top",
     "Tests do not make the remote fail and recover, let alone at every call.",
     ["requester/requester.go", "filetree/filetree.go", "backend/provider.go"],
     [("error propagation", "requester/requester.go"), ("no caching of failures", "filetree/filetree.go:findPath"), ("partial answers", "backend/provider.go:ReadFile, ReadDir")],
     ["filetree.FileTree.ReadFile/ReadDir/Stat", "requester.Requester"],
     "up to two failing calls per lookup; 2 clients and 2 workers; the SFTP client library is executed as it is, over a model server that speaks the protocol.")

prop("C11", "Every request ends, and no schedule stops the service", ["requester"],
     "Under every schedule, with failing, slow or healthy remotes and with clearing of remembered answers at any time, every request returns: with an answer, the remote's error or a time-out. A request that timed out leaves nothing behind that blocks: later requests are answered as usual, workers stay alive and nothing waits forever.",
     ["schedules", "fault_sequences"], "over all schedules of 2 clients (3 in selected mixes) with 1 or 2 workers, expiry of timers at any point, faults at any call; 1 to 100 workers with as many requests in progress; up to 3100 requests or 1000 failures in a row",
     "Deadlocks and lost workers need a rare interleaving or an expired timer of many seconds.",
     ["requester/requester.go", "requester/makerequest.go", "requester/synccache.go", "requester/complexkey.go"],
     [("work queue and response channels", "requester/requester.go"), ("time-outs", "requester/requester.go")],
     ["requester.Requester"],
     "up to 3 clients, 2 workers, 2 expiring timers; deadlock is detected as a state in which a client waits and nothing can run.")

prop("C12", "Connections to the storage server are exclusive, replaced and not leaked", ["backend", "wire"],
     "No two requests in progress ever use the same connection to the storage server. Failures of the network or server are reported for the request at hand, a connection known to be broken is not used again, every remote file is closed exactly once, no more connections are kept than the pool holds, and a healthy server is always reached again.",
     ["schedules", "fault_sequences", "histories"], "over sequences of 3 (thorough 4) calls with every server operation failing or not, with or without ending the session or the connection; every packet of a session, also with the whole proxy on top; all schedules of 2 (thorough 3) clients; up to 40 requests in progress at once; up to 100 failing calls in a row, followed by 100 that work",
     "The package has no tests, since it needs a server; faults at each operation cannot be produced with one.",
     ["backend/provider.go", "backend/pool.go"],
     [("connection pool", "backend/pool.go"), ("reconnection", "backend/provider.go")],
     ["backend.Provider ReadFile/ReadDir/Stat", "calls of the SSH and SFTP client libraries"],
     "the SSH client library is a model; the SFTP client library is one where schedules are explored, and is executed as it is over a model server otherwise.")

prop("C13", "The proxy is read-only and answers what it cannot serve with an error", ["proxy", "backend", "wire", "served"],
     "No client request changes anything on the remote: writes, creation, removal, renaming, linking and attribute changes are refused with an error, and everything reads as before. Requests the proxy does not support and requests whose remote operation fails are answered with an error, never with an empty success.",
     ["inputs", "fault_sequences"], "over all methods of the protocol on paths of up to 3 symbolic bytes, failing remote calls, and SFTP messages with any open flags, attributes, targets and handles",
     "The handlers have no tests.",
     ["handlers/decrypt.go", "handlers/proxy.go"],
     [("refusal of writes and commands", "handlers/decrypt.go")],
     ["sftp.Handlers Fileread/Filewrite/Filecmd/Filelist"],
     "all methods of the protocol library; paths of up to 3 bytes.")

prop("C14", "Reads at any offset and pages of a listing are exact", ["proxy", "served"],
     "Reading a file at any offset with a buffer of any size returns exactly the bytes of the file at that place and reports the end exactly when there is no more. A listing fetched in pages of any size contains every entry exactly once and in order, and reports its end exactly when nothing is left.",
     ["inputs"], "over all 64-bit offsets (symbolic), buffers of 0 to 12 bytes, listings of 0 to 8 entries in pages of 1 to 9, reads of up to 1 MiB, and listings of 0 to 2050 (thorough 4200) entries over an SFTP session",
     "The handlers have no tests; off-by-one errors show only for specific combinations of offset and length.",
     ["handlers/decrypt.go", "handlers/proxy.go"],
     [("offset reads", "handlers/decrypt.go"), ("paging", "handlers/proxy.go:ListAt")],
     ["io.ReaderAt of Fileread", "ListerAt of Filelist"],
     "a file of 10 bytes and listings of up to 8 entries.")

prop("C15", "Listings and attributes describe the plaintext entries", ["proxy", "paths", "served", "wire"],
     "A listing shows exactly the plaintext entries of a directory, each with its decrypted name, its kind, its permission bits and time, and for files the size of the plaintext, which is the number of bytes that can be read. Attributes of a single path agree with the listing, and files that only serve the encryption (configuration, IV) or do not decrypt are not shown. An entry is never left out of a listing because a request timed out: the listing then fails.",
     ["inputs", "schedules"], "over all plaintext sizes below 2^50, all permission bits and times (symbolic), stray names of up to 4 bytes, file sizes at the block boundaries; every schedule of one request with one time-out (thorough: two); the whole proxy between an SFTP client and a server with any one (thorough: two) failing packets",
     "Tests look at one listing with fixed metadata.",
     ["filetree/filetree.go", "filetree/fileinfo.go", "handlers/decrypt.go"],
     [("file information of decrypted entries", "filetree/filetree.go"), ("size conversion", "gocrypt/contentenc/offsets.go")],
     ["filetree.FileTree.ReadDir/Stat", "handlers Filelist"],
     "directories of up to 6 entries (over an SFTP session: 200).")

prop("C21", "Only the configured user with the configured password can log in", ["startup"],
     "A client is let in exactly if it offers the configured user name together with the configured password; there is no other way to authenticate. The proxy does not serve at all while user name or password are not configured.",
     ["inputs", "configurations"], "over all configured and offered names and passwords (symbolic bytes, lengths to 300 and around every power of two), sequences of attempts of one client, up to 1000 wrong logins before the right one, every configuration field missing",
     "There are no tests of the server program.",
     ["main.go", "config/config.go"],
     [("password callback", "main.go:main"), ("validation of the configuration", "config/config.go:Validate")],
     ["ssh.ServerConfig.PasswordCallback and the other authentication callbacks"],
     "lengths are those listed in the harness; the SSH library and the validator are models.")

prop("C22", "The proxy starts only if complete, and no client can stop it", ["startup", "served"],
     "The proxy listens only after configuration, key, known hosts, passphrase and file system have all been loaded; otherwise it stops with an error. It connects to the configured server as the configured user only and only if the host key is a known one; once it serves, no connection, handshake, channel, session request or SFTP message of a client, well-formed or not, ends it or keeps others from being served, and only the file transfer subsystem is granted.",
     ["inputs", "fault_sequences", "configurations"], "over a failure of each start-up step, each configuration field missing, all combinations of three clients (good, failing accept, failing handshake, hanging handshake), many clients one after another, many channels of one client, session requests with payloads of 0 to 12 symbolic bytes, one SFTP message of 0 to 12 symbolic bytes, messages of every type cut anywhere, and sequences of well-formed ones",
     "There are no tests of the server program.",
     ["main.go", "config/config.go", "backend/provider.go"],
     [("start-up sequence", "main.go:main"), ("accept loop", "main.go:main"), ("session requests", "main.go:handleChannel")],
     ["net.Listen", "ssh.NewServerConn", "ssh.Request.Reply"],
     "one goroutine schedule per input (clients are independent); SSH, network and validator are models, the SFTP server library is executed as it is. Open findings: three kinds of malformed SFTP messages of a logged-in client crash that library.")

prop("C23", "Key and passphrase prompts: right input is used, wrong input is reported", ["sshkey"],
     "An unencrypted private key is loaded without a prompt. An encrypted one is unlocked by the first of at most three typed passphrases that is right; three wrong ones, a damaged key, a file that is no key, a missing file or a failing terminal end in an error, never in a panic or an endless prompt. Passphrases are used exactly as typed.",
     ["inputs", "fault_sequences"], "over every form of key file, three answers of 0 to 3 symbolic bytes and any right passphrase, passphrases of 10 lengths to 1000 symbolic bytes, the terminal failing or ending at any prompt, also after some input, key files of up to 540 KB",
     "Tests load two fixed keys with one fixed sequence of answers.",
     ["config/config.go"],
     [("prompt loop", "config/config.go:LoadSSHKey"), ("key form", "config/config.go:isPrivateKeyEncrypted")],
     ["config.Config.LoadSSHKey", "config.Config.GetDecrpytionPassphrase"],
     "PEM and key parsing are models.")

prop("C19", "Key material does not outlive its use, and a failed unlock leaves none", ["keys"],
     "After a file system has been opened or created, or has failed to, no buffer that held the master key or a key derived from the password still holds it, and no package variable or pool holds a copy: on success, on every failing step, with right and wrong passwords. The local copy of the configuration that opening makes is gone afterwards and readable by its owner only while it exists, and discarding the content cipher erases it.",
     ["inputs", "fault_sequences"], "over all passwords and keys (symbolic bytes), both key derivations, right and wrong passwords, a failure of any file operation",
     "Tests look at results, not at what is left in buffers on each error path.",
     ["gocrypt/configfile/config_file.go", "gocrypt/configfile/scrypt.go", "gocrypt/cryptocore/cryptocore.go", "filetree/filetree.go"],
     [("erasing keys", "gocrypt/configfile/config_file.go:DecryptMasterKey, EncryptKey"), ("erasing the cipher", "gocrypt/cryptocore/cryptocore.go:Wipe")],
     ["buffers passed to the cipher and key derivation primitives", "filetree.Init", "configfile.LoadAndDecrypt"],
     "buffers that pass through the primitives are watched, and their bytes are looked for in everything that package variables, pools and the tree refer to; freed memory and copies made by the Go runtime are outside.")

prop("C20", "No nonce is used twice, and blocks are sealed in order", ["encrypt"],
     "However many blocks are encrypted, in one go or one by one, by one goroutine or by several, every block and every header gets random bytes that were used for nothing else. The result holds the blocks in their order, each sealed for its own file and position, whichever of them were processed in parallel.",
     ["inputs", "schedules", "histories"], "over batches of 1 to 70 blocks, 1 to 4 processors, any file and first block, 2000 successive blocks with mixed nonce lengths, all schedules of two concurrent users",
     "Reuse shows only where a refill, a batch boundary or an interleaving falls in a specific place.",
     ["gocrypt/contentenc/content.go", "gocrypt/cryptocore/randprefetch.go", "gocrypt/cryptocore/nonce.go", "gocrypt/cryptocore/cryptocore.go", "gocrypt/contentenc/file_header.go"],
     [("nonces", "gocrypt/cryptocore/randprefetch.go:read"), ("parallel encryption", "gocrypt/contentenc/content.go:EncryptBlocks")],
     ["contentenc.ContentEnc.EncryptBlocks/EncryptBlock", "nonces passed to the cipher"],
     "the random source is a model whose words are all different; batches of up to 70 blocks.")

prop("C24", "A configuration file is replaced completely or not at all", ["conf"],
     "Creating or rewriting the configuration leaves, whatever file operation fails and wherever the process or machine stops, either the earlier file or the complete new one, which is on stable storage before it takes the place of the old one. The new file is readable by its owner only, opens with its password and no other, announces exactly the features asked for and holds a fresh random key from the source asked for. No other file is touched.",
     ["crash_points", "fault_sequences", "inputs", "configurations"], "over a stop before every file operation and a failure of any one (a write may have stored none, half or all of the data), creation and change of password, neighbouring files, all option combinations, passwords of 1 to 3 symbolic bytes and of 16 lengths to 300",
     "Tests create files and never stop or fail in the middle.",
     ["gocrypt/configfile/config_file.go", "gocrypt/configfile/feature_flags.go"],
     [("replacement by renaming", "gocrypt/configfile/config_file.go:WriteFile"), ("creation", "gocrypt/configfile/config_file.go:Create")],
     ["configfile.Create", "configfile.ConfFile.WriteFile", "file operations"],
     "the file system is a model with crash semantics (unsynced data is lost); one failing operation per run.")

prop("C25", "The stored format is gocryptfs's, with every supported feature", ["format"],
     "File systems created by gocryptfs with any combination of the supported features (key derivation, base64 variant, AES-SIV or GCM content, 128-bit IVs) are opened, listed and read, and what the proxy's own encryption produces is what that format prescribes. Wrapped keys, headers, block layout, associated data, names and hashes of long names are all interpreted bit for bit as the format defines them.",
     ["inputs", "configurations"], "over 16 feature combinations, symbolic contents, names of 1 to 255 symbolic bytes, all headers of 16 to 20 bytes, all passwords of 1 to 3 bytes",
     "Tests use the code's own encoder as its decoder's oracle, so a consistent change of both goes unnoticed; only a few fixed vectors exist.",
     ["gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "gocrypt/nametransform/names.go", "gocrypt/nametransform/longnames.go", "gocrypt/cryptocore/cryptocore.go", "gocrypt/cryptocore/hkdf.go", "gocrypt/configfile/config_file.go", "filetree/filetree.go"],
     [("features applied", "filetree/filetree.go:Init"), ("block layout", "gocrypt/contentenc/content.go"), ("key derivation labels", "gocrypt/cryptocore/hkdf.go")],
     ["filetree.FileTree.ReadFile/ReadDir", "nametransform.NameTransform", "contentenc.ContentEnc"],
     "compared with an independent encoder; primitives are models in the engine, real in replays.")


prop("C26", "Passwords and keys never show up in messages or errors", ["secrets", "startup", "sshkey"],
     "Nothing the proxy prints, logs or returns as an error depends on a password, a passphrase, a client's offered password, the master key or the private key beyond whether it is right and how long it is: not on success, not when a wrong one is given, and not on any failing step of opening, creating, reading, starting up, logging in or prompting, with debug messages on or off.",
     ["inputs", "fault_sequences", "configurations"], "over two runs with any two secrets of equal length (1 to 3 symbolic bytes, passwords of 8 lengths to 300) that are right, wrong or half right, every failing file operation and start-up step, altered configurations, debug output enabled",
     "A leak is one stray argument of one message on one error path; tests look at error text only in fixed cases and never at what two secrets have in common.",
     ["main.go", "config/config.go", "gocrypt/configfile/config_file.go", "gocrypt/configfile/scrypt.go", "gocrypt/tlog/log.go", "gocrypt/contentenc/content.go", "filetree/filetree.go"],
     [("errors of unlocking", "gocrypt/configfile/config_file.go:LoadAndDecrypt"), ("login messages", "main.go:main"), ("prompt messages", "config/config.go:GetDecrpytionPassphrase, LoadSSHKey")],
     ["standard output and error", "the log", "errors returned by filetree, configfile, config and main"],
     "non-interference by self-composition: the same run with two secrets must print the same; lengths and yes/no outcomes are not secret; the output is not a terminal.")

prop("C27", "The storage server is never told plaintext names or secrets", ["paths", "secrets", "wire"],
     "Every path the proxy sends to the storage server is made of the server's own directory and of encrypted names (or the format's own fixed names), whatever a client asks for: existing and missing entries, odd, over-long or malformed names, at any depth, after any history and any failure. Neither plaintext names nor passwords or keys reach the server.",
     ["inputs", "histories", "fault_sequences"], "over any requested path of symbolic bytes, names of every length to 180 bytes, sequences of requests, any failing request, every operation the proxy offers, opening with right and wrong passwords, and all packets of the whole proxy, with a failing one anywhere",
     "Such a request still gets the right answer (no such file), so no test of the results can notice it.",
     ["filetree/filetree.go", "filetree/fastcache.go", "requester/requester.go", "requester/makerequest.go", "requester/readfile.go", "requester/readdir.go"],
     [("path resolution", "filetree/filetree.go:FileTree"), ("requests", "requester/readfile.go:ReadFile")],
     ["paths passed to filetree.Reader (the SFTP client)"],
     "names are told apart from encrypted ones by the model cipher; the server learns lengths, counts and times.")
