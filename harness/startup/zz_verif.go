package main

import (
	"encoding/pem"
	"errors"
	"io"
	"log"
	"net"
	"os"
	"time"
	"unsafe"

	"github.com/flawedmatrix/gocryptsftp/config"
	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libsftp"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

// zzEnv is the outside world of main: configuration, key, known hosts, network.
type zzEnv struct {
	global  int // requests that each client makes outside of a session
	globals []chan *ssh.Request
	fs       *lib.MemFS
	cfg      config.Config
	fail     string // the step that fails
	typed    string // the passphrase
	key      string // the private key
	listens  int
	addr     string
	exits    int
	server   *ssh.ServerConfig
	handed   filetree.FSAccessor
	root     string
	pass     string
	khPath   string
	offered  int // connections offered
	conns    int // connections accepted
	bad      func(n int) string
	served   int
	closed   int
	hung     int
	client   *ssh.ClientConfig
	hostkeys int
	each     func(cfg *ssh.ServerConfig)
	chans    func(n int) chan ssh.NewChannel
	handlers sftp.Handlers // what the file system is served with
}

// zzRun runs main until everybody waits.
func zzRun() {
	go main()
	vrt.WaitIdle()
}

var zzErr = errors.New("failure")

type zzSigner struct{ ssh.Signer }
type zzKey struct{ ssh.PublicKey }

type zzListener struct{ e *zzEnv }

func (l *zzListener) Close() error   { return nil }
func (l *zzListener) Addr() net.Addr { return &net.TCPAddr{} }
func (l *zzListener) Accept() (net.Conn, error) {
	e := l.e
	n := e.conns
	if n == e.offered {
		vrt.Assert(e.exits == 0, "the proxy served clients after a fatal error")
		vrt.Reach("served")
		select {}
	}
	e.conns++
	if e.bad != nil && e.bad(n) == "accept" {
		return nil, zzErr
	}
	return &zzConn{n: n, e: e}, nil
}

type zzConn struct {
	n int
	e *zzEnv
}

func (c *zzConn) Read(b []byte) (int, error)         { return 0, io.EOF }
func (c *zzConn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *zzConn) Close() error                       { c.e.closed++; return nil }
func (c *zzConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *zzConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *zzConn) SetDeadline(t time.Time) error      { return nil }
func (c *zzConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *zzConn) SetWriteDeadline(t time.Time) error { return nil }

// zzValidate is a model of the validator for the tags in use: required and file, and
// structs inside structs.
func zzValidate(fs *lib.MemFS, v interface{}) bool {
	ok := true
	for i := 0; i < vrt.NumField(v); i++ {
		p := vrt.FieldPtr(v, i)
		if s, is := p.(*string); is {
			tag := "," + vrt.FieldTag(v, i, "validate") + ","
			if zzHas(tag, ",required,") && *s == "" {
				ok = false
			}
			if zzHas(tag, ",file,") && fs.Files[*s] == nil {
				ok = false
			}
			continue
		}
		ok = zzValidate(fs, p) && ok
	}
	return ok
}

func zzHas(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func zzWorld() *zzEnv {
	lib.InstallCrypto()
	e := &zzEnv{fs: lib.InstallFS(), offered: 1, typed: "pw", key: "key"}
	e.cfg = config.Config{ProxyUser: "user", ProxyPassword: "secret", KnownHostsPath: "/kh",
		Remote: config.RemoteConfig{Addr: "host:22", FileRoot: "/enc", User: "remote", PrivateKeyPath: "/key"}}
	e.fs.Files["/kh"] = &lib.Inode{}
	e.fs.Files["/key"] = &lib.Inode{Data: []byte("key")}
	is := func(s string) bool { return e.fail == s }
	exit := func(...interface{}) {
		e.exits++
		vrt.Assert(e.listens == 0, "the proxy exits after it started serving")
		vrt.Reach("stopped")
		vrt.Stop()
	}
	vrt.Override("log.Fatal", exit)
	vrt.Override("log.Fatalln", exit)
	vrt.Override("log.Fatalf", func(string, ...interface{}) { exit() })
	vrt.Override("os.Exit", func(int) { exit() })
	vrt.Override("log.Printf", func(string, ...interface{}) {})
	vrt.Override("log.Println", func(...interface{}) {})
	vrt.Override("log.Print", func(...interface{}) {})
	vrt.Override("log.New", func(w io.Writer, p string, fl int) *log.Logger { return new(log.Logger) })
	vrt.Override("(*log.Logger).Printf", func(*log.Logger, string, ...interface{}) {})
	vrt.Override("(*log.Logger).Println", func(*log.Logger, ...interface{}) {})
	vrt.Override("(*log.Logger).Print", func(*log.Logger, ...interface{}) {})
	vrt.Override("flag.BoolVar", func(p *bool, n string, v bool, u string) { *p = v })
	vrt.Override("flag.StringVar", func(p *string, n, v, u string) { *p = "/conf" })
	vrt.Override("(*net.TCPAddr).String", func(*net.TCPAddr) string { return "host:1" })
	vrt.Override("(*net.TCPAddr).Network", func(*net.TCPAddr) string { return "tcp" })
	vrt.Override("flag.Parse", func() {})
	e.fs.Files["/conf"] = &lib.Inode{Data: []byte("{}")}
	vrt.Override("encoding/json.Unmarshal", func(b []byte, v interface{}) error {
		if is("json") {
			return zzErr
		}
		c, ok := v.(*config.Config)
		vrt.Assert(ok && string(b) == "{}", "another configuration was parsed than the one named")
		*c = e.cfg
		return nil
	})
	vrt.Override("gopkg.in/go-playground/validator.v9.New", func() unsafe.Pointer { return nil })
	vrt.Override("(*gopkg.in/go-playground/validator.v9.Validate).Struct", func(_ unsafe.Pointer, s interface{}) error {
		if zzValidate(e.fs, s) {
			return nil
		}
		return zzErr
	})
	vrt.Override("encoding/pem.Decode", func(b []byte) (*pem.Block, []byte) { return &pem.Block{}, nil })
	vrt.Override("crypto/x509.IsEncryptedPEMBlock", func(*pem.Block) bool { return false })
	vrt.Override("golang.org/x/crypto/ssh.ParsePrivateKey", func(b []byte) (ssh.Signer, error) {
		if is("key") {
			return nil, zzErr
		}
		vrt.Assert(vrt.EqString(string(b), e.key), "another key was used than the one configured")
		return zzSigner{}, nil
	})
	vrt.Override("(*golang.org/x/crypto/ssh.ServerConfig).AddHostKey", func(c *ssh.ServerConfig, k ssh.Signer) {
		e.hostkeys++
	})
	vrt.Override("golang.org/x/crypto/ssh.PublicKeys", func(s ...ssh.Signer) ssh.AuthMethod { return nil })
	vrt.Override("golang.org/x/crypto/ssh/knownhosts.New", func(f ...string) (ssh.HostKeyCallback, error) {
		if is("knownhosts") {
			return nil, zzErr
		}
		if len(f) == 1 {
			e.khPath = f[0]
		}
		return func(host string, a net.Addr, k ssh.PublicKey) error {
			if k.(zzKey).PublicKey == nil {
				return zzErr
			}
			return nil
		}, nil
	})
	vrt.Override("golang.org/x/crypto/ssh/terminal.ReadPassword", func(int) ([]byte, error) {
		if is("passphrase") {
			return nil, zzErr
		}
		return []byte(e.typed), nil
	})
	vrt.Override("fmt.Print", func(...interface{}) (int, error) { return 0, nil })
	vrt.Override("fmt.Println", func(...interface{}) (int, error) { return 0, nil })
	vrt.Override("github.com/flawedmatrix/gocryptsftp/handlers.DecryptHandler", func(root string, pass []byte, n int, a filetree.FSAccessor) (sftp.Handlers, error) {
		if is("open") {
			return sftp.Handlers{}, zzErr
		}
		e.root, e.pass, e.handed = root, string(pass), a
		vrt.Assert(n > 0, "the tree was opened without workers")
		return e.handlers, nil
	})
	vrt.Override("net.Listen", func(n, a string) (net.Listener, error) {
		if is("listen") {
			return nil, zzErr
		}
		e.listens++
		e.addr = a
		return &zzListener{e}, nil
	})
	vrt.Override("golang.org/x/crypto/ssh.NewServerConn", func(c net.Conn, cfg *ssh.ServerConfig) (*ssh.ServerConn, <-chan ssh.NewChannel, <-chan *ssh.Request, error) {
		e.server = cfg
		if e.each != nil {
			e.each(cfg)
		}
		k := ""
		if e.bad != nil {
			k = e.bad(c.(*zzConn).n)
		}
		switch k {
		case "handshake":
			return nil, nil, nil, zzErr
		case "hang":
			e.hung++
			select {}
		}
		e.served++
		ch := make(chan ssh.NewChannel)
		if e.chans != nil {
			ch = e.chans(c.(*zzConn).n)
		}
		g := make(chan *ssh.Request, e.global)
		for i := 0; i < e.global; i++ {
			g <- &ssh.Request{Type: "keepalive@openssh.com", WantReply: true}
		}
		e.globals = append(e.globals, g)
		return &ssh.ServerConn{}, ch, g, nil
	})
	vrt.Override("golang.org/x/crypto/ssh.DiscardRequests", func(in <-chan *ssh.Request) {
		for r := range in {
			r.Reply(false, nil)
		}
	})
	return e
}

type zzMeta struct {
	ssh.ConnMetadata
	user string
}

func (m zzMeta) User() string          { return m.user }
func (m zzMeta) SessionID() []byte     { return nil }
func (m zzMeta) ClientVersion() []byte { return nil }
func (m zzMeta) ServerVersion() []byte { return nil }
func (m zzMeta) RemoteAddr() net.Addr  { return &net.TCPAddr{} }
func (m zzMeta) LocalAddr() net.Addr   { return &net.TCPAddr{} }

var zzLens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 72, 73, 100, 128, 255, 256, 257, 300}

// zzOther is the length of what is offered where n bytes are configured: the same, one
// less, one more, nothing, a block more.
func zzOther(name string, n int) int {
	switch vrt.Choose(name, 0, 4) {
	case 1:
		return n - 1
	case 2:
		return n + 1
	case 3:
		return 0
	case 4:
		return n + 256
	}
	return n
}

// Any configured user and password of 1 to 300 bytes (32 lengths, one of the two 8 or both
// short), any offered ones of the same, a slightly different or a quite different length:
// the login succeeds exactly if both are equal, and a password is the only way in.
//verif:prop=C21 nonative reach=accepted,rejected shard=len:0..31 time=300
func H_login() {
	e := zzWorld()
	cu, cp := 8, zzLens[vrt.Choose("len", 0, len(zzLens)-1)]
	switch vrt.Choose("which", 0, 2) {
	case 1:
		cu, cp = cp, 8
	case 2:
		if cp > 20 {
			vrt.Stop()
		}
		cu, cp = cp, 21-cp
	}
	e.cfg.ProxyUser = vrt.String("cuser", cu)
	e.cfg.ProxyPassword = vrt.String("cpass", cp)
	user := vrt.String("user", zzOther("ulen", cu))
	pass := vrt.Bytes("pass", zzOther("plen", cp))
	e.each = func(c *ssh.ServerConfig) {
		vrt.Assert(!c.NoClientAuth && c.PublicKeyCallback == nil && c.KeyboardInteractiveCallback == nil && c.GSSAPIWithMICConfig == nil, "there is another way to log in")
		zzAttempt(e, c, user, pass)
		vrt.Stop()
	}
	zzRun()
}

// zzAttempt is one attempt to log in.
func zzAttempt(e *zzEnv, c *ssh.ServerConfig, user string, pass []byte) {
	if c.PasswordCallback == nil {
		vrt.Fail("nobody can log in")
	}
	_, err := c.PasswordCallback(zzMeta{user: user}, pass)
	same := vrt.And(vrt.EqString(user, e.cfg.ProxyUser), vrt.EqString(string(pass), e.cfg.ProxyPassword))
	if err == nil {
		vrt.Assert(same, "a login with wrong credentials was accepted")
		vrt.Reach("accepted")
	} else {
		vrt.Assert(!same, "a login with the right credentials was rejected")
		vrt.Reach("rejected")
	}
}

// Three clients, of which the second may try twice: each attempt is judged by itself,
// whatever was offered before.
//verif:prop=C21 nonative reach=accepted,rejected
func H_login_again() {
	e := zzWorld()
	e.cfg.ProxyUser = vrt.String("cuser", 1)
	e.cfg.ProxyPassword = vrt.String("cpass", 1)
	e.offered = 3
	n := 0
	e.each = func(c *ssh.ServerConfig) {
		zzAttempt(e, c, vrt.String("user", 1), vrt.Bytes("pass", 1))
		if n == 1 {
			zzAttempt(e, c, vrt.String("user", 1), vrt.Bytes("pass", 1))
		}
		n++
	}
	zzRun()
	vrt.Assert(n == 3, "a client keeps others from being served")
}

var zzSteps = []string{"config", "json", "key", "knownhosts", "passphrase", "open", "listen"}

// Every step of the start-up may fail: the proxy then stops without listening.
//verif:prop=C22 nonative reach=stopped,served
func H_start() {
	e := zzWorld()
	k := vrt.Choose("fail", 0, len(zzSteps))
	if k < len(zzSteps) {
		e.fail = zzSteps[k]
	}
	if e.fail == "config" {
		delete(e.fs.Files, "/conf")
	}
	e.each = func(c *ssh.ServerConfig) {
		vrt.Assert(e.fail == "", "the proxy serves clients although a step of the start-up failed")
		vrt.Assert(e.hostkeys == 1, "the proxy has no host key")
		vrt.Assert(e.root == "/enc" && e.pass == "pw", "another file system was opened than configured")
		vrt.Assert(e.khPath == "/kh", "another known hosts file was used than configured")
		vrt.Assert(e.listens == 1, "the proxy listens more than once")
	}
	zzRun()
}

// Every field of the configuration missing, and the files it names missing: the proxy
// stops without listening.
//verif:prop=C22,C21 nonative reach=stopped,served
func H_incomplete_config() {
	e := zzWorld()
	k := vrt.Choose("missing", 0, 9)
	switch k {
	case 0:
		e.cfg.ProxyUser = ""
	case 1:
		e.cfg.ProxyPassword = ""
	case 2:
		e.cfg.KnownHostsPath = ""
	case 3:
		e.cfg.Remote.Addr = ""
	case 4:
		e.cfg.Remote.FileRoot = ""
	case 5:
		e.cfg.Remote.User = ""
	case 6:
		e.cfg.Remote.PrivateKeyPath = ""
	case 7:
		delete(e.fs.Files, "/kh")
	case 8:
		delete(e.fs.Files, "/key")
	}
	e.each = func(c *ssh.ServerConfig) {
		vrt.Assert(k == 9, "the proxy serves clients with an incomplete configuration")
	}
	zzRun()
}

// The connection to the storage server: made to the configured address as the configured
// user, and its host key is checked against the known hosts.
//verif:prop=C22 nonative reach=refused,accepted
func H_host_key() {
	e := zzWorld()
	vrt.Override("golang.org/x/crypto/ssh.Dial", func(network, addr string, c *ssh.ClientConfig) (*ssh.Client, error) {
		vrt.Assert(network == "tcp" && addr == "host:22", "the proxy connects to another server than configured")
		vrt.Assert(c.User == "remote", "the proxy connects as another user than configured")
		if c.HostKeyCallback == nil {
			vrt.Fail("host keys are not checked")
		}
		known := vrt.Choose("known", 0, 1) == 1
		var k ssh.PublicKey = zzKey{}
		if known {
			k = zzKey{zzKey{}}
		}
		err := c.HostKeyCallback("host:22", &net.TCPAddr{}, k)
		vrt.Assert((err == nil) == known, "an unknown host key was accepted, or a known one refused")
		if known {
			vrt.Reach("accepted")
		} else {
			vrt.Reach("refused")
		}
		return nil, zzErr
	})
	e.each = func(c *ssh.ServerConfig) {
		var err error
		switch vrt.Choose("op", 0, 2) {
		case 0:
			_, err = e.handed.ReadFile("/x")
		case 1:
			_, err = e.handed.ReadDir("/x")
		case 2:
			_, err = e.handed.Stat("/x")
		}
		vrt.Assert(err != nil, "a failed connection was passed over")
		vrt.Stop()
	}
	zzRun()
}

// Three clients connect; each of them works, fails in accept, fails the handshake or
// never finishes it. The others are served all the same.
//verif:prop=C22 nonative reach=served
func H_bad_clients() {
	e := zzWorld()
	kinds := []string{"", "accept", "handshake", "hang"}
	var k [3]string
	good := 0
	for i := range k {
		k[i] = kinds[vrt.Choose("client", 0, 3)]
		if k[i] == "" {
			good++
		}
	}
	e.offered = 3
	e.bad = func(n int) string { return k[n] }
	zzRun()
	vrt.Assert(e.served == good, "a client keeps others from being served")
}

// Many clients that never finish their handshake, or never end, connect before and after a
// good one, which is served all the same.
//verif:prop=C22 nonative reach=served
func H_many_clients() {
	e := zzWorld()
	n := []int{33, 65, 129, 1100}[vrt.Choose("n", 0, 3)]
	kind := []string{"", "accept", "handshake", "hang"}[vrt.Choose("kind", 0, 3)]
	e.offered = n + 1
	e.bad = func(i int) string {
		if i == n {
			return ""
		}
		return kind
	}
	zzRun()
	want := 1
	if kind == "" {
		want = n + 1
	}
	vrt.Assert(e.served == want, "clients keep others from being served")
}

// One client opens several channels, some of which are refused, fail, end at once or last:
// every session is served, also while the ones before it go on.
//verif:prop=C22 nonative reach=all
func H_channels() {
	e := zzWorld()
	vrt.Override("(*golang.org/x/crypto/ssh.Request).Reply", func(r *ssh.Request, ok bool, p []byte) error { return nil })
	serves := 0
	vrt.Override("github.com/pkg/sftp.NewRequestServer", func(c io.ReadWriteCloser, h sftp.Handlers) *sftp.RequestServer { return new(sftp.RequestServer) })
	vrt.Override("(*github.com/pkg/sftp.RequestServer).Serve", func(*sftp.RequestServer) error {
		serves++
		switch vrt.Choose("end", 0, 2) {
		case 0:
			return io.EOF
		case 1:
			return zzErr
		}
		select {}
	})
	vrt.Override("(*github.com/pkg/sftp.RequestServer).Close", func(*sftp.RequestServer) error { return nil })
	want := 0
	e.offered = 2
	e.chans = func(int) chan ssh.NewChannel {
		nc := make(chan ssh.NewChannel, 3)
		for i := 0; i < 2; i++ {
			c := &zzChan{e: e, kind: "session", reqs: make(chan *ssh.Request, 2)}
			switch vrt.Choose("channel", 0, 3) {
			case 0:
				c.kind = "x11"
			case 1:
				c.fails = true
			case 2: // requests go on being sent
				c.reqs <- &ssh.Request{Type: "shell"}
				want++
			case 3:
				close(c.reqs)
				want++
			}
			nc <- c
		}
		return nc
	}
	zzRun()
	vrt.Assert(serves == want, "a channel keeps others from being served")
	vrt.Assert(e.served == 2, "a client keeps others from being served")
	vrt.Reach("all")
}

// Many sessions, of one client or of as many clients, that end as usual, end with an error,
// end at once, never end or cannot be accepted: the next one is served all the same.
// Each client makes 100 requests (3 where there are many sessions) outside of its sessions and
// as many in each of them, which are all
// answered.
//verif:prop=C22 nonative reach=all
func H_many_sessions() {
	e := zzWorld()
	serves := 0
	n := []int{17, 65, 257, 1100}[vrt.Choose("n", 0, 3)]
	kind := vrt.Choose("kind", 0, 4)
	one := vrt.Choose("one", 0, 1) == 1
	e.global = 100
	replies := 0
	vrt.Override("(*golang.org/x/crypto/ssh.Request).Reply", func(r *ssh.Request, ok bool, p []byte) error {
		replies++
		vrt.Assert(!ok, "a request that is not supported was granted")
		return nil
	})
	per := 100
	if n > 100 {
		per = 3
		e.global = 3
	}
	vrt.Override("github.com/pkg/sftp.NewRequestServer", func(c io.ReadWriteCloser, h sftp.Handlers) *sftp.RequestServer { return new(sftp.RequestServer) })
	vrt.Override("(*github.com/pkg/sftp.RequestServer).Serve", func(*sftp.RequestServer) error {
		serves++
		switch kind {
		case 0:
			return io.EOF
		case 1:
			return zzErr
		case 2:
			return nil
		}
		select {}
	})
	vrt.Override("(*github.com/pkg/sftp.RequestServer).Close", func(*sftp.RequestServer) error { return nil })
	channel := func(last bool) ssh.NewChannel {
		c := &zzChan{e: e, kind: "session", reqs: make(chan *ssh.Request, per)}
		for i := 0; i < per; i++ {
			c.reqs <- &ssh.Request{Type: "env", WantReply: true}
		}
		c.fails = kind == 4 && !last
		return c
	}
	e.offered = n + 1
	if one {
		e.offered = 2
	}
	e.chans = func(i int) chan ssh.NewChannel {
		nc := make(chan ssh.NewChannel, n)
		if one && i == 0 {
			for j := 0; j < n; j++ {
				nc <- channel(false)
			}
		} else {
			nc <- channel(i == e.offered-1)
		}
		return nc
	}
	zzRun()
	want := n + 1
	if kind == 4 {
		want = 1
	}
	vrt.Assert(serves == want, "sessions keep others from being served")
	vrt.Assert(replies == want*per+e.offered*e.global, "a request of a client was not answered")
	vrt.Reach("all")
}

// zzChan is an incoming channel with requests.
type zzChan struct {
	e        *zzEnv
	kind     string
	reqs     chan *ssh.Request
	fails    bool
	session  *libsftp.Session
	rejected int
	accepted int
}

func (c *zzChan) Accept() (ssh.Channel, <-chan *ssh.Request, error) {
	c.accepted++
	if c.fails {
		return nil, nil, zzErr
	}
	if c.session != nil {
		return zzStream{s: c.session}, c.reqs, nil
	}
	return zzSession{}, c.reqs, nil
}
func (c *zzChan) Reject(ssh.RejectionReason, string) error { c.rejected++; return nil }
func (c *zzChan) ChannelType() string                      { return c.kind }
func (c *zzChan) ExtraData() []byte                        { return nil }

type zzSession struct{ ssh.Channel }

// zzStream is an accepted channel that an SFTP client talks over.
type zzStream struct {
	ssh.Channel
	s *libsftp.Session
}

func (c zzStream) Read(b []byte) (int, error)  { return c.s.Read(b) }
func (c zzStream) Write(b []byte) (int, error) { return c.s.Write(b) }
func (c zzStream) Close() error                { return c.s.Close() }

// zzServed makes a proxy that serves a tree with the file /f holding data, and n sessions of
// logged-in clients with it.
func zzServed(data []byte, n int) (*zzEnv, []*libsftp.Session) {
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), data))
	h, err := handlers.DecryptHandler(libtree.Root, []byte(libtree.Password), 1, w.R)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	e := zzWorld()
	e.handlers = h
	e.offered = n
	var l []*libsftp.Session
	for i := 0; i < n; i++ {
		l = append(l, libsftp.NewSession())
	}
	e.chans = func(i int) chan ssh.NewChannel {
		nc := make(chan ssh.NewChannel, 1)
		c := &zzChan{e: e, kind: "session", reqs: make(chan *ssh.Request, 1), session: l[i]}
		nc <- c
		return nc
	}
	return e, l
}

// A logged-in client sends one SFTP message of 0 to 12 symbolic bytes, as its first or after
// the greeting, and then keeps or closes the channel: another client is served all the
// same. (Some messages end the process: see the known findings.)
//verif:prop=C22 nonative reach=end shard=len:0..12
func H_malformed() {
	data := []byte("0123456789")
	_, l := zzServed(data, 2)
	go main()
	bad := l[0]
	if vrt.Choose("greeted", 0, 1) == 1 {
		bad.Greet()
	}
	b := vrt.Bytes("message", vrt.Choose("len", 0, 12))
	bad.In <- append(libsftp.U32(uint32(len(b))), b...)
	if vrt.Choose("leave", 0, 1) == 1 {
		bad.Close()
	}
	vrt.WaitIdle()
	l[1].Greet()
	l[1].Reads("/f", data)
	vrt.Reach("end")
}

// A logged-in client sends a message of any type with a body of one of the shapes the protocol
// knows, cut anywhere, or whose length field says more than arrives.
//verif:prop=C22 nonative reach=end shard=typ:0..31
func H_cut_messages() {
	data := []byte("0123456789")
	_, l := zzServed(data, 2)
	go main()
	bad := l[0]
	bad.Greet()
	typ := vrt.Choose("typ", 0, 31)
	if typ > 20 {
		typ += 179 // 200 and up: extended requests and none
	}
	var b []byte
	switch vrt.Choose("shape", 0, 3) {
	case 0:
		b = append(libsftp.Str("/f"), libsftp.U32([]uint32{1, 1<<32 - 1}[vrt.Choose("flags", 0, 1)])...)
		b = append(b, libsftp.U32([]uint32{0, 15, 1<<32 - 1}[vrt.Choose("attrs", 0, 2)])...)
		b = append(b, libsftp.U64(0)...)
	case 1:
		b = append(libsftp.Str("1"), libsftp.U64([]uint64{0, 3, 1<<64 - 1}[vrt.Choose("off", 0, 2)])...)
		b = append(b, libsftp.U32(8)...)
		b = append(b, "12345678"...)
	case 2:
		b = append(libsftp.Str("/f"), libsftp.Str("/g")...)
	case 3:
		b = append(libsftp.Str("posix-rename@openssh.com"), libsftp.Str("/f")...)
		b = append(b, libsftp.Str("/g")...)
	}
	n := vrt.Choose("cut", 0, len(b))
	m := append([]byte{byte(typ), 0, 0, 0, 9}, b[:n]...)
	claim := len(m)
	then := vrt.Choose("then", 0, 2)
	if then > 0 {
		claim += 1000
	}
	bad.In <- append(libsftp.U32(uint32(claim)), m...)
	if then < 2 {
		bad.Close()
	}
	vrt.WaitIdle()
	l[1].Greet()
	l[1].Reads("/f", data)
	vrt.Reach("end")
}

var _ = os.Exit

// Any session request (type subsystem or another, payload of 0 to 12 symbolic bytes) on a
// channel of any type: it is answered once, granted exactly for the sftp subsystem, and
// the proxy survives it.
//verif:prop=C22 nonative reach=granted,denied,rejected shard=len:0..12
func H_session_requests() {
	e := zzWorld()
	replies, granted := 0, false
	vrt.Override("(*golang.org/x/crypto/ssh.Request).Reply", func(r *ssh.Request, ok bool, p []byte) error {
		replies++
		granted = ok
		return nil
	})
	serves := 0
	vrt.Override("github.com/pkg/sftp.NewRequestServer", func(c io.ReadWriteCloser, h sftp.Handlers) *sftp.RequestServer { return new(sftp.RequestServer) })
	vrt.Override("(*github.com/pkg/sftp.RequestServer).Serve", func(*sftp.RequestServer) error {
		serves++
		if vrt.Choose("end", 0, 1) == 0 {
			return io.EOF
		}
		return zzErr
	})
	vrt.Override("(*github.com/pkg/sftp.RequestServer).Close", func(*sftp.RequestServer) error { return nil })
	p := vrt.Bytes("payload", vrt.Choose("len", 0, 12))
	kind := []string{"session", "direct-tcpip", "x11"}[vrt.Choose("kind", 0, 2)]
	typ := []string{"subsystem", "shell", "exec"}[vrt.Choose("type", 0, 2)]
	c := &zzChan{e: e, kind: kind, reqs: make(chan *ssh.Request, 2), fails: vrt.Choose("fails", 0, 1) == 1}
	c.reqs <- &ssh.Request{Type: typ, WantReply: true, Payload: p}
	close(c.reqs)
	e.chans = func(int) chan ssh.NewChannel {
		nc := make(chan ssh.NewChannel, 1)
		nc <- c
		close(nc)
		return nc
	}
	zzRun()
	if kind != "session" {
		vrt.Assert(c.rejected == 1 && c.accepted == 0 && serves == 0, "a channel that is no session was accepted")
		vrt.Reach("rejected")
		return
	}
	vrt.Assert(c.rejected == 0 && c.accepted == 1, "a session was not accepted")
	if c.fails {
		vrt.Assert(serves == 0, "a channel that could not be accepted was served")
		return
	}
	vrt.Assert(serves == 1, "a session was not served")
	want := typ == "subsystem" && len(p) >= 4 && string(p[4:]) == "sftp"
	vrt.Assert(replies == 1, "a session request was not answered once")
	vrt.Assert(granted == want, "something else than the sftp subsystem was granted, or that was denied")
	if want {
		vrt.Reach("granted")
	} else {
		vrt.Reach("denied")
	}
}

// zzPair is two secrets of the same length.
func zzPair(name string, n int) [2]string {
	return [2]string{vrt.String(name, n), vrt.String(name, n)}
}

// Two proxies that differ in what is secret only (the configured password, the passphrase,
// the private key) start up, successfully or not, and the same clients log in or fail to:
// all they print and log is the same, and so are the errors clients get.
//verif:prop=C26 nonative reach=served,stopped shard=fail:0..7
func H_start_secrets() {
	k := vrt.Choose("fail", 0, len(zzSteps))
	n := []int{1, 6, 17}[vrt.Choose("n", 0, 2)]
	cp, pp, key := zzPair("cpass", n), zzPair("typed", n), zzPair("key", n)
	kind := vrt.Choose("attempt", 0, 2)
	wrong := zzPair("wrong", n)
	missing := vrt.Choose("missing", 0, 2)
	var out [2]string
	var res [2]string
	for i := 0; i < 2; i++ {
		i := i
		e := zzWorld()
		m := lib.InstallMessages(e.fs)
		m.Exit = func() {
			res[i] += "exit"
			vrt.Reach("stopped")
			select {}
		}
		vrt.Override("os.Exit", func(int) { m.Exit() })
		e.cfg.ProxyPassword, e.typed, e.key = cp[i], pp[i], key[i]
		e.fs.Files["/key"] = &lib.Inode{Data: []byte(key[i])}
		switch missing {
		case 1:
			e.cfg.ProxyUser = ""
		case 2:
			e.cfg.Remote.PrivateKeyPath = "/nokey"
		}
		if k < len(zzSteps) {
			e.fail = zzSteps[k]
		}
		if e.fail == "config" {
			delete(e.fs.Files, "/conf")
		}
		e.each = func(c *ssh.ServerConfig) {
			user, pass := "user", cp[i]
			switch kind {
			case 1:
				pass = wrong[i]
				vrt.Assume(!vrt.EqString(pass, cp[i]))
			case 2:
				user = "other"
			}
			_, err := c.PasswordCallback(zzMeta{user: user}, []byte(pass))
			res[i] += lib.Error(err)
		}
		zzRun()
		out[i] = m.Text
	}
	vrt.Assert(vrt.EqString(res[0], res[1]), "the outcome depends on a secret, or an error tells it")
	vrt.Assert(vrt.EqString(out[0], out[1]), "what is printed or logged depends on a secret")
}

// Up to 1000 wrong logins, on one connection or on one each, with the user or the password
// or both wrong or empty: the right one is accepted right after them, and a wrong one still not.
//verif:prop=C21 nonative reach=accepted,rejected
func H_login_often() {
	e := zzWorld()
	counts := []int{1, 2, 3, 4, 5, 6, 7, 10, 11, 20, 21, 33, 64, 65, 100, 101, 256, 1000}
	n := counts[vrt.Choose("n", 0, len(counts)-1)]
	one := vrt.Choose("one", 0, 1) == 1
	e.offered = n + 1
	if one {
		e.offered = 1
	}
	e.cfg.ProxyPassword = vrt.String("cpass", 2)
	us := []string{"user", "root", "user", ""}
	k := vrt.Choose("wrong", 0, 2)
	wrong := func(c *ssh.ServerConfig, i int) {
		_, err := c.PasswordCallback(zzMeta{user: us[(k+i)%4]}, []byte("wrong"))
		vrt.Assert(err != nil, "a login with wrong credentials was accepted")
	}
	right := func(c *ssh.ServerConfig) {
		zzAttempt(e, c, "user", []byte(e.cfg.ProxyPassword))
		zzAttempt(e, c, "user", vrt.Bytes("pass", 2))
		wrong(c, 0)
		zzAttempt(e, c, "user", []byte(e.cfg.ProxyPassword))
		vrt.Stop()
	}
	i := 0
	e.each = func(c *ssh.ServerConfig) {
		for one && i < n {
			wrong(c, i)
			i++
		}
		if i == n {
			right(c)
		}
		wrong(c, i)
		i++
	}
	zzRun()
	vrt.Fail("a client keeps others from being served")
}

// Time passes before and between attempts to log in: each is judged by itself.
//verif:prop=C21 nonative reach=accepted,rejected
func H_login_later() {
	e := zzWorld()
	e.cfg.ProxyUser = vrt.String("cuser", 1)
	e.cfg.ProxyPassword = vrt.String("cpass", 1)
	d := vrt.Pause("pause")
	e.each = func(c *ssh.ServerConfig) {
		vrt.Elapse(d)
		zzAttempt(e, c, vrt.String("user", 1), vrt.Bytes("pass", 1))
		vrt.Elapse(vrt.Pause("other"))
		zzAttempt(e, c, e.cfg.ProxyUser, []byte(e.cfg.ProxyPassword))
		vrt.Elapse(d)
		zzAttempt(e, c, e.cfg.ProxyUser, vrt.Bytes("pass", vrt.Choose("plen", 0, 2)))
		zzAttempt(e, c, vrt.String("user", vrt.Choose("ulen", 0, 2)), vrt.Bytes("pass", vrt.Choose("plen", 0, 2)))
		vrt.Stop()
	}
	zzRun()
}
