// Package fake is an ssh server that does what it is told.
package fake

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"
)

// Step of what happens on a channel.
type Step struct {
	Wait   int    `json:"wait,omitempty"`   // until so many bytes have arrived in all, or no more can
	Send   []byte `json:"send,omitempty"`   // these
	Zeros  int    `json:"fill,omitempty"`   // that many bytes of filling
	Sleep  int    `json:"sleep,omitempty"`  // milliseconds
	Exit   *int   `json:"exit,omitempty"`   // report this exit status
	Signal string `json:"signal,omitempty"` // report being killed
	Eof    bool   `json:"eof,omitempty"`    // nothing more will be sent
	Drop   bool   `json:"drop,omitempty"`   // the connection is gone
}

// Fill is what the filling consists of.
func Fill(n int) []byte {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// Event at the server.
type Event struct {
	Ev   string `json:"ev"`
	User string `json:"user,omitempty"`
	Pass string `json:"pass,omitempty"`
	Cmd  string `json:"cmd,omitempty"`
	Got  []byte `json:"got,omitempty"`
	Rc   int    `json:"rc"`
	Type string `json:"type,omitempty"`
	Hash string `json:"hash,omitempty"`
}

// Server to connect to.
type Server struct {
	Port   int
	Type   string // of the host key
	Hash   string // of the host key
	Root   string // where scp runs, if there are no steps
	Steps  map[string][]Step
	Refuse bool // all credentials
	Hangup bool // the connection is closed once a command is done
	// Who may log in, if that matters
	User, Pass, Pub string

	mu     sync.Mutex
	ln     net.Listener
	signer ssh.Signer
	next   []ssh.Signer
	events []Event
	conns  map[net.Conn]bool
}

type det struct{ r *rand.Rand }

func (d det) Read(b []byte) (int, error) { return d.r.Read(b) }

var (
	keyMu sync.Mutex
	keys  = map[string]ssh.Signer{}
)

// Key makes a host key; the same one every time it is asked for.
func Key(kind, seed string) (ssh.Signer, error) {
	keyMu.Lock()
	defer keyMu.Unlock()
	id := kind + "/" + seed
	if s, ok := keys[id]; ok {
		return s, nil
	}
	h := sha256.Sum256([]byte(seed))
	var n int64
	for _, b := range h[:8] {
		n = n<<8 | int64(b)
	}
	r := det{rand.New(rand.NewSource(n))}
	var priv interface{}
	var err error
	switch kind {
	case "ed25519":
		priv = ed25519.NewKeyFromSeed(h[:])
	case "rsa":
		priv, err = rsa.GenerateKey(r, 2048)
	case "ecdsa":
		priv, err = ecdsa.GenerateKey(elliptic.P256(), r)
	default:
		err = fmt.Errorf("unknown kind %q", kind)
	}
	if err != nil {
		return nil, err
	}
	s, err := ssh.NewSignerFromKey(priv)
	if err == nil {
		keys[id] = s
	}
	return s, err
}

// New server on the loopback network.
func New(kind, seed string) (*Server, error) {
	s := &Server{Steps: map[string][]Step{}, conns: map[net.Conn]bool{}}
	if err := s.SetKey(kind, seed); err != nil {
		return nil, err
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s.ln = ln
	s.Port = ln.Addr().(*net.TCPAddr).Port
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s, nil
}

// SetKey changes the key of the host; further ones are for the connections after.
func (s *Server) SetKey(kind, seed string, more ...[2]string) error {
	k, err := Key(kind, seed)
	if err != nil {
		return err
	}
	var next []ssh.Signer
	for _, m := range more {
		n, err := Key(m[0], m[1])
		if err != nil {
			return err
		}
		next = append(next, n)
	}
	s.mu.Lock()
	s.use(k)
	s.next = next
	s.mu.Unlock()
	return nil
}

func (s *Server) use(k ssh.Signer) {
	h := sha256.Sum256(k.PublicKey().Marshal())
	s.signer, s.Type, s.Hash = k, k.PublicKey().Type(), hex.EncodeToString(h[:])
}

// Lock around changes of what it does.
func (s *Server) Lock(f func()) {
	s.mu.Lock()
	f()
	s.mu.Unlock()
}

// Close it and everything that is connected.
func (s *Server) Close() {
	s.ln.Close()
	s.mu.Lock()
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
}

func (s *Server) note(e Event) {
	s.mu.Lock()
	s.events = append(s.events, e)
	s.mu.Unlock()
}

// Take what happened since.
func (s *Server) Take() []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.events
	s.events = nil
	return e
}

func (s *Server) serve(c net.Conn) {
	defer c.Close()
	s.mu.Lock()
	s.conns[c] = true
	signer := s.signer
	s.events = append(s.events, Event{Ev: "conn", Type: s.Type, Hash: s.Hash})
	if len(s.next) > 0 {
		s.use(s.next[0])
		s.next = s.next[1:]
	}
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	cfg := &ssh.ServerConfig{
		PasswordCallback: func(m ssh.ConnMetadata, p []byte) (*ssh.Permissions, error) {
			s.note(Event{Ev: "auth", User: m.User(), Pass: string(p)})
			if s.Refuse || (s.User != "" && (m.User() != s.User || string(p) != s.Pass)) {
				return nil, fmt.Errorf("no")
			}
			return nil, nil
		},
		PublicKeyCallback: func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
			pub := strings.TrimSpace(string(ssh.MarshalAuthorizedKey(k)))
			s.note(Event{Ev: "authkey", User: m.User(), Pass: pub})
			if s.Refuse || (s.User != "" && (m.User() != s.User || pub != s.Pub)) {
				return nil, fmt.Errorf("no")
			}
			return nil, nil
		},
	}
	cfg.AddHostKey(signer)
	conn, chans, reqs, err := ssh.NewServerConn(c, cfg)
	if err != nil {
		s.note(Event{Ev: "refused"})
		return
	}
	defer conn.Close()
	s.note(Event{Ev: "login", User: conn.User()})
	go ssh.DiscardRequests(reqs)
	for nc := range chans {
		if nc.ChannelType() != "session" {
			nc.Reject(ssh.UnknownChannelType, "no")
			continue
		}
		ch, rq, err := nc.Accept()
		if err != nil {
			return
		}
		go s.session(c, ch, rq)
	}
}

func (s *Server) session(c net.Conn, ch ssh.Channel, reqs <-chan *ssh.Request) {
	for r := range reqs {
		if r.Type != "exec" {
			r.Reply(false, nil)
			continue
		}
		var m struct{ Cmd string }
		ssh.Unmarshal(r.Payload, &m)
		r.Reply(true, nil)
		go func() {
			for r := range reqs {
				r.Reply(false, nil)
			}
		}()
		s.run(c, ch, m.Cmd)
		return
	}
}

func exit(ch ssh.Channel, n int) {
	ch.SendRequest("exit-status", false, ssh.Marshal(struct{ N uint32 }{uint32(n)}))
}

func (s *Server) run(c net.Conn, ch ssh.Channel, cmd string) {
	kind := "?"
	f := strings.Fields(cmd)
	if len(f) > 1 && f[0] == "scp" {
		if strings.Contains(f[1], "f") {
			kind = "f"
		} else if strings.Contains(f[1], "t") {
			kind = "t"
		}
	}
	s.mu.Lock()
	steps, scripted := s.Steps[kind]
	root, hangup := s.Root, s.Hangup
	s.mu.Unlock()
	if !scripted {
		s.note(Event{Ev: "exec", Cmd: cmd})
		p := exec.Command("/bin/sh", "-c", cmd)
		p.Dir = root
		p.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + root}
		in, _ := p.StdinPipe()
		p.Stdout = ch
		p.Stderr = io.Discard
		rc := 127
		if p.Start() == nil {
			go func() {
				io.Copy(in, ch)
				in.Close()
			}()
			p.Wait()
			rc = p.ProcessState.ExitCode()
		}
		s.note(Event{Ev: "done", Cmd: cmd, Rc: rc})
		exit(ch, rc)
		ch.Close()
		if hangup {
			c.Close()
		}
		return
	}

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var got []byte
	eof := false
	go func() {
		b := make([]byte, 1<<16)
		for {
			n, err := ch.Read(b)
			mu.Lock()
			got = append(got, b[:n]...)
			eof = eof || err != nil
			cond.Broadcast()
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	give := time.AfterFunc(20*time.Second, func() { c.Close() })
	defer give.Stop()
	rc := -1
	for _, st := range steps {
		if st.Wait != 0 {
			mu.Lock()
			for !eof && (st.Wait < 0 || len(got) < st.Wait) {
				cond.Wait()
			}
			mu.Unlock()
		}
		if st.Sleep > 0 {
			time.Sleep(time.Duration(st.Sleep) * time.Millisecond)
		}
		if len(st.Send) > 0 {
			ch.Write(st.Send)
		}
		if st.Zeros > 0 {
			ch.Write(Fill(st.Zeros))
		}
		if st.Eof {
			ch.CloseWrite()
		}
		if st.Exit != nil {
			rc = *st.Exit
			exit(ch, rc)
		}
		if st.Signal != "" {
			ch.SendRequest("exit-signal", false, ssh.Marshal(struct {
				Signal     string
				CoreDumped bool
				Error      string
				Lang       string
			}{st.Signal, false, "", ""}))
		}
		if st.Drop {
			mu.Lock()
			s.note(Event{Ev: "exec", Cmd: cmd, Got: append([]byte{}, got...), Rc: -2})
			mu.Unlock()
			c.Close()
			return
		}
	}
	mu.Lock()
	s.note(Event{Ev: "exec", Cmd: cmd, Got: append([]byte{}, got...), Rc: rc})
	mu.Unlock()
	ch.Close()
	if hangup {
		c.Close()
	}
}

// PEM of a client's private key.
func PEM(seed string) (string, string) {
	h := sha256.Sum256([]byte(seed))
	k := ed25519.NewKeyFromSeed(h[:])
	b, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	s, _ := ssh.NewSignerFromKey(k)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b})), strings.TrimSpace(string(ssh.MarshalAuthorizedKey(s.PublicKey())))
}

// Info about a private key: what it is, how long, and the public half.
func Info(priv string) (string, int, string) {
	k, err := ssh.ParseRawPrivateKey([]byte(priv))
	if err != nil {
		return "none", 0, ""
	}
	s, err := ssh.NewSignerFromKey(k)
	if err != nil {
		return "none", 0, ""
	}
	bits := 256
	if r, ok := k.(*rsa.PrivateKey); ok {
		bits = r.N.BitLen()
	}
	return s.PublicKey().Type(), bits, strings.TrimSpace(string(ssh.MarshalAuthorizedKey(s.PublicKey())))
}
