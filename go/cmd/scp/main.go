// Command scp runs the transfers of scpsync against a server that does what
// the scenarios say, one JSON line each.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"github.com/aarondl/bpass/scpsync"
	"golang.org/x/crypto/ssh"

	"bpv/fake"
)

type scenario struct {
	Op     string      `json:"op"`
	Name   string      `json:"name"`
	Mode   int         `json:"mode"`
	Data   []byte      `json:"data"`
	Fill   int         `json:"fill"`
	Steps  []fake.Step `json:"steps"`
	Hangup bool        `json:"hangup"`
	Refuse bool        `json:"refuse"`
	Root   string      `json:"root"`
	Reject bool        `json:"reject"`
}

type result struct {
	Ok       bool         `json:"ok"`
	Err      string       `json:"err"`
	NotFound bool         `json:"notfound"`
	Content  []byte       `json:"content"`
	N        int          `json:"n"`
	Sum      string       `json:"sum"`
	Events   []fake.Event `json:"events"`
	Stray    bool         `json:"stray"`
	Nil      bool         `json:"nil"`
}

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func run(sc scenario) (r result) {
	s, err := fake.New("ed25519", "x")
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
	defer s.Close()
	s.Refuse, s.Hangup, s.Root = sc.Refuse, sc.Hangup, sc.Root
	if sc.Root == "" {
		s.Steps["f"], s.Steps["t"] = sc.Steps, sc.Steps
	}
	cfg := &ssh.ClientConfig{User: "u", Auth: []ssh.AuthMethod{ssh.Password("secret")}, HostKeyCallback: func(string, net.Addr, ssh.PublicKey) error {
		if sc.Reject {
			return fmt.Errorf("unknown host")
		}
		return nil
	}}
	addr := fmt.Sprintf("127.0.0.1:%d", s.Port)
	data := sc.Data
	if sc.Fill > 0 {
		data = fake.Fill(sc.Fill)
	}
	if sc.Op == "recv" {
		var b []byte
		b, err = scpsync.Recv(addr, cfg, sc.Name)
		r.N, r.Nil = len(b), b == nil
		r.Sum = sum(b)
		if len(b) <= 4096 {
			r.Content = b
		}
	} else {
		keep := append([]byte{}, data...)
		err = scpsync.Send(addr, cfg, sc.Name, sc.Mode, data)
		r.Stray = !bytes.Equal(keep, data)
	}
	r.Ok = err == nil
	if err != nil {
		r.Err = err.Error()
		r.NotFound = scpsync.IsNotFoundErr(err)
	}
	// What was last on the way
	for i := 0; i < 200; i++ {
		done := false
		s.Lock(func() {})
		ev := s.Take()
		r.Events = append(r.Events, ev...)
		for _, e := range r.Events {
			done = done || e.Ev == "refused" || e.Ev == "done" || (e.Ev == "exec" && sc.Root == "")
		}
		if done {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	for i := range r.Events {
		if e := &r.Events[i]; len(e.Got) > 4096 {
			h := bytes.IndexByte(e.Got, '\n')
			e.Cmd += fmt.Sprintf("\n%d %s", len(e.Got), sum(e.Got[h+1:]))
			e.Got = e.Got[:h+1]
		}
	}
	r.Err = strings.ToValidUTF8(r.Err, "?")
	return r
}

func main() {
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for n := 0; ; n++ {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var sc scenario
			if e := json.Unmarshal(line, &sc); e != nil {
				fmt.Fprintln(os.Stderr, "driver:", e)
				os.Exit(3)
			}
			t := time.AfterFunc(60*time.Second, func() {
				fmt.Fprintln(os.Stderr, "HANG scenario", n)
				os.Exit(7)
			})
			r := run(sc)
			t.Stop()
			b, e := json.Marshal(r)
			if e != nil {
				fmt.Fprintln(os.Stderr, "driver:", e)
				os.Exit(3)
			}
			os.Stdout.Write(append(b, '\n'))
		}
		if err != nil {
			return
		}
	}
}
