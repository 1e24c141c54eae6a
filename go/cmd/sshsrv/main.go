// Command sshsrv is any number of ssh servers, told what to do by JSON lines.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"bpv/fake"
)

type req struct {
	Op     string                 `json:"op"`
	ID     int                    `json:"id"`
	Kind   string                 `json:"kind"`
	Seed   string                 `json:"seed"`
	More   [][2]string            `json:"more"`
	Root   string                 `json:"root"`
	Steps  map[string][]fake.Step `json:"steps"`
	User   string                 `json:"user"`
	Pass   string                 `json:"pass"`
	Priv   string                 `json:"priv"`
	Refuse bool                   `json:"refuse"`
	Hangup bool                   `json:"hangup"`
}

func main() {
	servers := map[int]*fake.Server{}
	next := 0
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		out := map[string]interface{}{"ok": true}
		fail := func(e error) { out["ok"], out["err"] = false, e.Error() }
		if e := json.Unmarshal(line, &q); e != nil {
			fail(e)
		}
		s := servers[q.ID]
		switch q.Op {
		case "listen":
			s, e := fake.New(q.Kind, q.Seed)
			if e != nil {
				fail(e)
				break
			}
			s.Root, s.User, s.Pass = q.Root, q.User, q.Pass
			_, s.Pub = fake.PEM("c")
			next++
			servers[next] = s
			out["id"], out["port"], out["type"], out["hash"] = next, s.Port, s.Type, s.Hash
		case "key":
			if e := s.SetKey(q.Kind, q.Seed, q.More...); e != nil {
				fail(e)
			}
			out["type"], out["hash"] = s.Type, s.Hash
		case "do":
			s.Lock(func() {
				s.Steps, s.Refuse, s.Hangup = q.Steps, q.Refuse, q.Hangup
				if s.Steps == nil {
					s.Steps = map[string][]fake.Step{}
				}
			})
		case "take":
			ev := s.Take()
			if ev == nil {
				ev = []fake.Event{}
			}
			out["events"] = ev
		case "close":
			s.Close()
			delete(servers, q.ID)
		case "keyinfo":
			out["type"], out["bits"], out["pub"] = fake.Info(q.Priv)
		case "pem":
			out["priv"], out["pub"] = fake.PEM(q.Seed)
		default:
			fail(fmt.Errorf("unknown op"))
		}
		b, _ := json.Marshal(out)
		os.Stdout.Write(append(b, '\n'))
	}
}
