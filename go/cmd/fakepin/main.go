// Command fakepin is a pinentry program that answers as it's told by the JSON
// file that BPV_PIN names and logs the conversation to the file BPV_PINLOG.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type script struct {
	Greet string            `json:"greet"`
	Odd   map[string]string `json:"odd"` // answers to the setup lines, by number
	Pin   []string          `json:"pin"` // answers to GETPIN, the first, the second, ... time it runs
	Bye   string            `json:"bye"`
	Quit  string            `json:"quit"` // exit instead of: greet, a number, pin, bye
	Exit  int               `json:"exit"`
	Only  string            `json:"only"` // fails unless its own name is this
}

type entry struct {
	C string `json:"c,omitempty"` // what the client said
	P string `json:"p,omitempty"` // what was answered
	Q *int   `json:"q,omitempty"` // it ended
}

func main() {
	var sc script
	b, err := os.ReadFile(os.Getenv("BPV_PIN"))
	if err == nil {
		err = json.Unmarshal(b, &sc)
	}
	if err != nil {
		os.Exit(99)
	}
	lf, err := os.OpenFile(os.Getenv("BPV_PINLOG"), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0600)
	if err != nil {
		os.Exit(98)
	}
	log := func(e entry) {
		b, _ := json.Marshal(e)
		lf.Write(append(b, '\n'))
	}
	round := 0
	if old, err := os.ReadFile(os.Getenv("BPV_PINLOG")); err == nil {
		round = strings.Count(string(old), `"c":"START`)
	}
	log(entry{C: "START " + filepath.Base(os.Args[0])})
	quit := func() {
		log(entry{Q: &sc.Exit})
		os.Exit(sc.Exit)
	}
	say := func(h string) {
		log(entry{P: h + "."})
		b, err := hex.DecodeString(h)
		if err != nil {
			os.Exit(97)
		}
		os.Stdout.Write(b)
	}
	lines := make(chan string)
	go func() {
		s := bufio.NewScanner(os.Stdin)
		for s.Scan() {
			lines <- s.Text()
		}
		close(lines)
	}()
	if sc.Quit == "greet" {
		quit()
	}
	say(sc.Greet)
	n := 0
	for {
		var l string
		var ok bool
		select {
		case l, ok = <-lines:
		case <-time.After(4 * time.Second):
		}
		if !ok {
			quit()
		}
		log(entry{C: l})
		switch {
		case l == "GETPIN":
			if sc.Quit == "pin" {
				quit()
			}
			if round < len(sc.Pin) {
				say(sc.Pin[round])
			} else {
				say(sc.Pin[len(sc.Pin)-1])
			}
			if sc.Quit == "after" {
				quit()
			}
		case l == "BYE":
			if sc.Bye != "" {
				say(sc.Bye)
			}
			quit()
		default:
			k := string(rune('0' + n))
			n++
			if sc.Quit == k {
				quit()
			}
			if a, odd := sc.Odd[k]; odd {
				say(a)
			} else {
				say(hex.EncodeToString([]byte("OK\n")))
			}
		}
	}
}
