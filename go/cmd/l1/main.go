// Command l1 drives the exported packages of bpass through scenarios given as
// JSON lines on stdin and records what they did as JSON lines on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

type M = map[string]interface{}

type scenario struct {
	Kind string                   `json:"kind"`
	Ops  []map[string]interface{} `json:"ops"`
	Arg  map[string]interface{}   `json:"arg"`
}

var kinds = map[string]func(sc scenario) interface{}{}

func main() {
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	wr := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer wr.Flush()
	n := 0
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var sc scenario
			if e := json.Unmarshal(line, &sc); e != nil {
				panic(e)
			}
			f, ok := kinds[sc.Kind]
			if !ok {
				panic("unknown scenario kind " + sc.Kind)
			}
			// A scenario that never ends is reported, and ends this process.
			timer := time.AfterFunc(hangLimit, func() {
				fmt.Fprintf(os.Stderr, "HANG scenario %d\n", n)
				os.Exit(7)
			})
			out := f(sc)
			timer.Stop()
			b, e := json.Marshal(out)
			if e != nil {
				panic(e)
			}
			wr.Write(b)
			wr.WriteByte('\n')
			wr.Flush()
			n++
		}
		if err != nil {
			return
		}
	}
}

const hangLimit = 120 * time.Second

// guard runs f and reports "panic" (with the message) if it panicked.
func guard(f func()) (res string, msg string) {
	defer func() {
		if r := recover(); r != nil {
			res, msg = "panic", fmt.Sprint(r)
			if os.Getenv("BPV_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return "ok", ""
}

func str(m map[string]interface{}, k string) string {
	s, _ := m[k].(string)
	return s
}

func num(m map[string]interface{}, k string) int {
	f, _ := m[k].(float64)
	return int(f)
}
