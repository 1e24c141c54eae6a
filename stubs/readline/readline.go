// Package readline is the verification stand-in for the terminal line editor:
// every prompt is sent to the harness as one JSON line on a socket, and the
// harness answers with one JSON line.  It keeps the API bpass uses.
package readline

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"net"
	"os"
	"sync"
)

var (
	ErrInterrupt = errors.New("Interrupt")

	mu   sync.Mutex
	conn net.Conn
	rd   *bufio.Reader
)

// Msg is what goes over the socket in both directions.
type Msg struct {
	Ev     string   `json:"ev,omitempty"`
	Prompt string   `json:"prompt,omitempty"`
	Hidden bool     `json:"hidden,omitempty"`
	Hex    string   `json:"hex,omitempty"`
	Line   string   `json:"line,omitempty"`
	Err    string   `json:"err,omitempty"`
	Tab    bool     `json:"tab,omitempty"`
	Names  []string `json:"names,omitempty"`
}

func connect() {
	if conn != nil {
		return
	}
	path := os.Getenv("BPV_SOCK")
	if path == "" {
		panic("verification build of bpass: BPV_SOCK not set")
	}
	c, err := net.Dial("unix", path)
	if err != nil {
		panic(err)
	}
	conn = c
	rd = bufio.NewReaderSize(c, 1<<16)
}

func send(m Msg) {
	connect()
	b, _ := json.Marshal(m)
	conn.Write(append(b, '\n'))
}

func recv() (Msg, error) {
	var m Msg
	line, err := rd.ReadBytes('\n')
	if err != nil {
		return m, io.EOF
	}
	if err := json.Unmarshal(line, &m); err != nil {
		panic(err)
	}
	return m, nil
}

type AutoCompleter interface {
	Do(line []rune, pos int) (newLine [][]rune, length int)
}

type DynamicCompleteFunc func(string) []string

type PrefixCompleterInterface interface{ dyn() []DynamicCompleteFunc }

type PrefixCompleter struct {
	fn   DynamicCompleteFunc
	name string
	kids []PrefixCompleterInterface
}

func (p *PrefixCompleter) dyn() (out []DynamicCompleteFunc) {
	if p.fn != nil {
		out = append(out, p.fn)
	}
	for _, k := range p.kids {
		out = append(out, k.dyn()...)
	}
	return out
}

// Do completes with whatever the first dynamic completer offers.
func (p *PrefixCompleter) Do(line []rune, pos int) ([][]rune, int) {
	for _, f := range p.dyn() {
		var out [][]rune
		for _, s := range f(string(line)) {
			out = append(out, []rune(s))
		}
		return out, 0
	}
	return nil, 0
}

func PcItem(name string, pc ...PrefixCompleterInterface) *PrefixCompleter {
	return &PrefixCompleter{name: name, kids: pc}
}

func PcItemDynamic(fn DynamicCompleteFunc, pc ...PrefixCompleterInterface) *PrefixCompleter {
	return &PrefixCompleter{fn: fn, kids: pc}
}

func NewPrefixCompleter(pc ...PrefixCompleterInterface) *PrefixCompleter {
	return &PrefixCompleter{kids: pc}
}

type Config struct {
	Prompt                 string
	HistoryFile            string
	HistoryLimit           int
	DisableAutoSaveHistory bool
	HistorySearchFold      bool
	AutoComplete           AutoCompleter
	InterruptPrompt        string
	EOFPrompt              string
	Stdin                  io.ReadCloser
	StdinWriter            io.Writer
	Stdout                 io.Writer
	Stderr                 io.Writer
	EnableMask             bool
	MaskRune               rune
	UniqueEditLine         bool
	VimMode                bool
}

type Instance struct {
	cfg    *Config
	prompt string
}

func New(prompt string) (*Instance, error) { return NewEx(&Config{Prompt: prompt}) }

func NewEx(c *Config) (*Instance, error) {
	mu.Lock()
	defer mu.Unlock()
	connect()
	return &Instance{cfg: c, prompt: c.Prompt}, nil
}

func (i *Instance) SetPrompt(p string)           { i.prompt = p }
func (i *Instance) SetConfig(c *Config) *Config  { o := i.cfg; i.cfg = c; return o }
func (i *Instance) SaveHistory(line string) error {
	mu.Lock()
	defer mu.Unlock()
	send(Msg{Ev: "history", Line: line})
	return nil
}
func (i *Instance) Close() error {
	mu.Lock()
	defer mu.Unlock()
	send(Msg{Ev: "close"})
	return nil
}

func (i *Instance) ask(prompt string, hidden bool) ([]byte, error) {
	mu.Lock()
	defer mu.Unlock()
	for {
		send(Msg{Ev: "prompt", Prompt: prompt, Hidden: hidden})
		m, err := recv()
		if err != nil {
			return nil, io.EOF
		}
		switch {
		case m.Tab:
			var names []string
			if i.cfg.AutoComplete != nil {
				rs, _ := i.cfg.AutoComplete.Do(nil, 0)
				for _, r := range rs {
					names = append(names, string(r))
				}
			}
			send(Msg{Ev: "tab", Names: names})
			continue
		case m.Err == "eof":
			return nil, io.EOF
		case m.Err == "interrupt":
			return nil, ErrInterrupt
		case m.Hex != "":
			return hex.DecodeString(m.Hex)
		default:
			return []byte(m.Line), nil
		}
	}
}

func (i *Instance) Readline() (string, error) {
	b, err := i.ask(i.prompt, false)
	return string(b), err
}

func (i *Instance) ReadPassword(prompt string) ([]byte, error) {
	return i.ask(prompt, true)
}

// Clip is used by the clipboard stand-in, so that copies arrive in order with
// the prompts.
func Clip(text string) {
	mu.Lock()
	defer mu.Unlock()
	send(Msg{Ev: "clip", Line: text})
}
