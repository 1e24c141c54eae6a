// codec opens and makes bpass files for the harness, one JSON request per line.
package main

import (
	"bufio"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"os"

	"bpv/ref"
)

type req struct {
	Op         string
	Path       string
	User, Pass string
	Text       string // base64
	Users      []struct{ Name, Pass string }
	Salt, IV   string // hex; random if empty
	Keys       bool   // only make the key material of users
	Master     string
	KeyMat     []map[string]string `json:"mats"`
	Pairs      []struct{ Name, Pass string }
}

func rnd(h string, n int) []byte {
	if h != "" {
		b, err := hex.DecodeString(h)
		if err != nil {
			panic(err)
		}
		return b
	}
	b := make([]byte, n)
	rand.Read(b)
	return b
}

func handle(r req) (out map[string]interface{}) {
	out = map[string]interface{}{"ok": false}
	fail := func(err error) map[string]interface{} { out["err"] = err.Error(); return out }
	switch r.Op {
	case "open":
		b, err := os.ReadFile(r.Path)
		if err != nil {
			return fail(err)
		}
		f, err := ref.Open(b, r.User, r.Pass)
		if err != nil {
			return fail(err)
		}
		out["text"] = base64.StdEncoding.EncodeToString(f.Text)
		out["nusers"] = f.NUsers
		out["salt"], out["iv"] = hex.EncodeToString(f.Salt), hex.EncodeToString(f.IV)
		out["master"] = hex.EncodeToString(f.Master)
	case "seal":
		text, err := base64.StdEncoding.DecodeString(r.Text)
		if err != nil {
			return fail(err)
		}
		var b []byte
		if len(r.Users) == 0 {
			b, err = ref.SealSingle(r.Pass, rnd(r.Salt, 32), rnd(r.IV, 40), text)
		} else {
			var us []ref.User
			for _, u := range r.Users {
				us = append(us, ref.User{Name: u.Name, Pass: u.Pass, Salt: rnd("", 32), IV: rnd("", 40)})
			}
			b, err = ref.SealMulti(us, rnd(r.Master, 80), rnd("", 40), text)
		}
		if err != nil {
			return fail(err)
		}
		if err := os.WriteFile(r.Path, b, 0600); err != nil {
			return fail(err)
		}
	case "keys":
		// key material of user entries, and the file made of them
		master := rnd(r.Master, 80)
		var ks []map[string]string
		for _, u := range r.Users {
			x := ref.User{Name: u.Name, Pass: u.Pass, Salt: rnd("", 32), IV: rnd("", 40)}
			mk, err := ref.MKey(x, master)
			if err != nil {
				return fail(err)
			}
			ks = append(ks, map[string]string{"name": u.Name, "salt": hex.EncodeToString(x.Salt), "iv": hex.EncodeToString(x.IV), "mkey": hex.EncodeToString(mk)})
		}
		out["keys"], out["master"] = ks, hex.EncodeToString(master)
	case "assemble":
		// a multi-user file of key material that exists already
		text, err := base64.StdEncoding.DecodeString(r.Text)
		if err != nil {
			return fail(err)
		}
		var us []ref.Material
		for _, k := range r.KeyMat {
			us = append(us, ref.Material{Name: k["name"], Salt: rnd(k["salt"], 32), IV: rnd(k["iv"], 40), MKey: rnd(k["mkey"], 80)})
		}
		b, err := ref.Assemble(us, rnd(r.Master, 80), rnd("", 40), text)
		if err != nil {
			return fail(err)
		}
		if err := os.WriteFile(r.Path, b, 0600); err != nil {
			return fail(err)
		}
	case "probe":
		// which of many credentials open a file
		b, err := os.ReadFile(r.Path)
		if err != nil {
			return fail(err)
		}
		opens := []map[string]string{}
		for _, p := range r.Pairs {
			f, err := ref.Open(b, p.Name, p.Pass)
			if err != nil || (f.NUsers == 0) != (p.Name == "") {
				continue
			}
			h := sha256.Sum256(f.Text)
			opens = append(opens, map[string]string{"name": p.Name, "pass": p.Pass, "text": hex.EncodeToString(h[:8]), "salt": hex.EncodeToString(f.Salt), "iv": hex.EncodeToString(f.IV)})
		}
		out["opens"] = opens
	default:
		panic("driver: unknown op " + r.Op)
	}
	out["ok"] = true
	return out
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r req
		if err := json.Unmarshal(line, &r); err != nil {
			panic(err)
		}
		enc.Encode(handle(r))
	}
}
