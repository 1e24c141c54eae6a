// cryptd calls packages crypt and pkcs7 of the code under test, and the
// independent codec, one JSON request per line.  All bytes are in hex.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"

	"bpv/ref"
	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/pkcs7"
)

type user struct{ Name, Pass, Salt, IV, MKey string }

type req struct {
	Op                                           string
	User, Pass, Key, Salt, Master, IVM, IV, File string
	Text, B                                      string
	K                                            int
	Nil                                          bool // the cached key and salt are nil
	Users                                        []user
	Params                                       *params
	Ver                                          int
	Held                                         bool // with the parameters of the last decryption
}

type params struct {
	NUsers, User                    int
	Keys, Salts, Users, IVs, MKeys  []string
	IVM, Master                     string
}

func un(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("driver: " + err.Error())
	}
	return b
}

func uns(l []string) (r [][]byte) {
	for _, s := range l {
		if s == "" {
			r = append(r, nil)
			continue
		}
		r = append(r, un(s))
	}
	return r
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func hxs(l [][]byte) []string {
	r := []string{}
	for _, b := range l {
		r = append(r, hx(b))
	}
	return r
}

var held crypt.Params

func class(err error) string {
	switch {
	case errors.Is(err, crypt.ErrWrongPassphrase):
		return "wrong"
	case errors.Is(err, crypt.ErrNeedUser):
		return "need"
	case errors.Is(err, crypt.ErrInvalidFileFormat):
		return "format"
	}
	return "other"
}

func handle(r req) (out map[string]interface{}) {
	out = map[string]interface{}{"ok": false}
	defer func() {
		if p := recover(); p != nil {
			if s := fmt.Sprint(p); len(s) > 7 && s[:7] == "driver:" {
				panic(p)
			}
			out = map[string]interface{}{"ok": false, "crash": fmt.Sprint(p)}
		}
	}()
	fail := func(err error) map[string]interface{} {
		out["err"], out["class"] = err.Error(), class(err)
		return out
	}
	switch r.Op {
	case "derive":
		key, salt, err := crypt.DeriveKey(1, un(r.Pass))
		if err != nil {
			return fail(err)
		}
		out["key"], out["salt"] = hx(key), hx(salt)
	case "master":
		m, ivm, err := crypt.NewMasterKey(1)
		if err != nil {
			return fail(err)
		}
		out["master"], out["ivm"] = hx(m), hx(ivm)
	case "encmk":
		mk, iv, err := crypt.EncryptMasterKey(1, un(r.Key), un(r.Master))
		if err != nil {
			return fail(err)
		}
		out["mkey"], out["iv"] = hx(mk), hx(iv)
		m, err := ref.UnMKey(un(r.Key), iv, mk)
		if err == nil {
			out["refmaster"] = hx(m)
		}
	case "encrypt":
		var p crypt.Params
		if r.Held {
			p = held
		} else {
			q := r.Params
			p = crypt.Params{NUsers: q.NUsers, User: q.User, Keys: uns(q.Keys), Salts: uns(q.Salts), Users: uns(q.Users),
				IVs: uns(q.IVs), MKeys: uns(q.MKeys), IVM: un(q.IVM), Master: un(q.Master)}
		}
		text := un(r.Text)
		f, err := crypt.Encrypt(1, &p, text)
		if err != nil {
			return fail(err)
		}
		out["file"] = hx(f)
		out["spoiled"] = hx(text) != r.Text
	case "decrypt":
		var key, salt []byte
		if !r.Nil {
			key, salt = un(r.Key), un(r.Salt)
		}
		file := un(r.File)
		var usr []byte
		if r.User != "" {
			usr = un(r.User)
		}
		v, p, pt, err := crypt.Decrypt(usr, un(r.Pass), key, salt, file)
		out["spoiled"] = hx(file) != r.File
		if err != nil {
			if len(pt) != 0 {
				out["leak"] = hx(pt)
			}
			return fail(err)
		}
		held = p
		out["version"], out["text"] = v, hx(pt)
		out["par"] = params{p.NUsers, p.User, hxs(p.Keys), hxs(p.Salts), hxs(p.Users), hxs(p.IVs), hxs(p.MKeys), hx(p.IVM), hx(p.Master)}
	case "ismulti":
		m, err := crypt.IsMultiUser(un(r.File))
		if err != nil {
			return fail(err)
		}
		out["multi"] = m
	case "refkey":
		k, err := ref.Key(string(un(r.Pass)), un(r.Salt))
		if err != nil {
			panic("driver: " + err.Error())
		}
		out["key"] = hx(k)
	case "refopen":
		f, err := ref.Open(un(r.File), string(un(r.User)), string(un(r.Pass)))
		if err != nil {
			out["err"] = err.Error()
			return out
		}
		out["text"] = hx(f.Text)
	case "refsingle":
		f, err := ref.SealSingle(string(un(r.Pass)), un(r.Salt), un(r.IV), un(r.Text))
		if err != nil {
			panic("driver: " + err.Error())
		}
		out["file"] = hx(f)
	case "refmulti":
		var us []ref.Material
		for _, u := range r.Users {
			x := ref.User{Name: string(un(u.Name)), Pass: string(un(u.Pass)), Salt: un(u.Salt), IV: un(u.IV)}
			mk := un(u.MKey)
			if len(mk) == 0 {
				var err error
				if mk, err = ref.MKey(x, un(r.Master)); err != nil {
					panic("driver: " + err.Error())
				}
			}
			us = append(us, ref.Material{Name: x.Name, Salt: x.Salt, IV: x.IV, MKey: mk})
		}
		f, err := ref.Assemble(us, un(r.Master), un(r.IVM), un(r.Text))
		if err != nil {
			panic("driver: " + err.Error())
		}
		out["file"] = hx(f)
	case "pad":
		in := un(r.B)
		out["b"] = hx(pkcs7.Pad(append(make([]byte, 0, len(in)), in...), r.K))
	case "unpad":
		b, err := pkcs7.Unpad(un(r.B))
		if err != nil {
			out["err"] = err.Error()
			return out
		}
		out["b"] = hx(b)
	default:
		panic("driver: unknown op " + r.Op)
	}
	out["ok"] = true
	return out
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r req
		if err := json.Unmarshal(line, &r); err != nil {
			panic("driver: " + err.Error())
		}
		enc.Encode(handle(r))
	}
}
