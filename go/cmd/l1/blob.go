package main

import (
	"encoding/hex"
	"encoding/json"
	"strconv"
	"time"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/fuzzy"
	"github.com/aarondl/bpass/txlogs"
)

func init() {
	kinds["blob"] = runBlob
	kinds["fuzzy"] = runFuzzy
}

func rawLog(l []txlogs.Tx) []M {
	out := []M{}
	for _, t := range l {
		out = append(out, M{"kind": string(t.Kind), "u": t.UUID, "k": t.Key, "v": t.Value})
	}
	return out
}

func strs(v interface{}) []string {
	var out []string
	l, _ := v.([]interface{})
	for _, x := range l {
		out = append(out, x.(string))
	}
	return out
}

// runBlob runs operations of package blobformat on a given history.
func runBlob(sc scenario) interface{} {
	raw, _ := json.Marshal(M{"log": sc.Arg["log"]})
	db, err := txlogs.New(raw)
	if err != nil {
		return M{"res": "err", "msg": err.Error()}
	}
	b := blobformat.Blobs{DB: db}
	t := []M{}
	first := rawLog(db.Log)
	for _, o := range sc.Ops {
		op := str(o, "op")
		before := len(db.Log)
		old := append([]txlogs.Tx(nil), db.Log...)
		ev := M{"op": op, "u": str(o, "u"), "q": str(o, "q"), "ls": strs(o["ls"]), "i": num(o, "i"), "got": M{}, "fresh": true}
		if ev["ls"].([]string) == nil {
			ev["ls"] = []string{}
		}
		n0 := time.Now().UnixNano()
		var err error
		got := M{}
		res, msg := guard(func() {
			switch op {
			case "dups":
				var m map[string]string
				m, err = b.RenameDuplicates()
				for k, v := range m {
					got[k] = v
				}
			case "search":
				var r blobformat.SearchResults
				r, err = b.Search(str(o, "q"))
				for k, v := range r {
					got[k] = v
				}
			case "labels":
				var r blobformat.SearchResults
				r, err = b.SearchLabels(strs(o["ls"])...)
				for k, v := range r {
					got[k] = v
				}
			case "users":
				var r blobformat.SearchResults
				r, err = b.Users()
				for k, v := range r {
					got[k] = v
				}
			case "addlabel":
				err = b.AddLabel(str(o, "u"), str(o, "q"))
			case "rmlabel":
				err = b.RemoveLabel(str(o, "u"), num(o, "i"))
			case "rename":
				err = b.Rename(str(o, "u"), str(o, "q"))
			case "set":
				err = b.Set(str(o, "u"), str(o, "k"), str(o, "q"))
				ev["k"] = str(o, "k")
			case "delk":
				err = b.DeleteKey(str(o, "u"), str(o, "k"))
				ev["k"] = str(o, "k")
			case "new":
				_, err = b.New(str(o, "q"))
			case "newuser":
				_, err = b.NewUser(str(o, "q"))
			case "newsync":
				_, err = b.NewSync(str(o, "q"))
			}
		})
		n1 := time.Now().UnixNano()
		if res == "ok" && err != nil {
			res, msg = "err", err.Error()
		}
		ev["res"], ev["msg"], ev["got"] = res, msg, got
		ev["pre"] = len(db.Log) >= before
		if ev["pre"].(bool) {
			for i := range old {
				if db.Log[i] != old[i] {
					ev["pre"] = false
				}
			}
			ev["new"] = rawLog(db.Log[before:])
			for _, tx := range db.Log[before:] {
				at := tx.Time
				if tx.Key == blobformat.KeyUpdated {
					at, _ = strconv.ParseInt(tx.Value, 10, 64)
				}
				if at < n0 || at > n1 || tx.Time < n0 || tx.Time > n1 {
					ev["fresh"] = false
				}
			}
		} else {
			ev["new"] = []M{}
		}
		t = append(t, ev)
	}
	return M{"log": first, "t": t}
}

// runFuzzy matches arbitrary bytes.
func runFuzzy(sc scenario) interface{} {
	t := []M{}
	for _, o := range sc.Ops {
		s, _ := hex.DecodeString(str(o, "s"))
		q, _ := hex.DecodeString(str(o, "q"))
		var m, f bool
		res, msg := guard(func() { m = fuzzy.Match(string(s), string(q)); f = fuzzy.MatchFold(string(s), string(q)) })
		t = append(t, M{"res": res, "msg": msg, "m": m, "f": f})
	}
	return M{"t": t}
}
