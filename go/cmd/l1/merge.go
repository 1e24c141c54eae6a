package main

import (
	"github.com/aarondl/bpass/txlogs"
)

func init() { kinds["merge"] = runMerge }

type jtx struct {
	Tm   int64  `json:"tm"`
	Kind string `json:"kind"`
	U    string `json:"u"`
	K    string `json:"k"`
	V    string `json:"v"`
}

func toTx(j map[string]interface{}) txlogs.Tx {
	return txlogs.Tx{Time: int64(num(j, "tm")), Kind: txlogs.TxKind(str(j, "kind")), UUID: str(j, "u"), Key: str(j, "k"), Value: str(j, "v")}
}

func fromTx(t txlogs.Tx) jtx { return jtx{t.Time, string(t.Kind), t.UUID, t.Key, t.Value} }

func fromLog(l []txlogs.Tx) []jtx {
	out := []jtx{}
	for _, t := range l {
		out = append(out, fromTx(t))
	}
	return out
}

func confKind(k int) string {
	switch k {
	case txlogs.ConflictKindRoot:
		return "root"
	case txlogs.ConflictKindDeleteSet:
		return "deleteset"
	}
	return "?"
}

func fromConf(cs []txlogs.Conflict) []M {
	out := []M{}
	for _, c := range cs {
		out = append(out, M{"kind": confKind(c.Kind), "initial": fromTx(c.Initial), "conflict": fromTx(c.Conflict)})
	}
	return out
}

func same(a, b []txlogs.Tx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clone(a []txlogs.Tx) []txlogs.Tx { return append([]txlogs.Tx{}, a...) }

// roomy is a copy with room for more behind it.
func roomy(a []txlogs.Tx) []txlogs.Tx { return append(make([]txlogs.Tx, 0, len(a)+16), a...) }

var later = txlogs.Tx{Time: 1 << 60, Kind: txlogs.TxAdd, UUID: "~"}

// mergeOnce calls Merge on private copies and reports whether it scribbled on them.
func mergeOnce(a, b []txlogs.Tx, res []txlogs.Conflict) (c []txlogs.Tx, conf []txlogs.Conflict, out M) {
	x, y := roomy(a), roomy(b)
	r, msg := guard(func() { c, conf = txlogs.Merge(x, y, res) })
	if r == "ok" && len(conf) == 0 {
		// What comes of one merge is not touched by others of the same copies
		was := clone(c)
		guard(func() { txlogs.Merge(x, append(clone(a), later), nil) })
		guard(func() { txlogs.Merge(y, append(clone(b), later), nil) })
		if !same(c, was) {
			return was, conf, M{"c": fromLog(c), "conf": fromConf(conf), "ok": false, "msg": "a later merge changed the result"}
		}
	}
	out = M{"c": fromLog(c), "conf": fromConf(conf), "ok": r == "ok" && same(x, a) && same(y, b)}
	if r != "ok" {
		out["msg"] = msg
	} else if !same(x, a) || !same(y, b) {
		out["msg"] = "Merge changed its input"
	}
	return clone(c), conf, out
}

func validLog(l []txlogs.Tx) bool {
	db := &txlogs.DB{Log: clone(l)}
	ok := false
	guard(func() { ok = db.UpdateSnapshot() == nil })
	return ok
}

// runMerge plays devices that edit and exchange copies of one file.
func runMerge(sc scenario) interface{} {
	logs := map[string][]txlogs.Tx{}
	dev := []string{}
	for _, d := range sc.Arg["dev"].([]interface{}) {
		var l []txlogs.Tx
		for _, t := range sc.Arg["init"].(map[string]interface{})[d.(string)].([]interface{}) {
			l = append(l, toTx(t.(map[string]interface{})))
		}
		logs[d.(string)] = l
		dev = append(dev, d.(string))
	}
	t := []M{}
	init := M{}
	for d, l := range logs {
		init[d] = fromLog(l)
	}
	t = append(t, M{"op": "init", "logs": init})
	laws := func() {
		for i, d := range dev {
			for _, e := range dev[i+1:] {
				a, b := logs[d], logs[e]
				ab, _, jab := mergeOnce(a, b, nil)
				_, _, jba := mergeOnce(b, a, nil)
				ev := M{"op": "laws", "d": d, "e": e, "ab": jab, "ba": jba}
				if len(jab["conf"].([]M)) == 0 {
					_, _, ev["m1"] = mergeOnce(ab, a, nil)
					_, _, ev["m2"] = mergeOnce(b, ab, nil)
					_, _, ev["m3"] = mergeOnce(ab, clone(ab), nil)
					ev["valid"] = validLog(ab)
				}
				t = append(t, ev)
			}
		}
		if len(dev) >= 3 {
			x, y, z := logs[dev[0]], logs[dev[1]], logs[dev[2]]
			xy, c1, _ := mergeOnce(x, y, nil)
			yz, c2, _ := mergeOnce(y, z, nil)
			if len(c1) == 0 && len(c2) == 0 {
				_, _, l := mergeOnce(xy, z, nil)
				_, _, r := mergeOnce(x, yz, nil)
				t = append(t, M{"op": "assoc", "l": l, "r": r})
			}
		}
	}
	for _, o := range sc.Ops {
		switch str(o, "op") {
		case "edit":
			d := str(o, "d")
			x := toTx(o["tx"].(map[string]interface{}))
			nl := append(clone(logs[d]), x)
			if !validLog(nl) {
				continue
			}
			logs[d] = nl
			t = append(t, M{"op": "edit", "d": d, "tx": fromTx(x)})
		case "pull":
			d, e := str(o, "d"), str(o, "e")
			how := str(o, "how")
			pat, _ := o["pat"].([]interface{})
			var res []txlogs.Conflict
			var jres []M
			jres = []M{}
			done := false
			k := 0
			for round := 0; round < 12; round++ {
				c, conf, out := mergeOnce(logs[d], logs[e], res)
				out["op"], out["d"], out["e"], out["res"] = "merge", d, e, append([]M{}, jres...)
				t = append(t, out)
				if out["ok"] != true {
					break
				}
				if len(conf) == 0 {
					logs[d] = c
					t = append(t, M{"op": "adopt", "d": d, "c": fromLog(c), "resolved": len(jres) > 0, "valid": validLog(c)})
					done = true
					break
				}
				if how == "" && len(pat) == 0 {
					done = true // not resolved: the device keeps what it has
					break
				}
				if round == 0 {
					// undecided conflicts come back as they are
					_, c2, _ := mergeOnce(logs[d], logs[e], append([]txlogs.Conflict{}, conf...))
					t = append(t, M{"op": "undecided", "before": fromConf(conf), "after": fromConf(c2)})
				}
				for i := range conf {
					h := how
					if len(pat) > 0 {
						h = pat[k%len(pat)].(string)
						k++
					}
					if conf[i].Kind == txlogs.ConflictKindRoot {
						h = "force"
						conf[i].Force()
					} else if h == "restore" {
						conf[i].DiscardInitial()
					} else {
						conf[i].DiscardConflict()
					}
					jres = append(jres, M{"kind": confKind(conf[i].Kind), "initial": fromTx(conf[i].Initial), "how": h})
				}
				res = append(res, conf...)
			}
			if !done {
				t = append(t, M{"op": "stuck", "d": d, "e": e})
			}
		case "laws":
			laws()
		}
	}
	laws()
	return M{"t": t}
}
