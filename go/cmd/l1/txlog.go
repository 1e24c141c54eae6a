package main

import (
	"errors"
	"strconv"
	"time"

	"github.com/aarondl/bpass/txlogs"
)

func init() { kinds["txlog"] = runTxlog }

type names struct {
	toUUID map[string]string
	toName map[string]string
}

func newNames() *names { return &names{map[string]string{}, map[string]string{}} }
func (n *names) bind(name, uuid string) {
	n.toUUID[name] = uuid
	n.toName[uuid] = name
}
func (n *names) name(uuid string) string {
	if s, ok := n.toName[uuid]; ok {
		return s
	}
	return "?" + uuid
}
func (n *names) uuid(name string) string {
	if s, ok := n.toUUID[name]; ok {
		return s
	}
	return "no-such-" + name
}

func projLog(l []txlogs.Tx, n *names) []M {
	out := []M{}
	for _, t := range l {
		out = append(out, M{"kind": string(t.Kind), "u": n.name(t.UUID), "k": t.Key, "v": t.Value,
			"tm": strconv.FormatInt(t.Time, 10)})
	}
	return out
}

func projSnap(s map[string]txlogs.Entry, n *names) M {
	out := M{}
	for u, e := range s {
		x := M{}
		for k, v := range e {
			x[k] = v
		}
		out[n.name(u)] = x
	}
	return out
}

var errDo = errors.New("do")

func runTxlog(sc scenario) interface{} {
	db := new(txlogs.DB)
	nm := newNames()
	for u := range map[string]bool{"e1": true, "e2": true, "e3": true} {
		nm.bind(u, "unborn-"+u)
	}
	t := []M{}
	emit := func(ev M) {
		ev["log"] = projLog(db.Log, nm)
		ev["ver"] = db.Version
		ev["snap"] = projSnap(db.Snapshot, nm)
		t = append(t, ev)
	}
	var run func(ops []map[string]interface{}) bool
	run = func(ops []map[string]interface{}) bool {
		for _, o := range ops {
			op := str(o, "op")
			u := nm.uuid(str(o, "u"))
			ev := M{"op": op}
			for k, v := range o {
				if k != "ops" {
					ev[k] = v
				}
			}
			isRec := false
			t0 := time.Now().UnixNano()
			var err error
			res, msg := guard(func() {
				switch op {
				case "add":
					var id string
					id, err = db.Add()
					if err == nil {
						nm.bind(str(o, "u"), id)
					}
					isRec = true
				case "set":
					db.Set(u, str(o, "k"), str(o, "v"))
					isRec = true
				case "del":
					db.Delete(u)
					isRec = true
				case "delk":
					db.DeleteKey(u, str(o, "k"))
					isRec = true
				case "begin":
					db.Begin()
				case "commit":
					db.Commit()
				case "rollback":
					db.Rollback()
				case "undo":
					err = db.RollbackN(uint(num(o, "n")))
				case "update":
					err = db.UpdateSnapshot()
				case "reset":
					db.ResetSnapshot()
				case "reload":
					var b []byte
					if b, err = db.Save(); err != nil {
						return
					}
					var nd *txlogs.DB
					if nd, err = txlogs.New(b); err == nil {
						db = nd
						var lg []txlogs.Tx
						if lg, err = txlogs.NewLog(b); err == nil && len(lg) != len(db.Log) {
							err = errors.New("NewLog and New disagree")
						}
					}
				case "clock":
					// The same history as clocks that disagree would have recorded it
					for i := range db.Log {
						x := db.Log[i].Time
						switch str(o, "how") {
						case "back":
							x = t0 - int64(i)*1000
						case "same":
							x = t0
						case "past":
							x -= 1 << 52
						case "saw":
							x = t0 + int64(i%3)*1000 - int64(i/3)
						case "odd":
							x = int64(i%2) - 1
						}
						db.Log[i].Time = x
					}
				case "viewat":
					var s map[string]txlogs.Entry
					s, err = db.SnapshotAt(num(o, "n"))
					if err == nil {
						ev["got"] = projSnap(s, nm)
						for _, e := range s { // a private copy: scribbling on it changes nothing
							e["scribble"] = "x"
						}
						s["scribble"] = txlogs.Entry{}
					}
				case "entryat":
					var e txlogs.Entry
					e, err = db.EntrySnapshotAt(u, num(o, "n"))
					if err == nil {
						g := M{}
						for k, v := range e {
							g[k] = v
						}
						ev["got"] = g
						e["scribble"] = "x"
					}
				case "nver":
					ev["got"] = db.NVersions(u)
				case "last":
					ev["got"] = strconv.FormatInt(db.LastUpdated(u), 10)
				case "do":
					fail := str(o, "how") == "err"
					var sub []map[string]interface{}
					for _, x := range o["ops"].([]interface{}) {
						sub = append(sub, x.(map[string]interface{}))
					}
					derr := db.Do(func() error {
						emit(M{"op": "begin", "res": "ok"})
						run(sub)
						if fail {
							return errDo
						}
						return nil
					})
					if fail {
						ev["op"] = "rollback"
						if derr != errDo {
							err = errors.New("Do lost the error")
						}
					} else {
						ev["op"] = "commit"
						err = derr
					}
				default:
					panic("driver: unknown op " + op)
				}
			})
			if res == "ok" && err != nil {
				res, msg = "err", err.Error()
			}
			if isRec {
				t1 := time.Now().UnixNano()
				fresh := len(db.Log) > 0 && db.Log[len(db.Log)-1].Time >= t0 && db.Log[len(db.Log)-1].Time <= t1
				ev["fresh"] = fresh
				if len(db.Log) > 0 {
					ev["tm"] = strconv.FormatInt(db.Log[len(db.Log)-1].Time, 10)
				}
			}
			ev["res"] = res
			if msg != "" {
				ev["msg"] = msg
			}
			emit(ev)
		}
		return true
	}
	run(sc.Ops)
	return M{"t": t}
}
