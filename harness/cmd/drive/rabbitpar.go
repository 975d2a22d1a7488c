package main

import (
	"encoding/hex"
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
)

// rabbitpar PLAN EXP WORK: replays RabbitParReplay: rounds of transactions side by side on a trunk.
func init() { modes["rabbitpar"] = rabbitParMain }

type parPlan struct {
	rbPlan
	SlotBytes []string `json:"slotbytes"`
	Steps     []struct {
		Op  string       `json:"op"`
		End string       `json:"end"`
		H   int64        `json:"h"`
		Txs [][][3]int64 `json:"txs"`
	} `json:"steps"`
}
type parTx struct {
	Gets  []int64 `json:"gets"`
	Seen  []int   `json:"seen"`
	Foot  []int   `json:"foot"`
	Dirty []int   `json:"dirty"`
	N     []int   `json:"n"`
	Acc   bool    `json:"acc"`
}

type slotKey = [rabbit.KeySize]byte

func scanSlots(rb *rabbit.RabbitStore) (all, dirty map[slotKey]bool) {
	all, dirty = map[slotKey]bool{}, map[slotKey]bool{}
	rb.ScanAllShortKeys(func(key [rabbit.KeySize]byte, d bool) bool {
		all[key] = true
		if d {
			dirty[key] = true
		}
		return false
	})
	return
}

func rabbitParMain(args []string) {
	bz, err := os.ReadFile(args[0])
	must(err)
	var p parPlan
	must(json.Unmarshal(bz, &p))
	exp := map[int]json.RawMessage{}
	readLines(args[1], func(bz []byte) {
		var e idxExp
		must(json.Unmarshal(bz, &e))
		exp[e.I] = e.R
	})
	slots := make([]slotKey, len(p.SlotBytes)+1)
	for i, h := range p.SlotBytes {
		b, err := hex.DecodeString(h)
		must(err)
		copy(slots[i+1][:], b)
	}
	moeingads.VerifSet("RootCacheSizeLimit", p.Limit)
	moeingads.VerifSet("DefaultHPFileSize", 65536)
	moeingads.VerifSet("HPFileBufferSize", 4096)
	r := &rbRun{p: &p.rbPlan, dir: filepath.Join(args[2], "ads"), rnd: rand.New(rand.NewSource(p.Seed))}
	rep.Arm()
	r.open()
	r.base0 = r.root.ActiveCount()
	for i, s := range p.Steps {
		rep.At("step %d %s", i+1, s.Op)
		var e struct {
			Txs   []parTx `json:"txs"`
			After []int64 `json:"after"`
		}
		raw, ok := exp[i+1]
		if !ok {
			panic("HARNESS-ERROR: no expectation")
		}
		must(json.Unmarshal(raw, &e))
		switch s.Op {
		case "round":
			par := r.parent("trunk")
			rbs := make([]rabbit.RabbitStore, len(s.Txs))
			for j := range rbs {
				rbs[j] = rabbit.NewRabbitStore(par)
				if !rbs[j].IsClean() || rbs[j].CachedEntryCount() != 0 {
					rep.Viol("fresh", "a new transaction is not clean")
				}
			}
			var wg sync.WaitGroup
			for j := range rbs {
				wg.Add(1)
				go func(rb *rabbit.RabbitStore, ops [][3]int64, x *parTx, seed int64) {
					defer wg.Done()
					runPar(&p, slots, rb, ops, x, seed)
				}(&rbs[j], s.Txs[j], &e.Txs[j], p.Seed+int64(i*100+j))
			}
			wg.Wait()
			for j := range rbs {
				rbs[j].Close()
				all, dirty := scanSlots(&rbs[j])
				checkSlots("after closing", slots, &e.Txs[j], all, dirty)
				rep.Add("transactions", 1)
			}
			for j := range rbs {
				if e.Txs[j].Acc {
					rbs[j].WriteBack()
					rep.Add("written_back", 1)
				} else {
					rep.Add("in_conflict", 1)
				}
			}
			r.reader("trunk", "after-round", e.After)
			rep.Add("rounds", 1)
		case "trunk":
			t := r.trunk
			if t == nil {
				t = r.root.GetTrunkStore(10).(*store.TrunkStore)
			}
			r.trunk = nil
			if s.End == "wb" {
				r.root.SetHeight(s.H)
			}
			t.Close(s.End == "wb")
			r.reader("root", "after-trunk-"+s.End, e.After)
			rep.Add("trunks", 1)
		}
		if i < 3 {
			rep.Sample(map[string]interface{}{"step": i + 1, "op": s.Op, "txs": s.Txs, "expected": e})
		}
	}
	r.root.Close()
}

// runPar executes one transaction and compares the answers and the slots it says it depends on.
func runPar(p *parPlan, slots []slotKey, rb *rabbit.RabbitStore, ops [][3]int64, x *parTx, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	foot := map[slotKey]bool{}
	for _, f := range x.Foot {
		foot[slots[f]] = true
	}
	g := 0
	for j, o := range ops {
		key := rbKeyBytes(p.Keys[o[1]-1])
		if rnd.Intn(2) == 0 { // the slots on which a lookup of the key depends
			path, _ := rb.GetShortKeyPath(key)
			if len(path) != x.N[j] {
				rep.Viol("lookup-path", "operation %d, key %d: the path has %d slots, expected %d", j+1, o[1], len(path), x.N[j])
			}
			for _, s := range path {
				if !foot[s] {
					rep.Viol("lookup-path", "operation %d, key %d: slot %x is not on its way", j+1, o[1], s)
				}
			}
			rep.Add("paths", 1)
		}
		switch o[0] {
		case 1:
			setAndScribble(rb, key, rbValue(o[2]))
		case 2:
			rb.Delete(key)
		default:
			got := rb.Get(key)
			if !isGet(got, got != nil, x.Gets[g]) {
				rep.Viol("read", "side by side, key %d: %s, expected %s", o[1], show(got), showV(x.Gets[g]))
			}
			g++
		}
		rep.Add("ops", 1)
	}
	all, dirty := scanSlots(rb)
	checkSlots("at the end", slots, x, all, dirty)
	if n := rb.CachedEntryCount(); n != len(all) {
		rep.Viol("count", "CachedEntryCount is %d, the scan meets %d slots", n, len(all))
	}
	if rb.IsClean() != (len(all) == 0) {
		rep.Viol("clean", "IsClean is %v, the scan meets %d slots", rb.IsClean(), len(all))
	}
	if len(all) > 1 { // a scan can be stopped
		n, stop := 0, 1+rnd.Intn(len(all)-1)
		rb.ScanAllShortKeys(func(key [rabbit.KeySize]byte, d bool) bool {
			n++
			return n == stop
		})
		if n != stop {
			rep.Viol("scan", "a scan stopped at slot %d went on to slot %d", stop, n)
		}
		rep.Add("stopped_scans", 1)
	}
}

func checkSlots(when string, slots []slotKey, x *parTx, all, dirty map[slotKey]bool) {
	want, foot := map[slotKey]bool{}, map[slotKey]bool{}
	for _, s := range x.Dirty {
		want[slots[s]] = true
		if !dirty[slots[s]] {
			rep.Viol("changed-slots", "%s: slot %x is changed by the transaction, but not reported as changed", when, slots[s])
			return
		}
	}
	for s := range dirty {
		if !want[s] {
			rep.Viol("changed-slots", "%s: slot %x is reported as changed, but the transaction does not change it", when, s)
			return
		}
	}
	for _, s := range x.Seen {
		if !all[slots[s]] {
			rep.Viol("seen-slots", "%s: slot %x was met on the way, but is not reported", when, slots[s])
			return
		}
	}
	for _, s := range x.Foot {
		foot[slots[s]] = true
	}
	for s := range all {
		if !foot[s] && !want[s] {
			rep.Viol("seen-slots", "%s: slot %x is reported, but the transaction never looked at it", when, s)
			return
		}
	}
	rep.Add("slots_compared", int64(len(all)))
	rep.Add("slots_changed", int64(len(dirty)))
}
