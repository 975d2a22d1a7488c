package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/indextree/b"
	"github.com/tecbot/gorocksdb"
)

// index PLAN EXP WORK: replays an Index behaviour on the real index.
func init() { modes["index"] = indexMain }

type idxPlan struct {
	K     int      `json:"k"`
	Keys  []uint64 `json:"-"`
	KeysS []string `json:"keys"` // decimal
	Hist  bool     `json:"hist"` // with persistent records
	HOff  int64    `json:"hOff"`
	POff  int64    `json:"pOff"`
	Seed  int64    `json:"seed"`
	Steps []struct {
		Op  string     `json:"op"`
		H   int64      `json:"h"`
		Ops [][2]int64 `json:"ops"`
		Q   [][3]int64 `json:"q"`
		KVC bool       `json:"kvc"`
	} `json:"steps"`
}
type idxExp struct {
	I int             `json:"i"`
	R json.RawMessage `json:"r"`
}

func readLines(path string, fn func(bz []byte)) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(l)) > 0 {
			fn(unquoteLine(l))
		}
		if err != nil {
			return
		}
	}
}

// unquoteLine: CSVWrite of ToJson writes the JSON text, possibly as a quoted TLA+ string.
func unquoteLine(l []byte) []byte {
	l = bytes.TrimSpace(l)
	if l[0] == '"' {
		var s string
		must(json.Unmarshal(l, &s))
		return []byte(s)
	}
	return l
}

func u64bz(x uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], x)
	return b[:]
}

type idxRun struct {
	p      *idxPlan
	dir    string
	kv     indextree.IKVDB
	tree   *indextree.NVTreeMem
	shadow *b.Tree
	m      []int64
	rnd    *rand.Rand
}

func (r *idxRun) pos(p int64) int64 { return p*8 + r.p.POff }

func (r *idxRun) open() {
	var err error
	if r.p.Hist {
		r.kv, err = indextree.NewRocksDB("idx", r.dir)
		must(err)
		r.tree = indextree.NewNVTreeMem(r.kv)
		if err := r.tree.Init(nil); err != nil {
			rep.Viol("rebuild", "Init: %v", err)
		}
	} else {
		r.tree = indextree.NewNVTreeMem(nil)
	}
}

func (r *idxRun) keyOf(k int64) []byte { return u64bz(r.p.Keys[k-1]) }

// bound maps a point of the model's axis to bytes: 2k is key k, odd numbers lie between keys.
func (r *idxRun) bound(x int64) []byte {
	if x%2 == 0 && x >= 2 && x <= 2*int64(r.p.K) {
		return r.keyOf(x / 2)
	}
	lo, hi := uint64(0), ^uint64(0)
	if x >= 3 {
		lo = r.p.Keys[(x-1)/2-1] + 1
	}
	if x <= 1 {
		hi = r.p.Keys[0] - 1
	} else if x < 2*int64(r.p.K) {
		hi = r.p.Keys[(x+1)/2-1] - 1
	}
	switch r.rnd.Intn(4) { // anywhere strictly between
	case 2: // sharing its low 48 bits with a key
		const low = 1<<48 - 1
		u := r.p.Keys[r.rnd.Intn(len(r.p.Keys))]&low | lo&^low
		if u < lo {
			u += low + 1
		}
		if u >= lo && u <= hi {
			return u64bz(u)
		}
		return u64bz(hi)
	case 0:
		return u64bz(lo)
	case 1:
		return u64bz(hi)
	}
	return u64bz(lo + (hi-lo)/2)
}

func (r *idxRun) full() {
	n := 0
	for k := int64(1); k <= int64(r.p.K); k++ {
		w := r.m[k-1]
		if w >= 0 {
			n++
		}
		got, ok := r.tree.Get(r.keyOf(k))
		if ok != (w >= 0) || (ok && got != r.pos(w)) {
			rep.Viol("get", "key %d (%x): got %d,%v want %d", k, r.keyOf(k), got, ok, w)
		}
		s, sok := r.shadow.Get(r.p.Keys[k-1])
		if sok != (w >= 0) || (sok && s != r.pos(w)) {
			rep.Viol("get", "bare tree, key %d: got %d,%v want %d", k, s, sok, w)
		}
	}
	rep.Add("gets", 2*int64(r.p.K))
	if c := r.tree.ActiveCount(); c != n {
		rep.Viol("count", "ActiveCount %d want %d", c, n)
	}
	if c := r.shadow.Len(); c != n {
		rep.Viol("count", "bare tree: Len %d want %d", c, n)
	}
}

func (r *idxRun) iter(q [3]int64, want []int64) {
	a, bb := r.bound(q[0]), r.bound(q[1])
	if bytes.Compare(a, bb) > 0 && q[0] <= q[1] {
		a, bb = bb, a
	}
	it := r.tree.Iterator(a, bb)
	if q[2] == 1 {
		it.Close()
		it = r.tree.ReverseIterator(a, bb)
	}
	s, e := it.Domain()
	if !bytes.Equal(s, a) || !bytes.Equal(e, bb) {
		rep.Viol("domain", "Domain() = %x %x, want %x %x", s, e, a, bb)
	}
	i := 0
	for ; it.Valid(); it.Next() {
		k, v := it.Key(), it.Value()
		if i >= len(want) {
			rep.Viol("iterate", "range %x..%x dir %d: extra key %x", a, bb, q[2], k)
			break
		}
		w := want[i]
		if !bytes.Equal(k, r.keyOf(w)) || v != r.pos(r.m[w-1]) {
			rep.Viol("iterate", "range %x..%x dir %d, item %d: got %x->%d want %x->%d", a, bb, q[2], i, k, v, r.keyOf(w), r.pos(r.m[w-1]))
			break
		}
		i++
	}
	if i < len(want) && rep.nviol == 0 {
		rep.Viol("iterate", "range %x..%x dir %d: ended after %d of %d keys", a, bb, q[2], i, len(want))
	}
	for j := 0; j < 2; j++ { // once ended it stays ended
		it.Next()
		if rep.nviol == 0 && it.Valid() {
			rep.Viol("iterate", "range %x..%x dir %d: valid again after the end", a, bb, q[2])
		}
	}
	it.Close()
	rep.Add("ranges", 1)
	rep.Add("range_keys", int64(i))
}

func indexMain(args []string) {
	bz, err := os.ReadFile(args[0])
	must(err)
	p := &idxPlan{}
	must(json.Unmarshal(bz, p))
	for _, s := range p.KeysS {
		var u uint64
		_, err := fmt.Sscan(s, &u)
		must(err)
		p.Keys = append(p.Keys, u)
	}
	if !sort.SliceIsSorted(p.Keys, func(i, j int) bool { return p.Keys[i] < p.Keys[j] }) {
		must(fmt.Errorf("keys not sorted"))
	}
	var exps []idxExp
	readLines(args[1], func(bz []byte) {
		var e idxExp
		must(json.Unmarshal(bz, &e))
		exps = append(exps, e)
	})
	if len(exps) != len(p.Steps) {
		must(fmt.Errorf("%d expectations for %d steps", len(exps), len(p.Steps)))
	}
	r := &idxRun{p: p, dir: filepath.Join(args[2], "idx"), shadow: b.TreeNew(), m: make([]int64, p.K), rnd: rand.New(rand.NewSource(p.Seed))}
	for i := range r.m {
		r.m[i] = -1
	}
	must(os.MkdirAll(r.dir, 0755))
	rep.Arm()
	r.open()
	for i := range p.Steps {
		st := &p.Steps[i]
		rep.At("step %d %s", i+1, st.Op)
		switch st.Op {
		case "block":
			r.tree.BeginWrite(st.H + p.HOff)
			if r.kv != nil {
				r.kv.OpenNewBatch()
				if r.rnd.Intn(2) == 0 { // records of other kinds live in the same store
					r.kv.CurrBatch().Set([]byte{byte(1 + r.rnd.Intn(255)), byte(r.rnd.Intn(4))}, make([]byte, r.rnd.Intn(20)))
				}
			}
			for _, o := range st.Ops {
				u := p.Keys[o[0]-1]
				if o[1] >= 0 {
					old, ok := r.shadow.Get(u)
					if r.rnd.Intn(2) == 0 {
						o2, ok2 := r.shadow.PutNewAndGetOld(u, r.pos(o[1]))
						if ok != ok2 || (ok && old != o2) {
							rep.Viol("put", "PutNewAndGetOld(%x): %d,%v want %d,%v", u, o2, ok2, old, ok)
						}
					} else {
						r.shadow.Set(u, r.pos(o[1]))
					}
					r.tree.Set(r.keyOf(o[0]), r.pos(o[1]))
				} else {
					r.shadow.Delete(u)
					r.tree.Delete(r.keyOf(o[0]))
				}
			}
			rep.Add("ops", int64(len(st.Ops)))
			if r.kv != nil {
				r.kv.CloseOldBatch()
			}
			r.tree.EndWrite()
			var x struct{ M []int64 }
			must(json.Unmarshal(exps[i].R, &x))
			r.m = x.M
			r.full()
			rep.Add("blocks", 1)
		case "rebuild":
			r.tree.Close()
			r.kv.Close()
			if st.KVC {
				kv, err := indextree.NewRocksDB("idx", r.dir)
				must(err)
				kv.(*indextree.RocksDB).DB().CompactRange(gorocksdb.Range{})
				kv.Close()
			}
			r.open()
			var x struct{ M []int64 }
			must(json.Unmarshal(exps[i].R, &x))
			r.m = x.M
			r.full()
			rep.Add("rebuilds", 1)
		case "iter":
			var x struct{ Q [][]int64 }
			must(json.Unmarshal(exps[i].R, &x))
			for j, q := range st.Q {
				r.iter(q, x.Q[j])
			}
			if i < 40 && len(st.Q) > 0 && len(x.Q[0]) > 1 {
				rep.Sample(map[string]interface{}{"range": st.Q[0], "keys": x.Q[0]})
			}
		case "hist":
			var x struct{ Q []int64 }
			must(json.Unmarshal(exps[i].R, &x))
			for j, q := range st.Q {
				got, ok := r.tree.GetAtHeight(r.keyOf(q[0]), uint64(q[1]+p.HOff))
				if ok != (x.Q[j] >= 0) || (ok && got != r.pos(x.Q[j])) {
					rep.Viol("height", "key %d at height %d: got %d,%v want %d", q[0], q[1], got, ok, x.Q[j])
				}
				rep.Add("historical_gets", 1)
			}
		}
		if rep.nviol > 0 {
			break
		}
	}
	r.tree.Close()
	if r.kv != nil {
		r.kv.Close()
	}
}
