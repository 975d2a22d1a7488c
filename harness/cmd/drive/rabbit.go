package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
)

// rabbit PLAN EXP WORK: replays a RabbitReplay behaviour on the real stores.
// rabbitgraph EDGES WORK PART PARTS: walks every edge of a Rabbit_MC graph.
func init() {
	modes["rabbit"] = rabbitMain
	modes["rabbitgraph"] = rabbitGraphMain
}

// widen gives the 8-byte keys of the real root store to a rabbit store with shorter ones.
type widen struct{ types.BaseStoreI }
type widenDB struct{ db types.SetDeleter }

func wide(k []byte) []byte {
	if len(k) == 8 {
		return k
	}
	r := []byte{0, 7, 7, 7, 7, 7, 7, 0}
	copy(r, k)
	r[7] = k[len(k)-1] * 37
	return r
}
func (w widen) Get(k []byte) []byte                   { return w.BaseStoreI.Get(wide(k)) }
func (w widen) GetAtHeight(k []byte, h uint64) []byte { return w.BaseStoreI.GetAtHeight(wide(k), h) }
func (w widen) PrepareForUpdate(k []byte)             { w.BaseStoreI.PrepareForUpdate(wide(k)) }
func (w widen) PrepareForDeletion(k []byte)           { w.BaseStoreI.PrepareForDeletion(wide(k)) }
func (w widen) Update(f func(db types.SetDeleter)) {
	w.BaseStoreI.Update(func(db types.SetDeleter) { f(widenDB{db}) })
}
func (w widenDB) Set(k, v []byte)  { w.db.Set(wide(k), v) }
func (w widenDB) Delete(k []byte) { w.db.Delete(wide(k)) }

// mapStore is the plainest parent.
type mapStore struct {
	mu sync.RWMutex
	m  map[string][]byte
}

func (s *mapStore) RLock()   { s.mu.RLock() }
func (s *mapStore) RUnlock() { s.mu.RUnlock() }
func (s *mapStore) Get(k []byte) []byte {
	v, ok := s.m[string(k)]
	if !ok {
		return nil
	}
	return append([]byte{}, v...)
}
func (s *mapStore) GetAtHeight(k []byte, h uint64) []byte { panic("no history") }
func (s *mapStore) PrepareForUpdate(k []byte)             {}
func (s *mapStore) PrepareForDeletion(k []byte)           {}
func (s *mapStore) Update(f func(db types.SetDeleter)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f(s)
}
func (s *mapStore) Set(k, v []byte)  { s.m[string(k)] = append([]byte{}, v...) }
func (s *mapStore) Delete(k []byte) { delete(s.m, string(k)) }
func (s *mapStore) ActiveCount() int { return len(s.m) }

type rbPlan struct {
	N     int      `json:"n"`
	Keys  []string `json:"keys"`
	Stack string   `json:"stack"` // mock | real
	Hist  bool     `json:"hist"`
	Cache string   `json:"cache"` // none | all | some
	Limit int64    `json:"limit"` // RootCacheSizeLimit
	Seed  int64    `json:"seed"`
	Steps []struct {
		Op  string     `json:"op"`
		On  string     `json:"on"`
		End string     `json:"end"`
		H   int64      `json:"h"`
		Ops [][3]int64 `json:"ops"`
	} `json:"steps"`
}

func rbValue(v int64) []byte {
	if v == 0 {
		return []byte{}
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("rb%d", v)))
	n := int(h[0]) % 70
	if h[1] < 12 {
		n += 600
	}
	res := []byte(fmt.Sprintf("v%d.", v))
	for len(res) < n {
		res = append(res, h[:]...)
	}
	return res
}

func isGet(got []byte, has bool, v int64) bool {
	if v < 0 {
		return got == nil && !has
	}
	return has && bytes.Equal(got, rbValue(v)) && (v == 0 || got != nil)
}

// setAndScribble calls Set with buffers that are overwritten afterwards.
func setAndScribble(rb *rabbit.RabbitStore, k, v []byte) {
	kk, vv := append([]byte{}, k...), append([]byte{}, v...)
	rb.Set(kk, vv)
	for i := range kk {
		kk[i] ^= 0x5a
	}
	for i := range vv {
		vv[i] ^= 0x5a
	}
}

type rbRun struct {
	p     *rbPlan
	dir   string
	mads  *moeingads.MoeingADS
	root  types.RootStoreI
	trunk *store.TrunkStore
	rnd   *rand.Rand
	base0 int // ActiveCount of an empty store
}

func (r *rbRun) open() {
	if r.p.Stack == "mock" {
		r.root = store.NewMockRootStore()
		return
	}
	var err error
	r.mads, err = moeingads.NewMoeingADS(r.dir, r.p.Hist, [][]byte{make([]byte, 8), bytes.Repeat([]byte{255}, 8)})
	must(err)
	var f func(k []byte) bool
	switch r.p.Cache {
	case "all":
		f = func(k []byte) bool { return true }
	case "some":
		f = func(k []byte) bool { return k[0]%2 == 0 }
	}
	r.root = store.NewRootStore(r.mads, f)
}

func (r *rbRun) parent(on string) types.BaseStoreI {
	var p types.BaseStoreI = r.root
	if on == "trunk" {
		if r.trunk == nil {
			r.trunk = r.root.GetTrunkStore(1000).(*store.TrunkStore)
		}
		p = r.trunk
	}
	if r.p.Stack == "mock" || rabbit.KeySize == 8 {
		return p
	}
	return widen{p}
}

func (r *rbRun) check(what string, rb *rabbit.RabbitStore, m []int64) bool {
	ok := true
	for k := range m {
		key := rbKeyBytes(r.p.Keys[k])
		has := rb.Has(key)
		got := rb.Get(key)
		rep.Add("reads", 1)
		if !isGet(got, has, m[k]) {
			rep.Viol(what, "key %d (%s): has=%v value=%s, expected %s", k+1, r.p.Keys[k], has, show(got), showV(m[k]))
			ok = false
			break
		}
		if path, in := rb.GetShortKeyPath(key); in != (m[k] >= 0) || len(path) == 0 {
			rep.Viol(what, "key %d: GetShortKeyPath says %v, expected %s", k+1, in, showV(m[k]))
			ok = false
			break
		} else if len(path) > 1 && m[k] >= 0 {
			rep.Add("collided_reads", 1)
			if len(path) > 3 {
				rep.Add("deep_reads", 1)
			}
		}
	}
	return ok
}

func show(bz []byte) string {
	if bz == nil {
		return "nothing"
	}
	return fmt.Sprintf("%d bytes %q", len(bz), trunc(string(bz), 24))
}
func showV(v int64) string {
	if v < 0 {
		return "nothing"
	}
	return show(rbValue(v))
}

func rbKeyBytes(h string) []byte {
	bz, err := hex.DecodeString(h)
	must(err)
	return bz
}

func rabbitMain(args []string) {
	bz, err := os.ReadFile(args[0])
	must(err)
	var p rbPlan
	must(json.Unmarshal(bz, &p))
	exp := map[int]json.RawMessage{}
	readLines(args[1], func(bz []byte) {
		var e idxExp
		must(json.Unmarshal(bz, &e))
		exp[e.I] = e.R
	})
	moeingads.VerifSet("RootCacheSizeLimit", p.Limit)
	moeingads.VerifSet("DefaultHPFileSize", 65536)
	moeingads.VerifSet("HPFileBufferSize", 4096)
	r := &rbRun{p: &p, dir: filepath.Join(args[2], "ads"), rnd: rand.New(rand.NewSource(p.Seed))}
	rep.Arm()
	r.open()
	r.base0 = r.root.ActiveCount()
	for i, s := range p.Steps {
		rep.At("step %d %s", i+1, s.Op)
		var e struct {
			Gets  []int64 `json:"gets"`
			Tx    []int64 `json:"tx"`
			After []int64 `json:"after"`
			None  bool    `json:"none"`
		}
		raw, ok := exp[i+1]
		if !ok {
			must(fmt.Errorf("no expectation for step %d", i+1))
		}
		must(json.Unmarshal(raw, &e))
		switch s.Op {
		case "tx":
			par := r.parent(s.On)
			rb := rabbit.NewRabbitStore(par)
			g := 0
			for _, o := range s.Ops {
				key := rbKeyBytes(p.Keys[o[1]-1])
				switch o[0] {
				case 1:
					setAndScribble(&rb, key, rbValue(o[2]))
				case 2:
					rb.Delete(key)
				case 3:
					has, got := true, rb.Get(key)
					if r.rnd.Intn(2) == 0 {
						has = rb.Has(key)
					} else {
						has = got != nil
					}
					if !isGet(got, has, e.Gets[g]) {
						rep.Viol("read", "inside a transaction, key %d: has=%v value=%s, expected %s", o[1], has, show(got), showV(e.Gets[g]))
					}
					g++
				}
				rep.Add("ops", 1)
			}
			if r.rnd.Intn(3) == 0 {
				r.check("tx-view", &rb, e.Tx)
			}
			if s.On == "root" {
				r.root.SetHeight(s.H)
			}
			if r.rnd.Intn(2) == 0 {
				rb.CloseAndWriteBack(s.End == "wb")
			} else {
				rb.Close()
				if s.End == "wb" {
					rb.WriteBack()
				}
			}
			r.reader(s.On, "after-"+s.End, e.After)
			rep.Add("transactions", 1)
		case "trunk":
			t := r.trunk
			if t == nil {
				t = r.root.GetTrunkStore(10).(*store.TrunkStore)
			}
			r.trunk = nil
			if s.End == "wb" {
				r.root.SetHeight(s.H)
			}
			t.Close(s.End == "wb")
			r.reader("root", "after-trunk-"+s.End, e.After)
			if e.None {
				if n := r.root.ActiveCount(); n != r.base0 {
					rep.Viol("left-over", "all keys are deleted but %d slots remain in the store", n-r.base0)
				}
				rep.Add("emptied", 1)
			}
		case "reopen":
			if p.Stack == "real" {
				r.root.Close()
				r.open()
			}
			r.reader("root", "after-reopen", e.After)
			rep.Add("reopens", 1)
		case "past":
			on := "root"
			if r.trunk != nil {
				on = "trunk"
			}
			rb := rabbit.NewReadOnlyRabbitStoreAtHeight(r.parent(on), uint64(s.H))
			r.check("past", &rb, e.After)
			rb.Close()
			rep.Add("past_views", 1)
		}
		if i < 3 {
			rep.Sample(map[string]interface{}{"step": i + 1, "op": s.Op, "ops": s.Ops, "expected": e.After})
		}
	}
	r.root.Close()
}

// reader: a new store on the parent sees exactly m.  A read-only one may be written without effect.
func (r *rbRun) reader(on, what string, m []int64) {
	var rb rabbit.RabbitStore
	if r.rnd.Intn(2) == 0 {
		rb = rabbit.NewRabbitStore(r.parent(on))
	} else {
		rb = rabbit.NewReadOnlyRabbitStore(r.parent(on))
		if r.rnd.Intn(3) == 0 {
			k := r.rnd.Intn(len(m))
			key := rbKeyBytes(r.p.Keys[k])
			if r.rnd.Intn(2) == 0 {
				rb.Set(key, []byte("scratch"))
				if string(rb.Get(key)) != "scratch" {
					rep.Viol("read-only", "a read-only store does not see its own scratch write of key %d", k+1)
				}
			} else {
				rb.Delete(key)
				if rb.Has(key) {
					rep.Viol("read-only", "a read-only store still sees key %d it deleted", k+1)
				}
			}
			rb.Close()
			rb = rabbit.NewReadOnlyRabbitStore(r.parent(on))
		}
	}
	r.check(what, &rb, m)
	rb.Close()
}

// ---------------------------------------------------------------- graph walk

func slotOf(key []byte, n int) (path [][]byte) { // the hash chain; used only to choose keys that collide
	h := sha256.Sum256(key)
	for i := 0; i < n; i++ {
		s := append([]byte{}, h[:rabbit.KeySize]...)
		s[0] = s[0]%128 + 64
		path = append(path, s)
		h = sha256.Sum256(h[:])
	}
	return
}

type gEdge struct {
	op   string
	k    int
	to   string
	m    []int64
	done bool
}

// rabbitGraphMain walks all edges of the graph of each collision shape.
func rabbitGraphMain(args []string) {
	part, parts := atoi(args[2]), atoi(args[3])
	type graph struct {
		shape [][]int
		out   map[string][]*gEdge
		m     map[string][]int64
	}
	graphs := map[string]*graph{}
	var order []string
	readLines(args[0], func(bz []byte) {
		var l []json.RawMessage
		must(json.Unmarshal(bz, &l))
		sh := string(l[0])
		g := graphs[sh]
		if g == nil {
			g = &graph{out: map[string][]*gEdge{}, m: map[string][]int64{}}
			must(json.Unmarshal(l[0], &g.shape))
			graphs[sh] = g
			order = append(order, sh)
		}
		var m1, m2 []int64
		var from, to []json.RawMessage
		must(json.Unmarshal(l[1], &from))
		must(json.Unmarshal(l[3], &to))
		must(json.Unmarshal(from[1], &m1))
		must(json.Unmarshal(to[1], &m2))
		var o []json.RawMessage
		must(json.Unmarshal(l[2], &o))
		e := &gEdge{to: string(l[3]), m: m2}
		must(json.Unmarshal(o[0], &e.op))
		must(json.Unmarshal(o[1], &e.k))
		g.m[string(l[1])], g.m[string(l[3])] = m1, m2
		g.out[string(l[1])] = append(g.out[string(l[1])], e)
	})
	rnd := rand.New(rand.NewSource(int64(part) + 77))
	// a pool of keys by their first two slots
	pool := map[string][][]byte{}
	for i := 0; i < 300000; i++ {
		k := []byte(fmt.Sprintf("%d-%d", part, i))
		p := slotOf(k, 2)
		s := string(p[0]) + string(p[1])
		pool[s] = append(pool[s], k)
	}
	rep.Arm()
	for gi, sh := range order {
		if gi%parts != part {
			continue
		}
		g := graphs[sh]
		var keys [][]byte
	pick:
		for try := 0; ; try++ {
			if try > 2000 {
				must(fmt.Errorf("no keys for shape %s", sh))
			}
			perm := rnd.Perm(128)
			slot := func(a int) string { return string([]byte{byte(64 + perm[a])}) }
			used := map[string]bool{slot(1): true, slot(2): true, slot(3): true, slot(4): true}
			keys = nil
			for _, pf := range g.shape {
				ok := false
				for _, c := range pool[slot(pf[0])+slot(pf[1])] {
					p := slotOf(c, 4)
					if used[string(p[2])] || used[string(p[3])] || bytes.Equal(p[2], p[3]) {
						continue
					}
					used[string(p[2])], used[string(p[3])] = true, true
					keys = append(keys, c)
					ok = true
					break
				}
				if !ok {
					continue pick
				}
			}
			break
		}
		walkRabbit(rnd, gi, sh, keys, g.out, g.m)
		rep.Add("shapes", 1)
	}
}

func atoi(s string) int {
	var n int
	_, err := fmt.Sscan(s, &n)
	must(err)
	return n
}

func walkRabbit(rnd *rand.Rand, gi int, sh string, keys [][]byte, out map[string][]*gEdge, maps map[string][]int64) {
	var par types.BaseStoreI
	var trunk *store.TrunkStore
	if gi%2 == 0 {
		par = &mapStore{m: map[string][]byte{}}
	} else {
		trunk = store.NewMockRootStore().GetTrunkStore(100).(*store.TrunkStore)
		par = trunk
	}
	count := func() int {
		if trunk != nil { // slots the trunk holds as present
			n := 0
			for _, v := range trunk.GetCacheContent() {
				if len(v) != 0 {
					n++
				}
			}
			return n
		}
		return par.ActiveCount()
	}
	var init string
	for s, m := range maps {
		all := true
		for _, v := range m {
			all = all && v < 0
		}
		if all {
			init = s
		}
	}
	left := 0
	for _, l := range out {
		left += len(l)
	}
	cur, saved := init, init
	vals := make([]int64, len(keys)) // concrete value of each key; -1 absent
	savedVals := make([]int64, len(keys))
	for i := range vals {
		vals[i], savedVals[i] = -1, -1
	}
	next := int64(1)
	rb := rabbit.NewRabbitStore(par)
	end := func(wb bool) {
		rb.Close()
		if wb {
			rb.WriteBack()
			saved = cur
			copy(savedVals, vals)
		} else {
			cur = saved
			copy(vals, savedVals)
		}
		rb = rabbit.NewRabbitStore(par)
	}
	verify := func(where string) {
		empty := true
		for i, k := range keys {
			has, got := rb.Has(k), rb.Get(k)
			if !isGet(got, has, vals[i]) {
				rep.Viol("map", "shape %s, %s: key %d has=%v value=%s, expected %s", sh, where, i+1, has, show(got), showV(vals[i]))
			}
			empty = empty && vals[i] < 0
		}
		if empty && saved == cur && where == "after a write-back" {
			if n := count(); n != 0 {
				rep.Viol("left-over", "shape %s: all keys are deleted but %d slots remain", sh, n)
			}
			rep.Add("emptied", 1)
		}
		rep.Add("reads", int64(len(keys)))
	}
	step := func(e *gEdge) {
		rep.At("shape %s state %s op %s %d", sh, cur, e.op, e.k)
		switch e.op {
		case "set":
			next++
			setAndScribble(&rb, keys[e.k-1], rbValue(next))
			vals[e.k-1] = next
		case "del":
			rb.Delete(keys[e.k-1])
			vals[e.k-1] = -1
		}
		cur = e.to
		for i, v := range maps[cur] {
			if (v < 0) != (vals[i] < 0) {
				must(fmt.Errorf("walk out of step at %s", cur))
			}
		}
		verify("in a transaction")
		if !e.done {
			e.done = true
			left--
			rep.Add("edges", 1)
		}
		rep.Add("ops", 1)
		if rnd.Intn(4) == 0 {
			end(rnd.Intn(4) != 0)
			verify("after a write-back")
		}
	}
	for left > 0 {
		// breadth-first to the nearest edge not walked yet
		type node struct {
			s    string
			path []*gEdge
		}
		seen := map[string]bool{cur: true}
		q := []node{{s: cur}}
		var path []*gEdge
		for len(q) > 0 && path == nil {
			n := q[0]
			q = q[1:]
			for _, i := range rnd.Perm(len(out[n.s])) {
				e := out[n.s][i]
				np := append(append([]*gEdge{}, n.path...), e)
				if !e.done {
					path = np
					break
				}
				if !seen[e.to] {
					seen[e.to] = true
					q = append(q, node{e.to, np})
				}
			}
		}
		if path == nil {
			must(fmt.Errorf("edges out of reach"))
		}
		at := cur
		for _, e := range path {
			if cur != at {
				break // a transaction was dropped on the way
			}
			step(e)
			at = e.to
		}
	}
	// delete everything
	for i, k := range keys {
		rb.Delete(k)
		vals[i] = -1
	}
	cur = init
	end(true)
	verify("after a write-back")
	rb.Close()
}
