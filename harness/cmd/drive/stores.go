package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
)

// stores PLAN EXP WORK: replays a StoresReplay behaviour on RootStore, TrunkStore, RabbitStore
// and on a replica that gets only the captured contents of the trunks.
func init() { modes["stores"] = storesMain }

type stPlan struct {
	N       int      `json:"n"`
	Keys    []string `json:"keys"`
	Raw     int      `json:"raw"` // keys 1..raw are used directly on trunk and root, the others through rabbit stores
	Txs     int      `json:"txs"`
	Hist    bool     `json:"hist"`
	Cache   string   `json:"cache"`
	Cache2  string   `json:"cache2"` // of the replica
	Limit   int64    `json:"limit"`
	Replica bool     `json:"replica"`
	Lag     int      `json:"lag"` // captured contents are applied to the replica up to so many blocks later
	Seed    int64    `json:"seed"`
	Steps   []stStep `json:"steps"`
}
type stStep struct {
	Op  string     `json:"op"`
	T   int        `json:"t"`
	K   int        `json:"k"`
	V   int64      `json:"v"`
	H   int64      `json:"h"`
	On  string     `json:"on"`
	RO  bool       `json:"ro"`
	Ops [][2]int64 `json:"ops"`
	How int        `json:"how"`
}
type stExp struct {
	I     int             `json:"i"`
	Root  []int64         `json:"root"`
	Trunk []int64         `json:"trunk"`
	Side  []int64         `json:"side"`
	R     json.RawMessage `json:"r"`
}

type stNode struct {
	dir   string
	hist  bool
	cache string
	mads  *moeingads.MoeingADS
	root  *store.RootStore
}

func (n *stNode) open() {
	var err error
	n.mads, err = moeingads.NewMoeingADS(n.dir, n.hist, [][]byte{make([]byte, 8), bytes.Repeat([]byte{255}, 8)})
	must(err)
	var f func(k []byte) bool
	switch n.cache {
	case "all":
		f = func(k []byte) bool { return true }
	case "some":
		f = func(k []byte) bool { return k[6]%2 == 0 }
	case "shards":
		f = func(k []byte) bool { return k[7] < 96 }
	}
	n.root = store.NewRootStore(n.mads, f)
}

type stRun struct {
	p       *stPlan
	n       stNode // the original
	r       stNode // the replica
	trunk   *store.TrunkStore
	side    *store.TrunkStore // lives over blocks, never written back
	tx      []*rabbit.RabbitStore
	rnd     *rand.Rand
	pend    []stPend
	hashes  int
	keys    [][]byte
	dropped bool
}
type stPend struct {
	h    int64
	m    map[string]string
	hash []byte
}

func storesMain(args []string) {
	bz, err := os.ReadFile(args[0])
	must(err)
	var p stPlan
	must(json.Unmarshal(bz, &p))
	exp := map[int]stExp{}
	readLines(args[1], func(bz []byte) {
		var e stExp
		must(json.Unmarshal(bz, &e))
		exp[e.I] = e
	})
	moeingads.VerifSet("RootCacheSizeLimit", p.Limit)
	moeingads.VerifSet("DefaultHPFileSize", 65536)
	moeingads.VerifSet("HPFileBufferSize", 4096)
	r := &stRun{p: &p, rnd: rand.New(rand.NewSource(p.Seed)), tx: make([]*rabbit.RabbitStore, p.Txs+1)}
	r.n = stNode{dir: filepath.Join(args[2], "ads"), hist: p.Hist, cache: p.Cache}
	r.r = stNode{dir: filepath.Join(args[2], "rep"), cache: p.Cache2}
	for _, k := range p.Keys {
		r.keys = append(r.keys, rbKeyBytes(k))
	}
	rep.Arm()
	rep.At("opening")
	r.n.open()
	if p.Replica {
		r.r.open()
	}
	for i := range p.Steps {
		s := &p.Steps[i]
		rep.At("step %d %s", i+1, s.Op)
		e, ok := exp[i+1]
		if !ok {
			must(fmt.Errorf("no expectation for step %d", i+1))
		}
		r.step(s, &e)
		if i < 4 {
			rep.Sample(map[string]interface{}{"step": s, "expected": e})
		}
	}
	r.sync(0)
	r.n.root.Close()
	if p.Replica {
		r.r.root.Close()
	}
}

func (r *stRun) base(on string) types.BaseStoreI {
	if on == "trunk" {
		return r.trunk
	}
	if on == "side" {
		return r.side
	}
	return r.n.root
}

// refused runs what must not be possible: it may panic, and must have no effect.
func refused(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

func (r *stRun) step(s *stStep, e *stExp) {
	switch s.Op {
	case "begin":
		var rb rabbit.RabbitStore
		if s.RO {
			rb = rabbit.NewReadOnlyRabbitStore(r.base(s.On))
		} else {
			rb = rabbit.NewRabbitStore(r.base(s.On))
		}
		r.tx[s.T] = &rb
	case "set":
		setAndScribble(r.tx[s.T], r.keys[s.K-1], rbValue(s.V))
	case "del":
		r.tx[s.T].Delete(r.keys[s.K-1])
	case "get":
		var allowed [][]int64
		must(json.Unmarshal(e.R, &allowed))
		r.txRead(s.T, s.K, allowed[0], "read")
		return
	case "close":
		r.tx[s.T].Close()
		if s.How == 1 {
			r.tx[s.T].Close()
		}
	case "drop":
		if s.How == 1 {
			r.tx[s.T].CloseAndWriteBack(false)
		}
		r.tx[s.T] = nil
	case "back":
		if s.H > 0 {
			r.n.root.SetHeight(s.H)
		}
		if s.How == 1 {
			r.tx[s.T].CloseAndWriteBack(true)
		} else {
			r.tx[s.T].WriteBack()
		}
		r.tx[s.T] = nil
	case "illegal":
		r.n.root.SetHeight(s.H)
		if s.T > 0 {
			refused(func() { r.tx[s.T].WriteBack() })
		} else {
			refused(func() { r.trunk.Close(true) })
		}
		rep.Add("refusals", 1)
	case "topen":
		if s.RO {
			r.trunk = r.n.root.GetReadOnlyTrunkStore(10).(*store.TrunkStore)
		} else {
			r.trunk = r.n.root.GetTrunkStore(10).(*store.TrunkStore)
		}
	case "sopen":
		if s.RO {
			r.side = r.n.root.GetReadOnlyTrunkStore(10).(*store.TrunkStore)
		} else {
			r.side = r.n.root.GetTrunkStore(10).(*store.TrunkStore)
		}
	case "sdrop":
		r.side.Close(false)
		r.side = nil
	case "tback":
		m := map[string]string{}
		for k, v := range r.trunk.GetCacheContent() {
			m[k] = v
		}
		r.n.root.SetHeight(s.H)
		if s.How == 1 {
			r.trunk.WriteBack()
			r.trunk.Close(false)
		} else {
			r.trunk.Close(true)
		}
		r.trunk = nil
		if r.p.Replica {
			r.pend = append(r.pend, stPend{s.H, m, append([]byte{}, r.n.root.GetRootHash()...)})
			r.sync(r.rnd.Intn(r.p.Lag + 1))
		}
		rep.Add("blocks", 1)
	case "tdrop":
		r.trunk.Close(false)
		r.trunk = nil
	case "raw":
		b := r.base(s.On)
		ops := s.Ops
		for _, i := range r.rnd.Perm(len(ops)) {
			k := r.keys[ops[i][0]-1]
			if ops[i][1] < 0 {
				b.PrepareForDeletion(append([]byte{}, k...))
			} else {
				b.PrepareForUpdate(append([]byte{}, k...))
			}
		}
		if s.On == "root" {
			r.n.root.SetHeight(s.H)
		}
		b.Update(func(db types.SetDeleter) {
			for _, o := range ops {
				k := append([]byte{}, r.keys[o[0]-1]...)
				if o[1] < 0 {
					db.Delete(k)
				} else {
					db.Set(k, rbValue(o[1]))
				}
			}
		})
	case "reopen":
		r.trunk, r.side = nil, nil
		for i := range r.tx {
			r.tx[i] = nil
		}
		r.n.root.Close()
		r.n.open()
		rep.Add("reopens", 1)
	case "past":
		r.past(s, e)
		return
	}
	rep.Add("steps", 1)
	r.observe(s, e)
}

func oneOf(got []byte, has bool, vs []int64) bool {
	for _, v := range vs {
		if isGet(got, has, v) {
			return true
		}
	}
	return false
}

func (r *stRun) txRead(t, k int, allowed []int64, what string) bool {
	if k <= r.p.Raw {
		return true
	}
	got := r.tx[t].Get(r.keys[k-1])
	has := r.tx[t].Has(r.keys[k-1])
	rep.Add("tx_reads", 1)
	if !oneOf(got, has, allowed) {
		rep.Viol(what, "transaction %d reads key %d as %s (has=%v), allowed %v", t, k, show(got), has, allowed)
		return false
	}
	return true
}

// observe compares every layer with the specification.
func (r *stRun) observe(s *stStep, e *stExp) {
	// raw keys
	for k := 1; k <= r.p.Raw; k++ {
		key := r.keys[k-1]
		if got := r.n.root.Get(key); !isGet(got, got != nil, e.Root[k-1]) {
			rep.Viol("root", "root store: key %d is %s, expected %s", k, show(got), showV(e.Root[k-1]))
		}
		var got []byte
		if ent := r.n.mads.GetEntry(key); ent != nil {
			got = ent.Value
		}
		if !isGet(got, got != nil, e.Root[k-1]) {
			rep.Viol("root", "committed state: key %d is %s, expected %s", k, show(got), showV(e.Root[k-1]))
		}
		if r.trunk != nil {
			if got := r.trunk.Get(key); !isGet(got, got != nil, e.Trunk[k-1]) {
				rep.Viol("trunk", "trunk store: key %d is %s, expected %s", k, show(got), showV(e.Trunk[k-1]))
			}
		}
		if r.side != nil {
			if got := r.side.Get(key); !isGet(got, got != nil, e.Side[k-1]) {
				rep.Viol("side", "side trunk store: key %d is %s, expected %s", k, show(got), showV(e.Side[k-1]))
			}
			rep.Add("side_reads", 1)
		}
		rep.Add("raw_reads", 1)
	}
	// keys behind rabbit stores: fresh readers on the root, on the database below its cache, on the trunk
	view := func(b types.BaseStoreI, m []int64, what string) {
		rb := rabbit.NewReadOnlyRabbitStore(b)
		defer rb.Close()
		for k := r.p.Raw + 1; k <= r.p.N; k++ {
			has, got := rb.Has(r.keys[k-1]), rb.Get(r.keys[k-1])
			rep.Add("reads", 1)
			if !isGet(got, has, m[k-1]) {
				rep.Viol(what, "a new reader on the %s: key %d is %s (has=%v), expected %s", what, k, show(got), has, showV(m[k-1]))
				return
			}
		}
	}
	view(r.n.root, e.Root, "root")
	view(noCache{r.n.mads}, e.Root, "committed state")
	if r.trunk != nil {
		view(r.trunk, e.Trunk, "trunk")
	}
	if r.side != nil {
		view(r.side, e.Side, "side trunk")
	}
	// the open transactions; reading pulls a key into the transaction, so only where that cannot matter later
	var all [][][]int64
	must(json.Unmarshal(e.R, &all))
	for t := 1; t <= r.p.Txs; t++ {
		if len(all[t-1]) == 0 || r.tx[t] == nil {
			continue
		}
		for k := r.p.Raw + 1; k <= r.p.N; k++ {
			if s.T == t && s.K == k {
				r.txRead(t, k, all[t-1][k-1], "own write")
			}
		}
	}
}

// noCache reads the database below the root store's cache.
type noCache struct{ m *moeingads.MoeingADS }

func (n noCache) RLock()   {}
func (n noCache) RUnlock() {}
func (n noCache) Get(k []byte) []byte {
	if e := n.m.GetEntry(k); e != nil {
		return e.Value
	}
	return nil
}
func (n noCache) GetAtHeight(k []byte, h uint64) []byte       { panic("not used") }
func (n noCache) PrepareForUpdate(k []byte)                   {}
func (n noCache) PrepareForDeletion(k []byte)                 {}
func (n noCache) Update(f func(db types.SetDeleter))          { panic("not used") }
func (n noCache) ActiveCount() int                            { return 0 }

func (r *stRun) past(s *stStep, e *stExp) {
	var m []int64
	must(json.Unmarshal(e.R, &m))
	b := r.base("root")
	if r.trunk != nil && r.rnd.Intn(2) == 0 {
		b = r.trunk
	}
	for k := 1; k <= r.p.Raw; k++ {
		if got := b.GetAtHeight(r.keys[k-1], uint64(s.H)); !isGet(got, got != nil, m[k-1]) {
			rep.Viol("past", "key %d at height %d is %s, expected %s", k, s.H, show(got), showV(m[k-1]))
		}
	}
	rb := rabbit.NewReadOnlyRabbitStoreAtHeight(b, uint64(s.H))
	for k := r.p.Raw + 1; k <= r.p.N; k++ {
		has, got := rb.Has(r.keys[k-1]), rb.Get(r.keys[k-1])
		if !isGet(got, has, m[k-1]) {
			rep.Viol("past", "key %d at height %d is %s (has=%v), expected %s", k, s.H, show(got), has, showV(m[k-1]))
		}
	}
	rb.Close()
	rep.Add("past_views", 1)
}

// sync applies captured contents to the replica until only keep are left.
func (r *stRun) sync(keep int) {
	for len(r.pend) > keep {
		x := r.pend[0]
		r.pend = r.pend[1:]
		r.r.root.SetHeight(x.h)
		store.SyncUpdateTo(x.m, r.r.root)
		if !bytes.Equal(r.r.root.GetRootHash(), x.hash) {
			rep.Viol("replica", "after block %d the replica's root hash is %x, the original's %x", x.h, r.r.root.GetRootHash(), x.hash)
		}
		rep.Add("replica_blocks", 1)
		if r.rnd.Intn(12) == 0 {
			r.r.root.Close()
			r.r.open()
			rep.Add("replica_reopens", 1)
		}
	}
}
