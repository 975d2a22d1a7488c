package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
)

// readers PLAN TRACE WORK: runs one writer and many readers on the real stores and records
// what happened, for ReadersTrace to judge.
func init() { modes["readers"] = readersMain }

type rdPlan struct {
	Seed    int64  `json:"seed"`
	Raw     int    `json:"raw"`
	Rab     int    `json:"rab"`
	Blocks  int    `json:"blocks"`
	Readers int    `json:"readers"`
	Workers int    `json:"workers"` // goroutines that prepare and run transactions of a block
	PerBlk  int    `json:"perBlk"`
	Filler  int    `json:"filler"` // keys written in every block to make it long
	Hist    bool   `json:"hist"`
	Cache   bool   `json:"cache"`
	Limit   int64  `json:"limit"`
	Procs   int    `json:"procs"`
	Pause   int    `json:"pause"` // microseconds slept inside the write of a block, now and then
	Events  int    `json:"events"`
	OnRoot  bool   `json:"onRoot"` // some blocks are written by a transaction directly on the root
}
type rdEvent struct {
	E    string     `json:"e"`
	R    int        `json:"r,omitempty"`
	K    int        `json:"k,omitempty"`
	V    int64      `json:"v"`
	B    int        `json:"b"`
	H    string     `json:"h,omitempty"`
	Ops  [][2]int64 `json:"ops,omitempty"`
	Hash string     `json:"hash,omitempty"`
}

type rdRun struct {
	p      *rdPlan
	mu     sync.Mutex
	ev     []*rdEvent
	n      stNode
	keys   [][]byte
	filler [][]byte
	full   int32 // enough events
	done   int32 // the writer has finished
	last   int64 // last finished block
	inTx   int32
}

func (r *rdRun) log(e *rdEvent) *rdEvent {
	r.mu.Lock()
	r.ev = append(r.ev, e)
	if len(r.ev) > r.p.Events {
		atomic.StoreInt32(&r.full, 1)
	}
	r.mu.Unlock()
	return e
}

// valueOf turns bytes back into the number of the write; -3 for bytes nobody wrote.
func valueOf(bz []byte, has bool) int64 {
	if bz == nil && !has {
		return -1
	}
	var v int64
	if !has {
		return -4
	}
	if _, err := fmt.Sscanf(string(bz), "v%d.", &v); err != nil || !bytes.Equal(bz, rbValue(v)) {
		return -3
	}
	return v
}

func readersMain(args []string) {
	bz, err := os.ReadFile(args[0])
	must(err)
	var p rdPlan
	must(json.Unmarshal(bz, &p))
	runtime.GOMAXPROCS(p.Procs)
	moeingads.VerifSet("RootCacheSizeLimit", p.Limit)
	moeingads.VerifSet("DefaultHPFileSize", 1<<20)
	moeingads.VerifSet("HPFileBufferSize", 65536)
	r := &rdRun{p: &p, n: stNode{dir: filepath.Join(args[2], "ads"), hist: p.Hist}}
	rnd := rand.New(rand.NewSource(p.Seed))
	for i := 0; i < p.Raw; i++ {
		b := make([]byte, 8)
		rnd.Read(b)
		b[0] = []byte{1, 2, 40, 63, 192, 200, 254}[rnd.Intn(7)]
		b[6] = byte(i)
		r.keys = append(r.keys, b)
	}
	for i := 0; i < p.Rab; i++ {
		b := make([]byte, 20)
		rnd.Read(b)
		r.keys = append(r.keys, b)
	}
	for i := 0; i < p.Filler; i++ {
		b := make([]byte, 8)
		rnd.Read(b)
		b[0] = 10
		b[5], b[6] = byte(i>>8), byte(i)
		r.filler = append(r.filler, b)
	}
	rep.Arm()
	rep.At("opening")
	r.open(rnd.Int63())
	r.mainRun(rnd)
	// everything once more, from a fresh start
	r.n.root.Close()
	r.open(rnd.Int63())
	r.session(1, rnd, true)
	r.n.root.Close()
	f, err := os.Create(args[1])
	must(err)
	enc := json.NewEncoder(f)
	counts := map[string]int64{}
	for _, e := range r.ev {
		must(enc.Encode(e))
		counts[e.E]++
	}
	must(f.Close())
	for k, n := range counts {
		rep.Add("ev_"+k, n)
	}
}

func (r *rdRun) open(seed int64) {
	var err error
	r.n.mads, err = moeingads.NewMoeingADS(r.n.dir, r.n.hist, [][]byte{make([]byte, 8), bytes.Repeat([]byte{255}, 8)})
	must(err)
	var ctr int64
	pause := time.Duration(r.p.Pause) * time.Microsecond
	r.n.root = store.NewRootStore(r.n.mads, func(k []byte) bool {
		// called in the middle of reads and writes: a good place to lose the processor
		c := atomic.AddInt64(&ctr, 1) * 0x9E3779B1
		if c>>5&63 == 0 && pause > 0 {
			time.Sleep(pause)
		} else if c>>5&7 == 0 {
			runtime.Gosched()
		}
		return r.p.Cache && k[6]&1 == 0
	})
}

func (r *rdRun) mainRun(rnd *rand.Rand) {
	first := &rdEvent{E: "head", K: len(r.keys), R: r.p.Readers, Hash: hex.EncodeToString(r.n.root.GetRootHash())}
	r.log(first)
	var wg sync.WaitGroup
	stop := int32(0)
	for i := 1; i <= r.p.Readers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			rr := rand.New(rand.NewSource(r.p.Seed*1000 + int64(id)))
			for atomic.LoadInt32(&stop) == 0 {
				if atomic.LoadInt32(&r.full) == 0 {
					r.session(id, rr, false)
				}
				switch rr.Intn(4) {
				case 0:
					time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
				case 1:
					runtime.Gosched()
				}
			}
		}(i)
	}
	next := int64(0)
	h := int64(0)
	heights := []int64{0}
	for b := 1; b <= r.p.Blocks; b++ {
		rep.At("block %d", b)
		if rnd.Intn(8) == 0 { // a block that is prepared and abandoned
			t := r.n.root.GetTrunkStore(100).(*store.TrunkStore)
			r.fill(t, rnd, &next, b)
			t.Close(false)
		}
		h = int64(b)
		heights = append(heights, h)
		if r.p.OnRoot && rnd.Intn(4) == 0 {
			ops, rb := r.rootTx(rnd, &next)
			r.n.root.SetHeight(h)
			e := r.log(&rdEvent{E: "wb", Ops: ops})
			rb.WriteBack()
			r.log(&rdEvent{E: "wbdone"})
			e.Hash = hex.EncodeToString(r.n.root.GetRootHash())
		} else {
			t := r.n.root.GetTrunkStore(100).(*store.TrunkStore)
			ops := r.fill(t, rnd, &next, b)
			r.n.root.SetHeight(h)
			e := r.log(&rdEvent{E: "wb", Ops: ops})
			if rnd.Intn(2) == 0 {
				t.WriteBack()
				r.log(&rdEvent{E: "wbdone"})
				t.Close(false)
			} else {
				t.Close(true)
				r.log(&rdEvent{E: "wbdone"})
			}
			e.Hash = hex.EncodeToString(r.n.root.GetRootHash()) // only the writer changes it
		}
		atomic.StoreInt64(&r.last, h)
		if rnd.Intn(3) == 0 {
			time.Sleep(time.Duration(rnd.Intn(500)) * time.Microsecond)
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
}

// rootTx runs a transaction directly on the root; returns its merged operations.
func (r *rdRun) rootTx(rnd *rand.Rand, next *int64) (ops [][2]int64, rb *rabbit.RabbitStore) {
	x := rabbit.NewRabbitStore(r.n.root)
	for j := 0; j < 1+rnd.Intn(r.p.PerBlk); j++ {
		k := r.p.Raw + 1 + rnd.Intn(r.p.Rab)
		if rnd.Intn(3) == 0 {
			x.Delete(r.keys[k-1])
			ops = append(ops, [2]int64{int64(k), -1})
		} else {
			*next++
			x.Set(r.keys[k-1], rbValue(*next))
			ops = append(ops, [2]int64{int64(k), *next})
		}
	}
	x.Close()
	return ops, &x
}

// fill runs the transactions of one block on the trunk, with many goroutines.
func (r *rdRun) fill(t *store.TrunkStore, rnd *rand.Rand, next *int64, b int) (ops [][2]int64) {
	P := r.p.Workers
	type job struct {
		k int
		v int64
	}
	// every worker has keys of its own; some workers' transactions are given up
	jobs := make([][]job, P)
	keep := make([]bool, P)
	for i := range keep {
		keep[i] = rnd.Intn(5) != 0
	}
	for j := 0; j < r.p.PerBlk; j++ {
		k := r.p.Raw + 1 + rnd.Intn(r.p.Rab)
		v := int64(-1)
		if rnd.Intn(3) != 0 {
			*next++
			v = *next
		}
		jobs[k%P] = append(jobs[k%P], job{k, v})
	}
	txs := make([]*rabbit.RabbitStore, P)
	var wg sync.WaitGroup
	for w := 0; w < P; w++ {
		rb := rabbit.NewRabbitStore(t)
		txs[w] = &rb
	}
	// keys used directly: each is prepared by several goroutines at once
	var raw []job
	seenRaw := map[int]bool{}
	for j := 0; r.p.Raw > 0 && j < r.p.PerBlk/2+1; j++ {
		k := 1 + rnd.Intn(r.p.Raw)
		if seenRaw[k] {
			continue
		}
		seenRaw[k] = true
		v := int64(-1)
		if rnd.Intn(3) != 0 {
			*next++
			v = *next
		}
		raw = append(raw, job{k, v})
	}
	seed := rnd.Int63()
	for w := 0; w < P; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			wr := rand.New(rand.NewSource(seed + int64(w)))
			mine := map[int]int64{}
			for _, j := range jobs[w] {
				if j.v < 0 {
					txs[w].Delete(r.keys[j.k-1])
				} else {
					txs[w].Set(r.keys[j.k-1], rbValue(j.v))
				}
				mine[j.k] = j.v
				if wr.Intn(3) == 0 {
					if got := txs[w].Get(r.keys[j.k-1]); valueOf(got, got != nil) != mine[j.k] {
						rep.Viol("own write", "block %d: a transaction reads %s instead of its own write %s", b, show(got), showV(mine[j.k]))
					}
				}
			}
			for _, i := range wr.Perm(len(raw)) {
				if wr.Intn(3) == 0 && i%P != w {
					continue
				}
				if raw[i].v < 0 {
					t.PrepareForDeletion(r.keys[raw[i].k-1])
				} else {
					t.PrepareForUpdate(r.keys[raw[i].k-1])
				}
			}
			for i, k := range r.filler {
				if i%P == w || wr.Intn(4) == 0 {
					t.PrepareForUpdate(k)
				}
			}
			txs[w].Close()
		}(w)
	}
	wg.Wait()
	for _, w := range rnd.Perm(P) {
		if !keep[w] {
			continue
		}
		txs[w].WriteBack()
		for _, j := range jobs[w] {
			ops = append(ops, [2]int64{int64(j.k), j.v})
		}
	}
	t.Update(func(db types.SetDeleter) {
		for _, j := range raw {
			if j.v < 0 {
				db.Delete(r.keys[j.k-1])
			} else {
				db.Set(r.keys[j.k-1], rbValue(j.v))
			}
		}
		for i, k := range r.filler {
			db.Set(k, []byte(fmt.Sprintf("filler %d %d", b, i)))
		}
	})
	for _, j := range raw {
		ops = append(ops, [2]int64{int64(j.k), j.v})
	}
	return
}

// session opens a reader of some kind, reads and closes it.
func (r *rdRun) session(id int, rnd *rand.Rand, all bool) {
	kind := rnd.Intn(6)
	if all {
		kind = 1
	}
	last := atomic.LoadInt64(&r.last)
	past := r.p.Hist && kind == 5 && last > 0
	pastH := int64(0)
	if past {
		pastH = rnd.Int63n(last + 1)
		if rnd.Intn(2) == 0 && last > 3 {
			pastH = last - rnd.Int63n(3)
		}
	}
	r.log(&rdEvent{E: "open", R: id})
	var rb rabbit.RabbitStore
	var trunk *store.TrunkStore
	raw := false
	root := r.n.root
	switch kind {
	case 0:
		root.RLock()
		raw = true
	case 1, 2:
		rb = rabbit.NewReadOnlyRabbitStore(root)
	case 3:
		rb = rabbit.NewRabbitStore(root)
	case 4:
		trunk = root.GetReadOnlyTrunkStore(10).(*store.TrunkStore)
		rb = rabbit.NewReadOnlyRabbitStore(trunk)
	case 5:
		if past {
			rb = rabbit.NewReadOnlyRabbitStoreAtHeight(root, uint64(pastH))
		} else {
			rb = rabbit.NewReadOnlyRabbitStore(root)
		}
	}
	r.log(&rdEvent{E: "opened", R: id})
	n := 1 + rnd.Intn(12)
	if rnd.Intn(6) == 0 {
		n = 40
	}
	if all {
		n = len(r.keys)
	}
	for i := 0; i < n; i++ {
		var got []byte
		var has bool
		k := 1 + rnd.Intn(len(r.keys))
		if all {
			k = i + 1
		}
		key := r.keys[k-1]
		switch {
		case past && k <= r.p.Raw:
			got = root.GetAtHeight(key, uint64(pastH))
			has = got != nil
		case k <= r.p.Raw: // used directly: the session holds the read lock
			if trunk != nil {
				got = trunk.Get(key)
			} else {
				got = root.Get(key)
			}
			has = got != nil
		case raw:
			k = 0
		default:
			has, got = rb.Has(key), rb.Get(key)
		}
		if k != 0 {
			if past {
				r.log(&rdEvent{E: "past", R: id, K: k, V: valueOf(got, has), B: int(pastH)})
			} else {
				r.log(&rdEvent{E: "read", R: id, K: k, V: valueOf(got, has)})
			}
		}
		switch rnd.Intn(10) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(rnd.Intn(200)) * time.Microsecond)
		case 2:
			r.log(&rdEvent{E: "hash", R: id, H: hex.EncodeToString(root.GetRootHash())})
		}
	}
	r.log(&rdEvent{E: "close", R: id})
	if raw {
		root.RUnlock()
	} else {
		rb.Close()
	}
	if trunk != nil {
		trunk.Close(false)
	}
}
