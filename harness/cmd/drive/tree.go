package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"

	"verifharness/ref"
)

// tree PLAN EXP WORK: one data tree along a DataTreeReplay behaviour.
func init() { modes["tree"] = treeMain }

type treeStep struct {
	Op                       string
	N, T, Lo, Hi, St, Dummy  int64
	Twin                     string // after the step: "r" recover a copy, "l" load a copy, "" nothing
}

type treePlan struct {
	Seed               int64
	Buffer, Block      int
	Only               []string
	Steps              []treeStep
}

type treeExp struct {
	I    int
	Recs [][]json.RawMessage
	N    int64
	Ev   int64
	Pr   int64
	Tw   []int64
	Runs [][][2]int64
}

type tsnap struct {
	n, ev        int64
	esize, tsize int64
	sh           *ref.Shard
}

type treeRun struct {
	p      *treePlan
	dir    string
	t      *datatree.Tree
	log    []*ref.Rec
	pos    []int64
	sh     *ref.Shard // the commitment's reference
	base   *tsnap     // the last committed boundary
	ev, pr int64
	edge   []byte
	pend   []int64
	rnd    *rand.Rand
	cut    int64 // no record below this position is needed
}

func treeRec(sn int64, seed int64, dummy bool) *ref.Rec {
	if dummy {
		return ref.Dummy(sn, nil)
	}
	k := []byte(fmt.Sprintf("k%d", sn%977))
	return &ref.Rec{Key: k, Val: valBytes((sn*7+seed)%5000+1, 70), Next: append([]byte("n"), k...),
		H: sn*3 + 1, LH: sn - 5, SN: sn}
}

func treeMain(args []string) {
	bz, err := os.ReadFile(args[0])
	must(err)
	p := &treePlan{}
	must(json.Unmarshal(bz, p))
	f, err := os.Open(args[1])
	must(err)
	rd := bufio.NewReaderSize(f, 1<<20)
	r := &treeRun{p: p, dir: filepath.Join(args[2], "tree"), sh: &ref.Shard{}, rnd: rand.New(rand.NewSource(p.Seed))}
	must(os.RemoveAll(r.dir))
	must(os.MkdirAll(r.dir, 0755))
	rep.only = map[string]bool{}
	for _, k := range p.Only {
		rep.only[k] = true
	}
	rep.Arm()
	rep.At("new tree")
	r.t = datatree.NewEmptyTree(p.Buffer, p.Block, r.dir, "")
	for i := range p.Steps {
		line, err := rd.ReadBytes('\n')
		if err != nil && err != io.EOF {
			must(err)
		}
		var s string
		must(json.Unmarshal(line, &s))
		var e treeExp
		must(json.Unmarshal([]byte(s), &e))
		if e.I != i+1 {
			must(fmt.Errorf("expectation %d for step %d", e.I, i+1))
		}
		st := &p.Steps[i]
		rep.At("step %d %s n=%d t=%d", i+1, st.Op, st.N, st.T)
		r.step(st, &e)
		if rep.nviol > 0 {
			return
		}
	}
	r.t.Close()
}

// addRef puts a record expected by the specification into the reference.
func (r *treeRun) addRef(raw []json.RawMessage, seed int64) *ref.Rec {
	var sn, src, dummy int64
	var dead []int64
	must(json.Unmarshal(raw[0], &sn))
	must(json.Unmarshal(raw[1], &src))
	must(json.Unmarshal(raw[2], &dummy))
	must(json.Unmarshal(raw[3], &dead))
	var rc *ref.Rec
	if src >= 0 {
		c := *r.log[src]
		c.SN = sn
		rc = &c
	} else {
		rc = treeRec(sn, r.p.Seed+seed, dummy == 1)
	}
	rc.Deact = dead
	if sn != int64(len(r.log)) {
		must(fmt.Errorf("record %d is not the next one (%d)", sn, len(r.log)))
	}
	r.log = append(r.log, rc)
	r.sh.AppendBytes(ref.Encode(rc))
	r.sh.SetActive(sn, dummy == 0)
	return rc
}

func (r *treeRun) append(rc *ref.Rec) {
	var pos int64
	if string(rc.Key) == "dummy" {
		pos = r.t.AppendEntry(datatree.DummyEntry(rc.SN))
	} else {
		pos = r.t.AppendEntry(&types.Entry{Key: rc.Key, Value: rc.Val, NextKey: rc.Next, Height: rc.H, LastHeight: rc.LH, SerialNum: rc.SN})
	}
	r.pos = append(r.pos, pos)
}

func (r *treeRun) step(st *treeStep, e *treeExp) {
	switch st.Op {
	case "app":
		for _, raw := range e.Recs {
			r.append(r.addRef(raw, 0))
		}
		rep.Add("tree_records", int64(len(e.Recs)))
	case "kill":
		// the expectation lists the dummies; what they carry is deactivated just before
		tw := st.T
		var list []int64
		for f := st.Lo; f <= st.Hi; f += st.St {
			if sn := tw*ref.TwigSize + f; sn < r.sh.Max && r.sh.Active(sn) {
				list = append(list, sn)
			}
		}
		j := 0
		cnt := int64(r.t.DeactivedSNListSize())
		for _, sn := range list {
			c := int64(r.t.DeactiviateEntry(sn))
			r.sh.SetActive(sn, false)
			cnt++
			if c != cnt {
				rep.Viol("deactivate", "the list of deactivated records has %d entries, want %d", c, cnt)
				return
			}
			if c >= st.N {
				if j >= len(e.Recs) {
					must(fmt.Errorf("kill: no dummy expected"))
				}
				r.append(r.addRef(e.Recs[j], 0))
				j++
				cnt = 0
			}
		}
		if j != len(e.Recs) {
			must(fmt.Errorf("kill: %d dummies, expected %d", j, len(e.Recs)))
		}
		rep.Add("tree_deactivations", int64(len(list)))
	case "move":
		j := 0
		for bz := range r.t.GetActiveEntriesInTwig(st.T) {
			if j >= len(e.Recs) {
				rep.Viol("active-entries", "twig %d yields more than its %d active records", st.T, len(e.Recs))
				return
			}
			sn := datatree.ExtractSerialNum(bz)
			if sn < 0 || sn >= r.sh.Max || sn/ref.TwigSize != st.T {
				rep.Viol("active-entries", "twig %d yields record %d", st.T, sn)
				return
			}
			rc := r.addRef(e.Recs[j], 0)
			r.t.DeactiviateEntry(sn)
			r.sh.SetActive(sn, false)
			datatree.UpdateSerialNum(bz, rc.SN)
			r.pos = append(r.pos, r.t.AppendEntryRawBytes(bz, rc.SN))
			j++
		}
		if j != len(e.Recs) {
			rep.Viol("active-entries", "twig %d yields %d active records, want %d", st.T, j, len(e.Recs))
			return
		}
		rep.Add("tree_moved", int64(j))
	case "end":
		for k := int64(0); k < st.N; k++ {
			r.t.EvictTwig(r.ev + k)
			rep.Add("tree_evictions", 1)
		}
		root := r.t.EndBlock()
		r.flags(e)
		r.ev, r.pr = e.Ev, e.Pr
		if want := r.sh.Root(); ref.H(root) != want {
			rep.Viol("root", "EndBlock returns %x, want %x", root[:6], want[:6])
		}
		if st.T == 1 {
			r.commit()
		}
		r.check(r.t, "memory")
		rep.Add("tree_blocks", 1)
	case "prune":
		r.edge = append([]byte{}, r.t.PruneTwigs(r.pr, st.N)...)
		r.flags(e)
		r.pr = e.Pr
		r.cut = r.pos[r.pr*ref.TwigSize]
		r.check(r.t, "pruned")
		rep.Add("tree_prunes", 1)
	case "recover":
		r.t.WaitForFlushing()
		r.t.Close()
		r.flags(e)
		r.t = r.recovered(r.dir)
		rep.Add("tree_recoveries", 1)
	case "load":
		r.t.WaitForFlushing()
		r.t.SaveMemToDisk()
		r.t.Close()
		r.t = datatree.LoadTree(r.p.Buffer, r.p.Block, r.dir)
		r.flags(e)
		r.check(r.t, "loaded")
		rep.Add("tree_loads", 1)
	case "back":
		if r.rnd.Intn(3) > 0 {
			r.t.EndBlock() // the block was flushed but never committed
			r.t.WaitForFlushing()
		}
		r.t.Close()
		b := r.base
		r.log, r.pos = r.log[:b.n], r.pos[:b.n]
		r.sh = b.sh.Clone()
		r.flags(e)
		r.ev, r.pr = e.Ev, e.Pr
		r.t = r.recovered(r.dir)
		rep.Add("tree_rollbacks", 1)
	}
	if rep.nviol > 0 || st.Twin == "" {
		return
	}
	r.t.WaitForFlushing()
	for _, c := range st.Twin {
		dst := r.dir + "-twin"
		must(os.RemoveAll(dst))
		rep.At("twin %c", c)
		if c == 'l' || c == 'd' {
			r.t.SaveMemToDisk()
		}
		copyTree(r.dir, dst)
		if c == 'd' {
			r.damagedLoads(dst)
			must(os.RemoveAll(dst))
			continue
		}
		var t *datatree.Tree
		if c == 'r' {
			t = r.recovered(dst)
		} else {
			t = datatree.LoadTree(r.p.Buffer, r.p.Block, dst)
			r.check(t, "loaded copy")
		}
		t.Close()
		must(os.RemoveAll(dst))
		rep.Add("tree_twins_"+string(c), 1)
	}
}

// damagedLoads alters one saved file at a time; loading must refuse each.
func (r *treeRun) damagedLoads(dst string) {
	for _, name := range []string{"twigs.dat", "nodes.dat", "mtree4YT.dat"} {
		path := filepath.Join(dst, name)
		good, err := os.ReadFile(path)
		must(err)
		unit := map[string]int{"twigs.dat": 8 + 8 + 256 + 7*32 + 64 + 4, "nodes.dat": 44, "mtree4YT.dat": len(good)}[name]
		if unit == 0 || len(good)%unit != 0 {
			must(fmt.Errorf("%s has %d bytes, not a multiple of %d", name, len(good), unit))
		}
		for j := 0; j < 6 && len(good) > 0; j++ {
			b := append([]byte{}, good...)
			what := ""
			o := r.rnd.Intn(len(b))
			switch j {
			case 0: // in the check of an entry
				o = o/unit*unit + unit - 1 - r.rnd.Intn(4)
				b[o] ^= 1 << uint(r.rnd.Intn(8))
				what = fmt.Sprintf("byte %d", o)
			case 1, 2, 3:
				b[o] ^= 1 << uint(r.rnd.Intn(8))
				what = fmt.Sprintf("byte %d", o)
			case 4: // in the head of the last entry
				o = len(b) - unit + r.rnd.Intn(16)
				b[o]++
				what = fmt.Sprintf("byte %d", o)
			case 5: // the last entry is not whole
				o = len(b) - 1 - r.rnd.Intn(unit-1)
				for o > len(b)-unit+1 && b[o] == 0 { // a reader that fills up with zeros loses nothing
					o--
				}
				b = b[:o]
				what = fmt.Sprintf("cut at %d", o)
			}
			must(os.WriteFile(path, b, 0644))
			loaded := false
			func() {
				defer func() { recover() }()
				t := datatree.LoadTree(r.p.Buffer, r.p.Block, dst)
				loaded = true
				t.Close()
			}()
			rep.Add("checkpoints_altered", 1)
			if loaded {
				rep.Viol("checkpoint", "%s (%d bytes) altered (%s): the tree was loaded", name, len(good), what)
				return
			}
		}
		must(os.WriteFile(path, good, 0644))
	}
	t := datatree.LoadTree(r.p.Buffer, r.p.Block, dst)
	r.check(t, "loaded copy")
	t.Close()
}

func copyTree(src, dst string) {
	must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		bz, err := os.ReadFile(p)
		must(err)
		return os.WriteFile(filepath.Join(dst, rel), bz, 0644)
	}))
}

func (r *treeRun) recovered(dir string) *datatree.Tree {
	var edges []*datatree.EdgeNode
	if len(r.edge) > 0 {
		edges = datatree.BytesToEdgeNodes(r.edge)
	}
	last := r.pr
	if last == 0 && r.rnd.Intn(2) == 0 {
		last = -1
	}
	t, root := datatree.RecoverTree(r.p.Buffer, r.p.Block, dir, "", edges, last, r.ev, r.sh.Max/ref.TwigSize,
		[]int64{r.base.esize, r.base.tsize})
	if want := r.sh.Root(); ref.H(root) != want {
		rep.Viol("root", "RecoverTree returns root %x, want %x", root[:6], want[:6])
	}
	r.check(t, "recovered")
	return t
}

// flags sets the activity of the twigs the specification lists.
func (r *treeRun) flags(e *treeExp) {
	if r.base != nil { // others are as at the last boundary
		for t := range r.base.sh.Bits {
			copy(r.sh.Bits[t], r.base.sh.Bits[t])
		}
		for t := len(r.base.sh.Bits); t < len(r.sh.Bits); t++ {
			copy(r.sh.Bits[t], make([]byte, 256))
		}
	}
	for j, t := range e.Tw {
		copy(r.sh.Bits[t], make([]byte, 256))
		for _, ab := range e.Runs[j] {
			for s := ab[0]; s <= ab[1]; s++ {
				r.sh.SetActive(s, true)
			}
		}
	}
	if e.N != r.sh.Max {
		must(fmt.Errorf("spec has %d records, reference %d", e.N, r.sh.Max))
	}
}

func (r *treeRun) commit() {
	a, b := r.t.GetFileSizes()
	if b != (r.sh.Max/ref.TwigSize)*datatree.TwigMtSize {
		rep.Viol("size", "the twig file has %d bytes for %d full twigs", b, r.sh.Max/ref.TwigSize)
	}
	r.base = &tsnap{n: r.sh.Max, ev: r.ev, esize: a, tsize: b, sh: r.sh.Clone()}
}

// check compares everything observable of a tree at a boundary.
func (r *treeRun) check(t *datatree.Tree, who string) {
	t.WaitForFlushing()
	rep.At("%s tree", who)
	n, y := r.sh.Max, r.sh.Max/ref.TwigSize
	if a, b := t.GetFileSizes(); r.base.n == n && (a != r.base.esize || b != r.base.tsize) {
		rep.Viol("size", "%s tree: file sizes %d %d, want %d %d", who, a, b, r.base.esize, r.base.tsize)
	}
	if s := t.DeactivedSNListSize(); s != 0 {
		rep.Viol("deactivate", "%s tree: %d deactivations pending at a boundary", who, s)
	}
	for tw := int64(0); tw <= y; tw++ {
		if got := t.TwigCanBePruned(tw); got != (tw < r.ev) {
			rep.Viol("evicted", "%s tree: twig %d evicted: %v, want %v", who, tw, got, tw < r.ev)
			return
		}
	}
	for sn := r.ev * ref.TwigSize; sn < n; sn++ {
		if t.GetActiveBit(sn) != r.sh.Active(sn) {
			rep.Viol("active", "%s tree: record %d active: %v, want %v", who, sn, !r.sh.Active(sn), r.sh.Active(sn))
			return
		}
	}
	rep.Add("tree_flags", n-r.ev*ref.TwigSize)
	root := r.sh.Root()
	offs := []int64{0, 1, 255, 256, 511, 512, 1023, 1024, 2046, 2047, r.rnd.Int63n(2048), r.rnd.Int63n(2048)}
	for tw := r.pr; tw <= y; tw++ {
		for _, o := range offs {
			if sn := tw*ref.TwigSize + o; sn < n && (r.rnd.Intn(3) == 0 || sn == n-1) {
				r.proof(t, who, sn, root)
				if rep.nviol > 0 {
					return
				}
			}
		}
	}
	// records, by position and in order
	for k := 0; k < 40; k++ {
		sn := r.pr*ref.TwigSize + r.rnd.Int63n(n-r.pr*ref.TwigSize)
		e := t.ReadEntry(r.pos[sn])
		w := r.log[sn]
		if e == nil || !bytes.Equal(e.Key, w.Key) || !bytes.Equal(e.Value, w.Val) || !bytes.Equal(e.NextKey, w.Next) ||
			e.Height != w.H || e.LastHeight != w.LH || e.SerialNum != sn {
			rep.Viol("record", "%s tree: record %d reads %s", who, sn, entStr(e))
			return
		}
		if bz := t.ReadEntryBytesForProof(r.pos[sn]); !bytes.Equal(bz, ref.Encode(w)) {
			rep.Viol("record", "%s tree: record %d has other bytes", who, sn)
			return
		}
	}
	if r.rnd.Intn(3) == 0 {
		r.scan(t, who)
	}
	if y > r.ev && r.rnd.Intn(2) == 0 {
		tw := r.ev + r.rnd.Int63n(y-r.ev)
		sn := tw * ref.TwigSize
		next := func() bool {
			for sn < (tw+1)*ref.TwigSize && !r.sh.Active(sn) {
				sn++
			}
			return sn < (tw+1)*ref.TwigSize
		}
		for bz := range t.GetActiveEntriesInTwig(tw) {
			if !next() || !bytes.Equal(bz, rawEntry(r.log[sn])) {
				rep.Viol("active-entries", "%s tree: twig %d yields an unexpected record near %d", who, tw, sn)
				return
			}
			sn++
		}
		if next() {
			rep.Viol("active-entries", "%s tree: twig %d does not yield record %d", who, tw, sn)
		}
	}
}

// rawEntry: the record's bytes without the list of deactivated records.
func rawEntry(w *ref.Rec) []byte {
	bz := ref.Encode(w)
	return bz[:len(bz)-8*len(w.Deact)]
}

func (r *treeRun) scan(t *datatree.Tree, who string) {
	ch := make(chan types.KeyAndPos, 100)
	go t.ScanEntriesLite(r.ev, ch)
	sn := r.ev * ref.TwigSize
	for k := range ch {
		if sn >= r.sh.Max || k.SerialNum != sn || k.Pos != r.pos[sn] || !bytes.Equal(k.Key, r.log[sn].Key) {
			rep.Viol("scan", "%s tree: scanning yields (%q, %d, %d) where record %d is due", who, k.Key, k.Pos, k.SerialNum, sn)
			return
		}
		sn++
	}
	if sn != r.sh.Max {
		rep.Viol("scan", "%s tree: scanning ends before record %d", who, sn)
	}
	rep.Add("tree_scans", 1)
}

func (r *treeRun) proof(t *datatree.Tree, who string, sn int64, root ref.H) {
	rep.Add("tree_proofs", 1)
	bad := func(f string, a ...interface{}) {
		rep.Viol("proof", "%s tree, record %d of %d (evicted < %d, pruned < %d): %s", who, sn, r.sh.Max, r.ev, r.pr, fmt.Sprintf(f, a...))
	}
	pp := t.GetProof(sn)
	if pp == nil {
		bad("none")
		return
	}
	if err := pp.Check(false); err != nil {
		bad("%v", err)
		return
	}
	bz := pp.ToBytes()
	want := ref.Encode(r.log[sn])
	if !verify(want, bz, root) {
		bad("the serialised proof does not verify against the root")
		return
	}
	if int64(binary.LittleEndian.Uint64(bz[:8])) != sn {
		bad("serial number")
	}
	off := sn % ref.TwigSize
	w := off / 256 * 32
	if !bytes.Equal(pp.RightOfTwig[0].SelfHash[:], r.sh.Bits[sn/ref.TwigSize][w:w+32]) {
		bad("activity bits")
	}
	out, err := t.GetProofBytesAndCheck(sn, want)
	if err != nil || !bytes.Equal(out, bz) {
		bad("GetProofBytesAndCheck: %v", err)
	}
	other := append([]byte{}, want...)
	other[len(other)-1] ^= 1
	if _, err = t.GetProofBytesAndCheck(sn, other); err == nil {
		bad("GetProofBytesAndCheck accepts other record bytes")
	}
}
