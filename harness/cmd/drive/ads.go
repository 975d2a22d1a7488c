package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/metadb"

	"github.com/tecbot/gorocksdb"

	"verifharness/ref"
)

func init() {
	modes["ads"] = adsMain
	modes["caps"] = capsMain
}

var knobs = []string{"DefaultHPFileSize", "StartReapThres", "HPFileBufferSize", "RootCacheSizeLimit", "MinKeptTwigs"}

// caps: which tuning constants can be set
func capsMain(args []string) {
	res := map[string]bool{}
	defaults := map[string]int64{"DefaultHPFileSize": 65536, "HPFileBufferSize": 4096}
	for _, k := range knobs {
		v := defaults[k]
		if v == 0 {
			v = 1
		}
		res[k] = moeingads.VerifSet(k, v)
	}
	bz, _ := json.Marshal(res)
	must(os.WriteFile(args[0], bz, 0644))
}

type Plan struct {
	N       int              `json:"n"`
	Keys    []string         `json:"keys"` // hex, keys[0] is key 1
	Knobs   map[string]int64 `json:"knobs"`
	Compare []string         `json:"compare"`
	Arm     string           `json:"arm"` // step kind that arms the reports ("" = at once)
	Seed    int64            `json:"seed"`
	History bool             `json:"history"`
	MaxVal  int              `json:"maxVal"`
	HOff    int64            `json:"hOff"`   // added to every height >= 1 (the model keeps small numbers)
	Proofs  int              `json:"proofs"` // keys per block whose proofs are checked
	Steps   []Step           `json:"steps"`
}

type Step struct {
	Op   string     `json:"op"`
	H    int64      `json:"h"`
	Ops  [][2]int   `json:"ops"`
	Prep [][2]int   `json:"prep"` // extra prepares: [key, 0 update | 1 deletion]
	Par  int        `json:"par"`
	Dup  int        `json:"dup"` // every key is prepared so many more times, by other goroutines
	Q    [][2]int64 `json:"q"`
	KVC  bool       `json:"kvc"` // reopen: compact the key-value engine in between
	Hist *bool      `json:"hist"` // reopen with this history mode
}

type Exp struct {
	I    int             `json:"i"`
	H    int64           `json:"h"`
	Live [][6]int64      `json:"live"`
	App  [8][]AppRec     `json:"app"`
	Max  [8]int64        `json:"max"`
	Old  [8]int64        `json:"old"`
	Lp   [8]int64        `json:"lp"`
	X    json.RawMessage `json:"x"`
}

type AppRec struct {
	SN, Key, Val, Next, H, LH int64
	D                         []int64
}

func (a *AppRec) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	for i, p := range []*int64{&a.SN, &a.Key, &a.Val, &a.Next, &a.H, &a.LH} {
		if err := json.Unmarshal(raw[i], p); err != nil {
			return err
		}
	}
	return json.Unmarshal(raw[6], &a.D)
}

// readExp reads the file written by the replay specification (one JSON string per line).
func readExp(path string) []Exp {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var res []Exp
	for sc.Scan() {
		var s string
		must(json.Unmarshal(sc.Bytes(), &s))
		var e Exp
		must(json.Unmarshal([]byte(s), &e))
		if e.I == len(res) {
			res = append(res, e)
		}
	}
	must(sc.Err())
	return res
}

var startKey = []byte{0, 0, 0, 0, 0, 0, 0, 0}
var endKey = []byte{255, 255, 255, 255, 255, 255, 255, 255}

var magicBytes = []byte{255, 254, 253, 252, 252, 253, 254, 255}

// valBytes gives the bytes of abstract value v: distinct for distinct v, of varying size,
// some with embedded marker bytes; v = 0 is the empty value.
func valBytes(v int64, maxVal int) []byte {
	if v == 0 {
		return []byte{}
	}
	var b []byte
	b = append(b, byte(v), byte(v>>8), byte(v>>16))
	switch v % 11 {
	case 1:
		b = append(b, magicBytes...)
	case 2:
		b = append(append(append([]byte{}, magicBytes...), magicBytes...), b...)
	case 3:
		b = append(b, magicBytes[:7]...)
		b = append(b, magicBytes...)
	case 4:
		for len(b) < int(v%97)*3 {
			b = append(b, byte(len(b)))
		}
	case 5:
		for len(b) < maxVal {
			b = append(b, byte(v), byte(len(b)))
		}
		b = b[:maxVal]
	case 6:
		b = append(b, 0, 0, 0, 0)
	case 7:
		for len(b) < 200+int(v%50) {
			b = append(b, magicBytes...)
			b = append(b, byte(v))
		}
	}
	if len(b) > maxVal && maxVal > 3 {
		b = b[:maxVal]
	}
	return b
}

type adsRun struct {
	p       *Plan
	dir     string
	mads    *moeingads.MoeingADS
	keys    [][]byte // index 0..N+1
	sh      [8]*ref.Shard
	poss    [8][]int64                   // position of the first record of each twig
	curPos  [8]int64                     // next record's file position
	act     map[int64]*AppRec            // key -> active record (fully expanded)
	cmp     map[string]bool
	rnd     *rand.Rand
	history bool
	recs    [8]map[int64]*AppRec // sn -> record of live keys
	idxAt   map[int64][]int64 // key -> heights at which its index entry was (re)written
	ph      int64             // largest prune height so far (-1: none)
	maxH    int64
}

func (r *adsRun) rec(a *AppRec) *ref.Rec {
	if a.Key < 0 {
		return ref.Dummy(a.SN, a.D)
	}
	return &ref.Rec{Key: r.keys[a.Key], Val: valBytes(a.Val, r.p.MaxVal), Next: r.keys[a.Next],
		H: a.H, LH: a.LH, SN: a.SN, Deact: a.D}
}

func (r *adsRun) appendRef(s int, rc *ref.Rec) {
	bz := ref.Encode(rc)
	if rc.SN%ref.TwigSize == 0 {
		r.poss[s] = append(r.poss[s], r.curPos[s])
	}
	n := int64(8 + len(bz))
	n = (n + 7) / 8 * 8
	r.curPos[s] += n
	r.sh[s].AppendBytes(bz)
	if !bytes.Equal(rc.Key, []byte("dummy")) {
		r.sh[s].SetActive(rc.SN, true)
	}
	for _, sn := range rc.Deact {
		r.sh[s].SetActive(sn, false)
	}
}

func newAdsRun(p *Plan, dir string) *adsRun {
	r := &adsRun{p: p, dir: dir, cmp: map[string]bool{}, ph: -1, idxAt: map[int64][]int64{}, rnd: rand.New(rand.NewSource(p.Seed)), history: p.History}
	r.keys = append(r.keys, startKey)
	for _, k := range p.Keys {
		bz, err := hex.DecodeString(k)
		must(err)
		r.keys = append(r.keys, bz)
	}
	r.keys = append(r.keys, endKey)
	for _, c := range p.Compare {
		r.cmp[c] = true
	}
	for s := range r.sh {
		r.sh[s] = &ref.Shard{}
		r.recs[s] = map[int64]*AppRec{}
		for sn := int64(0); sn < ref.TwigSize; sn++ {
			r.appendRef(s, ref.Dummy(sn, nil))
		}
	}
	return r
}

// apply advances the reference (log, flags, live records) by one expected step.
func (r *adsRun) apply(e *Exp) {
	for s := range e.App {
		for j := range e.App[s] {
			a := &e.App[s][j]
			r.appendRef(s, r.rec(a))
			if a.Key >= 0 {
				r.recs[s][a.SN] = a
				r.idxAt[a.Key] = append(r.idxAt[a.Key], e.H)
			}
			for _, sn := range a.D {
				delete(r.recs[s], sn)
			}
		}
	}
}

func setKnobs(k map[string]int64) {
	for n, v := range k {
		if !moeingads.VerifSet(n, v) {
			must(fmt.Errorf("cannot set %s", n))
		}
	}
}

func (r *adsRun) open() {
	m, err := moeingads.NewMoeingADS(r.dir, r.history, [][]byte{startKey, endKey})
	if err != nil {
		rep.Viol("open", "NewMoeingADS: %v", err)
		rep.Finish()
	}
	r.mads = m
}

func shardOf(k []byte) int {
	if len(k) != 8 {
		return 0
	}
	return int(k[7]) / 32
}

func (r *adsRun) block(st *Step) {
	m := r.mads
	type pr struct {
		k   []byte
		del bool
	}
	var preps []pr
	seen := map[[2]int]bool{}
	addP := func(k, d int) {
		if !seen[[2]int{k, d}] {
			seen[[2]int{k, d}] = true
			preps = append(preps, pr{r.keys[k], d == 1})
		}
	}
	for _, o := range st.Ops {
		if o[1] >= 0 {
			addP(o[0], 0)
		} else {
			addP(o[0], 1)
		}
	}
	for _, x := range st.Prep {
		addP(x[0], x[1])
	}
	for n := len(preps) * st.Dup; n > 0; n-- {
		preps = append(preps, preps[r.rnd.Intn(len(preps))])
	}
	r.rnd.Shuffle(len(preps), func(i, j int) { preps[i], preps[j] = preps[j], preps[i] })
	par := st.Par
	if par < 1 {
		par = 1
	}
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(preps); i += par {
				if preps[i].del {
					m.PrepareForDeletion(preps[i].k)
				} else {
					m.PrepareForUpdate(preps[i].k)
				}
			}
		}(w)
	}
	wg.Wait()
	m.BeginWrite(st.H)
	do := func(o [2]int) {
		if o[1] >= 0 {
			v := valBytes(int64(o[1]), r.p.MaxVal)
			if o[1] == 0 && (int64(o[0])+st.H)%3 != 0 {
				v = nil // the same value for the user
			}
			m.Set(r.keys[o[0]], v)
		} else {
			m.Delete(r.keys[o[0]])
		}
	}
	if par == 1 {
		for _, o := range st.Ops {
			do(o)
		}
	} else {
		for s := 0; s < 8; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				for _, o := range st.Ops {
					if shardOf(r.keys[o[0]]) == s {
						do(o)
					}
				}
			}(s)
		}
		wg.Wait()
	}
	m.EndWrite()
}

func (r *adsRun) roots() (res [8]ref.H) {
	var wg sync.WaitGroup
	for s := range r.sh {
		wg.Add(1)
		go func(s int) { res[s] = r.sh[s].Root(); wg.Done() }(s)
	}
	wg.Wait()
	return
}

func hx(b []byte) string {
	if b == nil {
		return "nil"
	}
	s := hex.EncodeToString(b)
	if len(s) > 80 {
		s = s[:80] + "..(" + strconv.Itoa(len(b)) + "B)"
	}
	return s
}

func entStr(e *moeingads.Entry) string {
	if e == nil {
		return "nil"
	}
	return fmt.Sprintf("{key %s val %s next %s h %d lh %d sn %d}", hx(e.Key), hx(e.Value), hx(e.NextKey), e.Height, e.LastHeight, e.SerialNum)
}

// check compares everything observable with the expectation.
func (r *adsRun) check(e *Exp) {
	m := r.mads
	live := map[int64]*[6]int64{}
	for j := range e.Live {
		live[e.Live[j][0]] = &e.Live[j]
	}
	n := int64(r.p.N)
	if r.cmp["rec"] || r.cmp["chain"] {
		for k := int64(0); k <= n+1; k++ {
			got := m.GetEntry(r.keys[k])
			want := live[k]
			rep.Add("records_compared", 1)
			if want == nil {
				if got != nil && r.cmp["rec"] {
					rep.Viol("record", "key %d (%s): want absent, got %s", k, hx(r.keys[k]), entStr(got))
				}
				continue
			}
			if got == nil {
				rep.Viol("record", "key %d (%s): want %v, got nothing", k, hx(r.keys[k]), *want)
				continue
			}
			if !bytes.Equal(got.Key, r.keys[k]) {
				rep.Viol("record", "key %d: record has key %s", k, hx(got.Key))
			}
			if r.cmp["rec"] && k >= 1 && k <= n {
				if !bytes.Equal(got.Value, valBytes(want[1], r.p.MaxVal)) {
					rep.Viol("value", "key %d: want %s, got %s", k, hx(valBytes(want[1], r.p.MaxVal)), entStr(got))
				}
				if got.Height != want[3] || got.LastHeight != want[4] {
					rep.Viol("heights", "key %d: want h %d lh %d, got %s", k, want[3], want[4], entStr(got))
				}
			}
			if r.cmp["chain"] && !bytes.Equal(got.NextKey, r.keys[want[2]]) {
				rep.Viol("nextkey", "key %d: want next %s, got %s", k, hx(r.keys[want[2]]), entStr(got))
			}
			if r.cmp["sn"] && got.SerialNum != want[5] {
				rep.Viol("serial", "key %d: want sn %d, got %s", k, want[5], entStr(got))
			}
		}
	}
	if r.cmp["chain"] {
		if r.rnd.Intn(8) == 0 {
			m.CheckConsistency() // panics when it finds the chain broken
			rep.Add("own_chain_checks", 1)
		}
		if c := m.ActiveCount(); c != len(live) {
			rep.Viol("activecount", "want %d, got %d", len(live), c)
		}
		// walk the chain through the records themselves
		cur, steps := startKey, 0
		var walked []string
		for !bytes.Equal(cur, endKey) && steps <= len(live)+2 {
			en := m.GetEntry(cur)
			if en == nil {
				rep.Viol("chain", "chain from start key reaches %s, which has no record", hx(cur))
				break
			}
			if bytes.Compare(en.NextKey, cur) <= 0 {
				rep.Viol("chain", "next key %s of %s is not larger", hx(en.NextKey), hx(cur))
				break
			}
			cur = en.NextKey
			walked = append(walked, string(cur))
			steps++
		}
		var want []string
		for j := range e.Live {
			if e.Live[j][0] != 0 {
				want = append(want, string(r.keys[e.Live[j][0]]))
			}
		}
		if strings.Join(walked, "") != strings.Join(want, "") {
			rep.Viol("chain", "walking next keys gives %d keys, want %d (%s)", len(walked), len(want), firstDiff(walked, want))
		}
		// ordered scan: live keys in descending order with their values
		var got []string
		bad := ""
		m.ScanAll(func(k, v []byte) {
			got = append(got, string(k))
			for j := range e.Live {
				if bytes.Equal(r.keys[e.Live[j][0]], k) && !bytes.Equal(v, valBytes(e.Live[j][1], r.p.MaxVal)) {
					bad = hx(k)
				}
			}
		})
		for i, j := 0, len(got)-1; i < j; i, j = i+1, j-1 {
			got[i], got[j] = got[j], got[i]
		}
		if len(want) > 0 && strings.Join(got, "") != strings.Join(want[:len(want)-1], "") {
			rep.Viol("scan", "ScanAll gives %d keys, want %d (%s)", len(got), len(want)-1, firstDiff(got, want))
		}
		if bad != "" && r.cmp["rec"] {
			rep.Viol("scan", "ScanAll gives a wrong value for key %s", bad)
		}
		rep.Add("scans", 1)
	}
	if r.cmp["height"] {
		if h := m.GetCurrHeight(); h != e.H {
			rep.Viol("height", "GetCurrHeight: want %d, got %d", e.H, h)
		}
	}
	var roots [8]ref.H
	if r.cmp["root"] || r.cmp["proof"] {
		roots = r.roots()
	}
	if r.cmp["root"] && r.rnd.Intn(12) == 0 {
		m.CheckHashConsistency() // panics when a node kept in memory does not hash its children
		rep.Add("own_hash_checks", 1)
	}
	if r.cmp["root"] {
		want := ref.Combine(roots)
		got := m.GetRootHash()
		rep.Add("roots_compared", 1)
		if !bytes.Equal(got, want[:]) {
			rep.Viol("root", "root hash after height %d: want %s, got %s", e.H, hx(want[:]), hx(got))
		}
	}
	if r.cmp["proof"] {
		r.checkProofs(e, roots)
	}
	if r.cmp["active"] {
		r.checkActive(e)
	}
	if r.cmp["meta"] {
		if md := liveMeta(m); md != nil {
			r.compareMeta(md, e, "current")
			rep.Add("live_meta_compared", 1)
		}
	}
}

// checkActive compares the activity flags around live records, as their proofs show them.
func (r *adsRun) checkActive(e *Exp) {
	js := r.rnd.Perm(len(e.Live))
	if len(js) > 24 {
		js = js[:24]
	}
	for _, j := range js {
		k, sn := e.Live[j][0], e.Live[j][5]
		_, proofBz, err := r.mads.GetProof(r.keys[k])
		if err != nil {
			rep.Viol("active", "key %d is live but has no proof: %v", k, err)
			continue
		}
		pp, err := datatree.BytesToProofPath(proofBz)
		if err != nil {
			rep.Viol("active", "key %d: %v", k, err)
			continue
		}
		rep.Add("activity_fields_compared", 1)
		s, o := shardOf(r.keys[k]), sn%ref.TwigSize
		want := r.sh[s].Bits[sn/ref.TwigSize][o/256*32 : o/256*32+32]
		if !bytes.Equal(pp.RightOfTwig[0].SelfHash[:], want) {
			rep.Viol("active", "shard %d serial numbers %d..%d: activity flags %x, want %x", s, sn/256*256, sn/256*256+255,
				pp.RightOfTwig[0].SelfHash[:], want)
		}
	}
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "-", "-"
		if i < len(a) {
			x = hx([]byte(a[i]))
		}
		if i < len(b) {
			y = hx([]byte(b[i]))
		}
		if x != y {
			return fmt.Sprintf("first difference at %d: got %s, want %s", i, x, y)
		}
	}
	return "equal"
}

// verify is what a user who trusts only the root does with a serialised proof.
func verify(recBz, proofBz []byte, root ref.H) bool {
	pp, err := datatree.BytesToProofPath(proofBz)
	if err != nil {
		return false
	}
	if pp.Root != root || pp.LeftOfTwig[0].SelfHash != sha256.Sum256(recBz) {
		return false
	}
	return pp.Check(true) == nil
}

func (r *adsRun) checkProofs(e *Exp, roots [8]ref.H) {
	m := r.mads
	n := r.p.N
	live := map[int64]*[6]int64{}
	for j := range e.Live {
		live[e.Live[j][0]] = &e.Live[j]
	}
	cand := r.rnd.Perm(n + 2)
	if r.p.Proofs < len(cand) && r.p.Proofs > 0 {
		cand = cand[:r.p.Proofs]
	}
	// one shard and one key also gets the alteration treatment
	mutated := 0
	for _, k := range cand {
		key := r.keys[k]
		want := live[int64(k)]
		recBz, proofBz, err := m.GetProof(key)
		if want == nil {
			rep.Add("absent_proofs", 1)
			if err == nil {
				rep.Viol("proof", "key %d is absent but GetProof succeeds (%d bytes)", k, len(proofBz))
			}
			continue
		}
		rep.Add("proofs_checked", 1)
		if err != nil {
			rep.Viol("proof", "key %d is live but GetProof fails: %v", k, err)
			continue
		}
		s := shardOf(key)
		a := r.recs[s][want[5]]
		if a == nil {
			must(fmt.Errorf("harness: no record %d in shard %d", want[5], s))
		}
		wantBz := ref.Encode(r.rec(a))
		if !bytes.Equal(recBz, wantBz) {
			rep.Viol("proof", "key %d: record bytes %s, want %s", k, hx(recBz), hx(wantBz))
			continue
		}
		if !verify(recBz, proofBz, roots[s]) {
			rep.Viol("proof", "key %d: proof does not verify against the shard root", k)
			continue
		}
		pp, _ := datatree.BytesToProofPath(proofBz)
		if pp.SerialNum != want[5] {
			rep.Viol("proof", "key %d: proof has serial number %d, want %d", k, pp.SerialNum, want[5])
		}
		if !bytes.Equal(pp.ToBytes(), proofBz) {
			rep.Viol("proof", "key %d: proof changes when serialised again", k)
		}
		t, o := want[5]/ref.TwigSize, want[5]%ref.TwigSize
		if !bytes.Equal(pp.RightOfTwig[0].SelfHash[:], r.sh[s].Bits[t][o/256*32:o/256*32+32]) {
			rep.Viol("proof", "key %d: activity bits differ from the expected ones", k)
		}
		if mutated < 2 {
			mutated++
			r.mutateProof(k, recBz, proofBz, roots[s])
		}
	}
}

// mutateProof: no altered version may verify.
func (r *adsRun) mutateProof(k int, recBz, proofBz []byte, root ref.H) {
	chk := func(what string, rb, pb []byte, ro ref.H) {
		rep.Add("proof_alterations", 1)
		if verify(rb, pb, ro) {
			rep.Viol("proof-sound", "key %d: proof still verifies after altering %s", k, what)
		}
	}
	flip := func(b []byte, i int) []byte {
		c := append([]byte{}, b...)
		c[i] ^= 1 << uint(r.rnd.Intn(8))
		return c
	}
	for i := 0; i < 12; i++ {
		j := r.rnd.Intn(len(recBz))
		chk(fmt.Sprintf("record byte %d", j), flip(recBz, j), proofBz, root)
	}
	// a different record presented as this one, with its own hash put into the proof
	other := flip(recBz, len(recBz)-20)
	h := sha256.Sum256(other)
	pb := append([]byte{}, proofBz...)
	copy(pb[8:40], h[:])
	chk("record and leaf hash", other, pb, root)
	for off := 8; off < len(proofBz); off += 32 { // leaf, siblings, bits, root
		chk(fmt.Sprintf("32-byte field %d", (off-8)/32), recBz, flip(proofBz, off+r.rnd.Intn(32)), root)
	}
	// each activity bit of the field that holds this record's own flag
	self := 8 + 32*(1+11)
	for i := 0; i < 256; i += 1 + r.rnd.Intn(16) {
		c := append([]byte{}, proofBz...)
		c[self+i/8] ^= 1 << uint(i%8)
		chk(fmt.Sprintf("activity bit %d", i), recBz, c, root)
	}
	upper := (len(proofBz)-8)/32 - datatree.OtherNodeCount
	for i := 0; i < 64; i++ { // every serial-number bit
		c := append([]byte{}, proofBz...)
		sn := binary.LittleEndian.Uint64(c[:8]) ^ (1 << uint(i))
		binary.LittleEndian.PutUint64(c[:8], sn)
		chk(fmt.Sprintf("serial-number bit %d", i), recBz, c, root)
	}
	var badRoot ref.H
	copy(badRoot[:], root[:])
	badRoot[r.rnd.Intn(32)] ^= 4
	chk("the trusted root", recBz, proofBz, badRoot)
	for d := 1; d <= upper; d++ { // dropping levels of the upper path
		c := append([]byte{}, proofBz[:len(proofBz)-32-32*d]...)
		c = append(c, proofBz[len(proofBz)-32:]...)
		chk(fmt.Sprintf("the path length (%d levels dropped)", d), recBz, c, root)
		sn := binary.LittleEndian.Uint64(c[:8]) & (1<<uint(ref.TwigShift+upper-d) - 1)
		binary.LittleEndian.PutUint64(c[:8], sn)
		chk(fmt.Sprintf("the path length (%d levels dropped, serial number too)", d), recBz, c, root)
	}
	for d := 1; d <= 3; d++ { // adding levels
		c := append([]byte{}, proofBz[:len(proofBz)-32]...)
		c = append(c, make([]byte, 32*d)...)
		c = append(c, proofBz[len(proofBz)-32:]...)
		chk(fmt.Sprintf("the path length (%d levels added)", d), recBz, c, root)
	}
	for _, cut := range []int{1, 8, 32, 32 * upper, 32*upper + 32, len(proofBz) - 8, len(proofBz)} {
		if len(proofBz) >= cut {
			chk("the length", recBz, proofBz[:len(proofBz)-cut], root)
		}
	}
	// the step-by-step check must notice every inconsistent intermediate hash
	pp, err := datatree.BytesToProofPath(proofBz)
	if err != nil || pp.Check(true) != nil {
		return
	}
	if err := pp.Check(false); err != nil {
		rep.Viol("proof", "key %d: completed proof fails the step-by-step check: %v", k, err)
	}
	bad := func(what string, f *[32]byte) {
		rep.Add("proof_alterations", 1)
		f[r.rnd.Intn(32)] ^= 8
		save := *f
		if pp.Check(false) == nil {
			rep.Viol("proof-sound", "key %d: step-by-step check accepts an altered %s", k, what)
		}
		if *f != save {
			must(fmt.Errorf("Check(false) modified the proof"))
		}
		p2, _ := datatree.BytesToProofPath(proofBz)
		_ = p2.Check(true)
		*pp = *p2
	}
	for i := range pp.LeftOfTwig {
		bad(fmt.Sprintf("left self hash %d", i), &pp.LeftOfTwig[i].SelfHash)
		bad(fmt.Sprintf("left peer hash %d", i), &pp.LeftOfTwig[i].PeerHash)
	}
	for i := range pp.RightOfTwig {
		bad(fmt.Sprintf("right self hash %d", i), &pp.RightOfTwig[i].SelfHash)
		bad(fmt.Sprintf("right peer hash %d", i), &pp.RightOfTwig[i].PeerHash)
	}
	for i := 0; i < len(pp.UpperPath); i++ {
		bad(fmt.Sprintf("upper self hash %d", i), &pp.UpperPath[i].SelfHash)
		bad(fmt.Sprintf("upper peer hash %d", i), &pp.UpperPath[i].PeerHash)
	}
	bad("root", &pp.Root)
}

// checkMeta opens the metadata of the closed database and compares it.
func (r *adsRun) checkMeta(e *Exp) {
	kv, err := indextree.NewRocksDB("rocksdb", r.dir)
	must(err)
	md := metadb.NewMetaDB(kv)
	md.ReloadFromKVDB()
	r.compareMeta(md, e, "stored")
	md.Close()
	kv.Close()
	rep.Add("meta_compared", 1)
}

// liveMeta is the metadata object of the open database (nil if it has no such field).
func liveMeta(m *moeingads.MoeingADS) *metadb.MetaDB {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Interface {
			f = f.Elem()
		}
		if f.IsValid() && f.Type() == reflect.TypeOf((*metadb.MetaDB)(nil)) && !f.IsNil() {
			return (*metadb.MetaDB)(f.UnsafePointer())
		}
	}
	return nil
}

func (r *adsRun) compareMeta(md *metadb.MetaDB, e *Exp, what string) {
	roots := r.roots()
	if h := md.GetCurrHeight(); h != e.H {
		rep.Viol("meta", what+" height %d, want %d", h, e.H)
	}
	for s := 0; s < 8; s++ {
		if v := md.GetMaxSerialNum(s); v != e.Max[s] {
			rep.Viol("meta", "shard %d: "+what+" max serial number %d, want %d", s, v, e.Max[s])
		}
		if v := md.GetOldestActiveTwigID(s); v != e.Old[s] {
			rep.Viol("meta", "shard %d: "+what+" oldest active twig %d, want %d", s, v, e.Old[s])
		}
		if v := md.GetLastPrunedTwig(s); v != e.Lp[s] {
			rep.Viol("meta", "shard %d: "+what+" last pruned twig %d, want %d", s, v, e.Lp[s])
		}
		if v := md.GetRootHash(s); v != roots[s] {
			rep.Viol("meta", "shard %d: "+what+" root differs", s)
		}
		if v := md.GetEntryFileSize(s); v != r.curPos[s] {
			rep.Viol("meta", "shard %d: "+what+" entry file size %d, want %d", s, v, r.curPos[s])
		}
	}
}

// qHeight: the model's numbers are small; its largest height stands for the largest there is.
func (r *adsRun) qHeight(h int64) uint64 {
	if h-r.p.HOff >= topHeight-1 {
		rep.Add("reads_at_largest_heights", 1)
		return math.MaxUint64 - uint64(topHeight-(h-r.p.HOff))
	}
	return uint64(h)
}

const topHeight = 2000000000

// tryHist reads history where the answer may be gone: not found, or its file removed.
func (r *adsRun) tryHist(k, h int64) (got *moeingads.Entry, lost bool) {
	defer func() {
		if x := recover(); x != nil {
			lost = true
		}
	}()
	got = r.mads.GetEntryAtHeight(r.keys[k], r.qHeight(h))
	return got, got == nil
}

// serial numbers change when a record is moved, so the moved copy also answers
func (r *adsRun) sameRec(got *moeingads.Entry, a [7]int64) bool {
	return bytes.Equal(got.Key, r.keys[a[0]]) && bytes.Equal(got.Value, valBytes(a[2], r.p.MaxVal)) &&
		bytes.Equal(got.NextKey, r.keys[a[3]]) && got.Height == a[4] && got.LastHeight == a[5] && got.SerialNum == a[6]
}

// kvCompact makes the key-value engine rewrite all its files (which it does on its own
// schedule in production), so that its record filter runs over everything.
func (r *adsRun) kvCompact() {
	kv, err := indextree.NewRocksDB("rocksdb", r.dir)
	must(err)
	if r.ph >= 0 {
		kv.SetPruneHeight(uint64(r.ph))
	}
	kv.(*indextree.RocksDB).DB().CompactRange(gorocksdb.Range{})
	kv.Close()
	rep.Add("kv_compactions", 1)
}

func (r *adsRun) hist(e *Exp) {
	var ans [][7]int64
	must(json.Unmarshal(e.X, &ans))
	for _, a := range ans {
		rep.Add("historical_reads", 1)
		if r.ph >= 0 && a[1] > r.ph && a[6] >= 0 {
			eff := int64(-1) // when the index entry that answers this query was written
			for _, h := range r.idxAt[a[0]] {
				if h <= a[1] && h > eff {
					eff = h
				}
			}
			rep.Add("reads_above_prune_height", 1)
			if eff == r.ph {
				rep.Add("reads_answered_at_prune_height", 1)
			}
			if eff < r.ph {
				// see known-findings.json: such an answer may have been thrown away
				rep.Add("reads_above_prune_height_of_older_records", 1)
				got, lost := r.tryHist(a[0], a[1])
				if lost {
					rep.Known("history-above-prune", "key %d at height %d (prune height %d, index entry of height %d): want %v, got nothing", a[0], a[1], r.ph, eff, a[2:])
					continue
				}
				if !r.sameRec(got, a) {
					rep.Viol("history", "key %d at height %d: want %v, got %s", a[0], a[1], a[2:], entStr(got))
				}
				continue
			}
		}
		got := r.mads.GetEntryAtHeight(r.keys[a[0]], r.qHeight(a[1]))
		if a[6] < 0 {
			if got != nil {
				rep.Viol("history", "key %d at height %d: want nothing, got %s", a[0], a[1], entStr(got))
			}
			continue
		}
		rep.Add("historical_reads_found", 1)
		if got == nil {
			rep.Viol("history", "key %d at height %d: want %v, got nothing", a[0], a[1], a[2:])
			continue
		}
		if !r.sameRec(got, a) {
			rep.Viol("history", "key %d at height %d: want %v, got %s", a[0], a[1], a[2:], entStr(got))
		}
	}
}

// released: once twigs are pruned, no more than one extra file below them is kept.
func (r *adsRun) released(e *Exp) {
	bs, ok := r.p.Knobs["DefaultHPFileSize"]
	if !ok {
		return
	}
	for s := 0; s < 8; s++ {
		if e.Lp[s] < 0 {
			continue
		}
		keep := r.poss[s][e.Lp[s]+1]
		for _, x := range []struct {
			dir  string
			from int64
		}{{"entries", keep}, {"twigmt", (e.Lp[s] + 1 - 2) * 73708}} {
			fs, err := os.ReadDir(filepath.Join(r.dir, fmt.Sprintf("%s.%d", x.dir, s)))
			if err != nil {
				return
			}
			min := int64(-1)
			for _, f := range fs {
				id, err := strconv.ParseInt(strings.Split(f.Name(), "-")[0], 10, 64)
				if err == nil && (min < 0 || id < min) {
					min = id
				}
			}
			rep.Add("release_checks", 1)
			if min >= 0 && min < x.from/bs-1 {
				rep.Viol("release", "shard %d: %s files from id %d kept although everything before id %d was pruned", s, x.dir, min, x.from/bs)
			}
		}
	}
}

func loadPlan(path string) *Plan {
	bz, err := os.ReadFile(path)
	must(err)
	p := &Plan{}
	must(json.Unmarshal(bz, p))
	if p.MaxVal == 0 {
		p.MaxVal = 600
	}
	return p
}

// shiftHeights maps the model's heights to the real ones.
func shiftHeights(p *Plan, exp []Exp) {
	for i := range p.Steps { // the specification chose the height of this pruning
		if p.Steps[i].Op == "pruneat" {
			var x []int64
			must(json.Unmarshal(exp[i+1].X, &x))
			p.Steps[i].Op, p.Steps[i].H = "prune", x[0]
		}
	}
	if p.HOff == 0 {
		return
	}
	f := func(h *int64) {
		if *h >= 1 {
			*h += p.HOff
		}
	}
	for i := range p.Steps {
		f(&p.Steps[i].H)
		for j := range p.Steps[i].Q {
			f(&p.Steps[i].Q[j][1])
		}
	}
	for i := range exp {
		f(&exp[i].H)
		for j := range exp[i].Live {
			f(&exp[i].Live[j][3])
			f(&exp[i].Live[j][4])
		}
		for s := range exp[i].App {
			for j := range exp[i].App[s] {
				f(&exp[i].App[s][j].H)
				f(&exp[i].App[s][j].LH)
			}
		}
		if i > 0 && p.Steps[i-1].Op == "hist" {
			var ans [][7]int64
			must(json.Unmarshal(exp[i].X, &ans))
			for j := range ans {
				f(&ans[j][1])
				f(&ans[j][4])
				f(&ans[j][5])
			}
			bz, err := json.Marshal(ans)
			must(err)
			exp[i].X = bz
		}
	}
}

// ads PLAN EXPECTED DIR
func adsMain(args []string) {
	p := loadPlan(args[0])
	exp := readExp(args[1])
	if len(exp) != len(p.Steps)+1 {
		must(fmt.Errorf("plan has %d steps, expectations %d", len(p.Steps), len(exp)))
	}
	shiftHeights(p, exp)
	setKnobs(p.Knobs)
	dir := filepath.Join(args[2], "db")
	r := newAdsRun(p, dir)
	if p.Arm == "" {
		rep.Arm()
	}
	rep.At("create")
	r.open()
	r.apply(&exp[0])
	r.check(&exp[0])
	for i := range p.Steps {
		st, e := &p.Steps[i], &exp[i+1]
		rep.At("step %d %s h=%d", i+1, st.Op, st.H)
		if st.Op == p.Arm {
			rep.Arm()
		}
		if p.Arm == "compaction" && e.Old != exp[i].Old {
			rep.Arm()
		}
		r.apply(e)
		switch st.Op {
		case "block":
			r.block(st)
			rep.Add("blocks", 1)
			rep.Add("ops", int64(len(st.Ops)))
			for s := range e.Old {
				if e.Old[s] != exp[i].Old[s] {
					rep.Add("twigs_compacted", e.Old[s]-exp[i].Old[s])
					was := map[int64]*[6]int64{}
					for j := range exp[i].Live {
						was[exp[i].Live[j][5]*8+int64(shardOf(r.keys[exp[i].Live[j][0]]))] = &exp[i].Live[j]
					}
					for j := range e.App[s] { // records of the evicted twig that were moved
						a := &e.App[s][j]
						for _, d := range a.D {
							if w := was[d*8+int64(s)]; w != nil && a.Key == w[0] && d/ref.TwigSize == exp[i].Old[s] && a.H == w[3] && a.LH == w[4] {
								rep.Add("records_moved", 1)
							}
						}
					}
				}
			}
		case "reopen":
			r.mads.Close()
			if r.cmp["meta"] {
				r.checkMeta(e)
			}
			if st.KVC {
				r.kvCompact()
			}
			if st.Hist != nil {
				r.history = *st.Hist
			}
			r.open()
			rep.Add("reopens", 1)
		case "prune":
			r.mads.PruneBeforeHeight(st.H)
			if st.H > r.ph {
				r.ph = st.H
			}
			rep.Add("prunes", 1)
			for s := range e.Lp {
				if e.Lp[s] != exp[i].Lp[s] {
					rep.Add("twigs_pruned", e.Lp[s]-exp[i].Lp[s])
				}
			}
			if r.cmp["release"] {
				r.released(e)
			}
		case "hist":
			r.hist(e)
			continue
		}
		r.check(e)
		if i < 3 {
			rep.Sample(map[string]interface{}{"step": st.Op, "h": st.H, "ops": len(st.Ops), "live": len(e.Live), "max": e.Max})
		}
		if rep.nviol > 0 {
			break // the first deviation is what counts
		}
	}
	rep.At("close")
	r.mads.Close()
}
