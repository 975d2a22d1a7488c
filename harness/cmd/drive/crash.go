package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verifharness/ref"
)

// Crash testing.  "crashrec" executes a plan while a tracer records every file change;
// markers in the trace tell when each step began and ended.  "crashchk" rebuilds the files
// as they were at chosen points of the trace, opens the database there, and compares it
// with the specification's state before or after the step that was in flight.
func init() {
	modes["crashrec"] = crashRec
	modes["crashchk"] = crashChk
	modes["crashimg"] = crashImg
}

type marker struct{ f *os.File }

func newMarker(root string) *marker {
	f, err := os.OpenFile(filepath.Join(root, "marker"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	must(err)
	return &marker{f}
}
func (m *marker) put(c string, i int) {
	_, err := m.f.Write([]byte(fmt.Sprintf("%s %d\n", c, i)))
	must(err)
}

func (r *adsRun) step(st *Step) {
	switch st.Op {
	case "block":
		r.block(st)
	case "reopen":
		r.mads.Close()
		r.open()
	case "prune":
		r.mads.PruneBeforeHeight(st.H)
	default:
		must(fmt.Errorf("crash plans have no step %q", st.Op))
	}
}

// crashrec PLAN EXP ROOT [LO HI COUNT]
func crashRec(args []string) {
	p := loadPlan(args[0])
	exp := readExp(args[1])
	shiftHeights(p, exp)
	setKnobs(p.Knobs)
	r := newAdsRun(p, filepath.Join(args[2], "db"))
	from, to := 0, len(p.Steps)
	mk := newMarker(args[2])
	rep.Arm()
	rep.At("recording: open")
	r.open()
	if len(args) > 3 {
		lo, _ := strconv.Atoi(args[3])
		hi, _ := strconv.Atoi(args[4])
		cnt, _ := strconv.Atoi(args[5])
		from = lo
		if p.stepApplied(exp, lo, hi, r.mads.GetCurrHeight()) {
			from = hi
		}
		if to > from+cnt {
			to = from + cnt
		}
	}
	mk.put("E", from)
	for i := from; i < to; i++ {
		rep.At("recording: step %d %s h=%d", i+1, p.Steps[i].Op, p.Steps[i].H)
		mk.put("B", i+1)
		r.step(&p.Steps[i])
		mk.put("E", i+1)
	}
	mk.put("Z", to)
	r.mads.Close()
}

// stepApplied tells from the stored height which of the two states this can only be.
func (p *Plan) stepApplied(exp []Exp, lo, hi int, h int64) bool {
	return hi > lo && h == exp[hi].H && exp[hi].H != exp[lo].H
}

type fop struct {
	kind     byte
	flags    uint32
	off      int64
	p1, p2   string
	data     []byte
	lo, hi   int // steps known complete / possibly in flight after this operation
	mark     bool
	dataFile bool
	kv       bool
}

func readTrace(path string) []fop {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	var res []fop
	lo, hi := -1, -1
	for {
		var h [32]byte
		if _, err := io.ReadFull(rd, h[:]); err == io.EOF {
			break
		} else {
			must(err)
		}
		n1, n2 := binary.LittleEndian.Uint32(h[4:]), binary.LittleEndian.Uint32(h[8:])
		o := fop{kind: byte(binary.LittleEndian.Uint32(h[0:])), flags: binary.LittleEndian.Uint32(h[12:]),
			off: int64(binary.LittleEndian.Uint64(h[16:]))}
		n := binary.LittleEndian.Uint64(h[24:])
		b := make([]byte, n1+n2)
		_, err := io.ReadFull(rd, b)
		must(err)
		o.p1, o.p2 = string(b[:n1]), string(b[n1:])
		if o.kind == 'W' {
			o.data = make([]byte, n)
			_, err = io.ReadFull(rd, o.data)
			must(err)
		}
		if o.p1 == "marker" {
			if o.kind != 'W' {
				continue
			}
			o.mark = true
			var c string
			var i int
			fmt.Sscanf(string(o.data), "%s %d", &c, &i)
			switch c {
			case "B":
				hi = i
			case "E":
				lo, hi = i, i
			case "Z":
				lo, hi = i, i
			}
		}
		o.lo, o.hi = lo, hi
		top := strings.SplitN(strings.TrimPrefix(o.p1, "db/"), "/", 2)[0]
		o.dataFile = strings.HasPrefix(top, "entries") || strings.HasPrefix(top, "twigmt")
		o.kv = strings.HasSuffix(top, ".db")
		res = append(res, o)
	}
	return res
}

func (o *fop) dir() string { return filepath.Dir(o.p1) }

// memfs is a tiny file system state: paths to contents (nil for a directory).
type memfs struct {
	files map[string][]byte
	dirs  map[string]bool
}

func newMemfs(base string) *memfs {
	m := &memfs{files: map[string][]byte{}, dirs: map[string]bool{}}
	if base != "-" {
		must(filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(base, p)
			if rel == "." {
				return nil
			}
			if fi.IsDir() {
				m.dirs[rel] = true
			} else {
				b, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				m.files[rel] = b
			}
			return nil
		}))
	}
	return m
}

func (m *memfs) clone() *memfs {
	c := &memfs{files: map[string][]byte{}, dirs: map[string]bool{}}
	for k, v := range m.files {
		c.files[k] = v[:len(v):len(v)] // copy on append; in-place writes copy first
	}
	for k := range m.dirs {
		c.dirs[k] = true
	}
	return c
}

func (m *memfs) apply(o *fop) {
	switch o.kind {
	case 'C':
		if _, ok := m.files[o.p1]; !ok || o.flags&1 != 0 {
			m.files[o.p1] = []byte{}
		}
	case 'W':
		b := m.files[o.p1]
		off := o.off
		if off < 0 {
			off = int64(len(b))
		}
		end := off + int64(len(o.data))
		n := int64(len(b))
		if end > n {
			n = end
		}
		if off == int64(len(b)) {
			m.files[o.p1] = append(b, o.data...)
			return
		}
		c := make([]byte, n)
		copy(c, b)
		copy(c[off:], o.data)
		m.files[o.p1] = c
	case 'T', 'A':
		b := m.files[o.p1]
		n := o.off
		if o.kind == 'A' && n < int64(len(b)) {
			return
		}
		c := make([]byte, n)
		copy(c, b)
		m.files[o.p1] = c
	case 'U':
		delete(m.files, o.p1)
	case 'R':
		if b, ok := m.files[o.p1]; ok {
			m.files[o.p2] = b
			delete(m.files, o.p1)
		} else if m.dirs[o.p1] {
			delete(m.dirs, o.p1)
			m.dirs[o.p2] = true
			for k, v := range m.files {
				if strings.HasPrefix(k, o.p1+"/") {
					m.files[o.p2+k[len(o.p1):]] = v
					delete(m.files, k)
				}
			}
		}
	case 'L':
		m.files[o.p2] = append([]byte{}, m.files[o.p1]...)
	case 'M':
		m.dirs[o.p1] = true
	case 'D':
		delete(m.dirs, o.p1)
	}
}

func (m *memfs) write(root string) {
	must(os.RemoveAll(root))
	must(os.MkdirAll(root, 0755))
	for d := range m.dirs {
		must(os.MkdirAll(filepath.Join(root, d), 0755))
	}
	for p, b := range m.files {
		if p == "marker" {
			continue
		}
		q := filepath.Join(root, p)
		must(os.MkdirAll(filepath.Dir(q), 0755))
		must(os.WriteFile(q, b, 0644))
	}
}

// image builds the file state after operation idx (inclusive).  Variants:
//
//	"prefix"  exactly the operations up to idx
//	"torn"    as prefix, but only part of the last data-file write happened
//	"lag"     changes to the data directories since the last metadata commit may lag behind
//	          in every directory independently (they are written concurrently)
func image(base *memfs, ops []fop, done int, idx int, variant string, R *rand.Rand) *memfs {
	m := base.clone()
	start := done
	switch variant {
	case "torn":
		for i := start; i < idx; i++ {
			m.apply(&ops[i])
		}
		o := ops[idx]
		if o.kind == 'W' && len(o.data) > 1 {
			o.data = o.data[:1+R.Intn(len(o.data)-1)]
		}
		m.apply(&o)
	case "lag":
		w := idx
		for w > start && !(ops[w].kv && ops[w].kind == 'W') && !ops[w].mark {
			w--
		}
		count := map[string]int{}
		for i := w; i <= idx; i++ {
			if ops[i].dataFile {
				count[ops[i].dir()]++
			}
		}
		dirs := make([]string, 0, len(count))
		for d := range count {
			dirs = append(dirs, d)
		}
		sort.Strings(dirs)
		keep := map[string]int{}
		for _, d := range dirs {
			keep[d] = R.Intn(count[d] + 1)
		}
		for i := start; i <= idx; i++ {
			if i >= w && ops[i].dataFile {
				if keep[ops[i].dir()] == 0 {
					continue
				}
				keep[ops[i].dir()]--
			}
			m.apply(&ops[i])
		}
	default:
		for i := start; i <= idx; i++ {
			m.apply(&ops[i])
		}
	}
	return m
}

type Point struct {
	Idx     int    `json:"idx"`
	Variant string `json:"variant"`
	Seed    int64  `json:"seed"`
}

// crashimg PLAN TRACE BASE OUT IDX VARIANT SEED: writes one image (for repeated crashes).
func crashImg(args []string) {
	ops := readTrace(args[1])
	idx, _ := strconv.Atoi(args[4])
	seed, _ := strconv.ParseInt(args[6], 10, 64)
	m := image(newMemfs(args[2]), ops, 0, idx, args[5], rand.New(rand.NewSource(seed)))
	m.write(args[3])
	bz, _ := json.Marshal([]int{ops[idx].lo, ops[idx].hi})
	must(os.WriteFile(args[3]+".lohi", bz, 0644))
}

// crashchk PLAN EXP TRACE BASE WORK SHARE OF POINTS CONT
// Checks every OF-th point starting at SHARE.  POINTS: "sample:N" or a JSON file of points.
func crashChk(args []string) {
	p := loadPlan(args[0])
	exp := readExp(args[1])
	shiftHeights(p, exp)
	setKnobs(p.Knobs)
	ops := readTrace(args[2])
	base := newMemfs(args[3])
	work := args[4]
	share, _ := strconv.Atoi(args[5])
	of, _ := strconv.Atoi(args[6])
	cont, _ := strconv.Atoi(args[8])
	rep.Arm()

	// reference states, computed once, in step order
	r := newAdsRun(p, "")
	roots := make([][8]ref.H, len(exp))
	rep.At("computing reference roots")
	maxStep := 0
	for i := range ops {
		if ops[i].hi > maxStep {
			maxStep = ops[i].hi
		}
	}
	lastStep := maxStep + cont + 1
	if lastStep > len(exp)-1 {
		lastStep = len(exp) - 1
	}
	minStep := len(exp)
	for i := range ops {
		if ops[i].lo >= 0 && ops[i].lo < minStep {
			minStep = ops[i].lo
		}
	}
	for i := 0; i <= lastStep; i++ {
		r.apply(&exp[i])
		if i >= minStep {
			roots[i] = r.roots()
		}
		rep.At("computing reference roots")
	}

	pts := choosePoints(ops, args[7], p)
	if share == 0 {
		rep.Add("crash_points_available", int64(countPoints(ops)))
		rep.Add("file_operations_traced", int64(len(ops)))
	}
	done := 0
	cur := base
	for n, pt := range pts {
		if n%of != share {
			continue
		}
		// advance the shared prefix to a safe distance before the window of this point
		safe := pt.Idx
		for safe > done && !ops[safe].mark {
			safe--
		}
		for safe > done && (ops[safe].lo == ops[pt.Idx].lo && ops[safe].hi == ops[pt.Idx].hi) {
			safe--
		}
		if safe > done {
			for i := done; i < safe; i++ {
				cur.apply(&ops[i])
			}
			done = safe
		}
		o := &ops[pt.Idx]
		rep.At("crash after file operation %d/%d (%s, %c %s) in step %d..%d", pt.Idx, len(ops), pt.Variant, o.kind, o.p1, o.lo, o.hi)
		m := image(cur, ops, done, pt.Idx, pt.Variant, rand.New(rand.NewSource(pt.Seed)))
		root := filepath.Join(work, "img")
		m.write(root)
		c := newAdsRunLite(p, filepath.Join(root, "db"), pt.Seed)
		c.checkCrash(exp, roots, o.lo, o.hi, cont, pt)
		rep.Add("crash_images_recovered", 1)
		if n < 4 {
			rep.Sample(map[string]interface{}{"after_op": pt.Idx, "of": len(ops), "op": fmt.Sprintf("%c %s", o.kind, o.p1), "variant": pt.Variant, "steps": []int{o.lo, o.hi}})
		}
		if rep.nviol > 0 {
			break
		}
	}
	os.RemoveAll(filepath.Join(work, "img"))
}

func newAdsRunLite(p *Plan, dir string, seed int64) *adsRun {
	r := newAdsRun(p, dir)
	r.rnd = rand.New(rand.NewSource(seed))
	return r
}

func countPoints(ops []fop) (n int) {
	for i := range ops {
		if ops[i].lo >= 0 {
			n++
		}
	}
	return
}

// choosePoints: every operation of interest first (metadata writes, removals, file creation,
// truncation), the rest sampled evenly.
func choosePoints(ops []fop, how string, p *Plan) []Point {
	if !strings.HasPrefix(how, "sample:") {
		var pts []Point
		bz, err := os.ReadFile(how)
		must(err)
		must(json.Unmarshal(bz, &pts))
		return pts
	}
	n, err := strconv.Atoi(how[7:])
	must(err)
	R := rand.New(rand.NewSource(p.Seed + int64(len(ops))))
	type cand struct {
		i int
		w float64
	}
	var cs []cand
	perKind := map[string]int{}
	kindOf := func(i int) string {
		o := &ops[i]
		where := "other"
		if o.dataFile {
			where = "data"
		} else if o.kv {
			where = "kv"
		}
		op := ""
		if o.hi > o.lo && o.hi >= 1 && o.hi <= len(p.Steps) {
			op = p.Steps[o.hi-1].Op
		}
		next := ""
		if i+1 < len(ops) {
			next = string(ops[i+1].kind)
		}
		return fmt.Sprintf("%c%s%s%s", o.kind, where, op, next)
	}
	for i := range ops {
		if ops[i].lo >= 0 {
			perKind[kindOf(i)]++
		}
	}
	for i := range ops {
		if ops[i].lo < 0 {
			continue
		}
		w := R.ExpFloat64() * float64(perKind[kindOf(i)]) // rare kinds first
		cs = append(cs, cand{i, w})
	}
	sort.Slice(cs, func(a, b int) bool { return cs[a].w < cs[b].w })
	if len(cs) > n {
		cs = cs[:n]
	}
	var pts []Point
	for _, c := range cs {
		v := "prefix"
		switch x := R.Intn(10); {
		case x < 4:
			v = "lag"
		case x < 5 && ops[c.i].dataFile && ops[c.i].kind == 'W':
			v = "torn"
		}
		pts = append(pts, Point{c.i, v, R.Int63()})
	}
	sort.Slice(pts, func(a, b int) bool { return pts[a].Idx < pts[b].Idx })
	return pts
}

// stateDiff compares what is visible with the state after step x; "" if equal.
func (r *adsRun) stateDiff(e *Exp, roots [8]ref.H) string {
	m := r.mads
	if h := m.GetCurrHeight(); h != e.H {
		return fmt.Sprintf("height %d, want %d", h, e.H)
	}
	want := ref.Combine(roots)
	if got := m.GetRootHash(); !bytes.Equal(got, want[:]) {
		return fmt.Sprintf("root %s, want %s", hx(got), hx(want[:]))
	}
	live := map[int64]*[6]int64{}
	for j := range e.Live {
		live[e.Live[j][0]] = &e.Live[j]
	}
	if c := m.ActiveCount(); c != len(live) {
		return fmt.Sprintf("%d active keys, want %d", c, len(live))
	}
	for k := int64(0); k <= int64(r.p.N)+1; k++ {
		got, w := m.GetEntry(r.keys[k]), live[k]
		if w == nil {
			if got != nil {
				return fmt.Sprintf("key %d: want absent, got %s", k, entStr(got))
			}
			continue
		}
		if got == nil {
			return fmt.Sprintf("key %d: want %v, got nothing", k, *w)
		}
		if !bytes.Equal(got.Key, r.keys[k]) || !bytes.Equal(got.NextKey, r.keys[w[2]]) || got.SerialNum != w[5] ||
			(k >= 1 && k <= int64(r.p.N) && (!bytes.Equal(got.Value, valBytes(w[1], r.p.MaxVal)) || got.Height != w[3] || got.LastHeight != w[4])) {
			return fmt.Sprintf("key %d: want %v, got %s", k, *w, entStr(got))
		}
	}
	rep.Add("records_compared", int64(r.p.N)+2)
	return ""
}

func (r *adsRun) histDiff(exp []Exp, x int, n int) string {
	ph := int64(-1)
	for i := 1; i <= x; i++ {
		if r.p.Steps[i-1].Op == "prune" && r.p.Steps[i-1].H > ph {
			ph = r.p.Steps[i-1].H
		}
	}
	if ph >= 0 {
		return "" // history above a prune height: see C09
	}
	for ; n > 0; n-- {
		k := int64(1 + r.rnd.Intn(r.p.N))
		h := int64(r.rnd.Int63n(exp[x].H + 2))
		var w *[6]int64
		for i := 0; i <= x && exp[i].H <= h; i++ {
			w = nil
			for j := range exp[i].Live {
				if exp[i].Live[j][0] == k {
					w = &exp[i].Live[j]
				}
			}
		}
		got := r.mads.GetEntryAtHeight(r.keys[k], uint64(h))
		rep.Add("historical_reads", 1)
		if (w == nil) != (got == nil) {
			return fmt.Sprintf("key %d at height %d: want %v, got %s", k, h, w, entStr(got))
		}
		if w != nil && (!bytes.Equal(got.Value, valBytes(w[1], r.p.MaxVal)) || got.Height != w[3]) {
			return fmt.Sprintf("key %d at height %d: want %v, got %s", k, h, *w, entStr(got))
		}
	}
	return ""
}

func (r *adsRun) proofDiff(e *Exp, roots [8]ref.H, n int) string {
	for ; n > 0; n-- {
		l := e.Live[r.rnd.Intn(len(e.Live))]
		rec, pf, err := r.mads.GetProof(r.keys[l[0]])
		if err != nil {
			return fmt.Sprintf("key %d: no proof: %v", l[0], err)
		}
		if !verify(rec, pf, roots[shardOf(r.keys[l[0]])]) {
			return fmt.Sprintf("key %d: proof does not verify", l[0])
		}
		rep.Add("proofs_checked", 1)
	}
	return ""
}

func (r *adsRun) checkCrash(exp []Exp, roots [][8]ref.H, lo, hi, cont int, pt Point) {
	r.open()
	x := lo
	if r.p.stepApplied(exp, lo, hi, r.mads.GetCurrHeight()) {
		x = hi
		rep.Add("recovered_to_in_flight_step", 1)
	}
	d := r.stateDiff(&exp[x], roots[x])
	if d == "" && r.history {
		d = r.histDiff(exp, x, 12)
	}
	if d == "" {
		d = r.proofDiff(&exp[x], roots[x], 3)
	}
	if d != "" {
		rep.Viol("crash", "crash after file operation %d (%s): recovered database is neither the state after step %d nor after step %d: %s", pt.Idx, pt.Variant, lo, hi, d)
		return
	}
	// carry on as if nothing had happened
	for i := x; i < x+cont && i < len(r.p.Steps) && i+1 < len(roots); i++ {
		if roots[i+1] == ([8]ref.H{}) {
			break
		}
		r.step(&r.p.Steps[i])
		if d := r.stateDiff(&exp[i+1], roots[i+1]); d != "" {
			rep.Viol("crash-continue", "crash after file operation %d (%s), recovered to step %d, then step %d: %s", pt.Idx, pt.Variant, x, i+1, d)
			return
		}
		x2 := i + 1
		if i+1 == x+cont {
			r.mads.Close()
			r.open()
			if d := r.stateDiff(&exp[x2], roots[x2]); d != "" {
				rep.Viol("crash-continue", "crash after file operation %d (%s), recovered to step %d, run to step %d, reopened: %s", pt.Idx, pt.Variant, x, x2, d)
				return
			}
			rep.Add("continued_and_reopened", 1)
		}
	}
	r.mads.Close()
}
