package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mmcloughlin/meow"

	"github.com/smartbch/moeingads"

	"verifharness/ref"
)

// Damaged files.  "damageprep" runs a plan, closes the database and chooses alterations of its
// record and twig files; the specification says what becomes of each.  "damagerun" applies each
// alteration to a copy and opens it in a process of its own: the process either refuses (it ends
// before the database is open) or must show what was committed, and carry on from there.
func init() {
	modes["damageprep"] = damagePrep
	modes["damagerun"] = damageRun
	modes["damageone"] = damageOne
}

type dmgOp struct {
	File string `json:"file"`
	Act  string `json:"act"` // set | cut | grow | rm
	Off  int64  `json:"off"`
	Data string `json:"data"`
}

type dmgCase struct {
	Id    int     `json:"id"`
	Kind  string  `json:"kind"`
	Part  string  `json:"part"`
	Shard int     `json:"shard"`
	Twig  int64   `json:"twig"`
	SN    int64   `json:"sn"`
	Node  int     `json:"node"`
	Bytes int64   `json:"bytes"`
	Pad   int64   `json:"pad"`
	Pos   bool    `json:"pos"`
	Need  bool    `json:"needed"`
	Note  string  `json:"note"`
	Ops   []dmgOp `json:"ops"`
	Probe []int64 `json:"probe"`
}

type dmgMeta struct {
	Old [8]int64 `json:"old"`
	Lp  [8]int64 `json:"lp"`
}

type dmgTail struct {
	X     int         `json:"x"`
	Exp   []Exp       `json:"exp"`
	Roots [][8][]byte `json:"roots"`
	Steps []Step      `json:"steps"`
	Plan  Plan        `json:"plan"`
}

const twigRow = 12 + 32*(4095-(2048-256))

type dmgRec struct {
	rec *ref.Rec
	pos int64
	enc []byte
	act *AppRec
}

// damageprep PLAN EXP ROOT OUT COUNT CONT
func damagePrep(args []string) {
	p := loadPlan(args[0])
	exp := readExp(args[1])
	shiftHeights(p, exp)
	setKnobs(p.Knobs)
	root, out := args[2], args[3]
	count, _ := strconv.Atoi(args[4])
	cont, _ := strconv.Atoi(args[5])
	r := newAdsRun(p, filepath.Join(root, "db"))
	rep.At("damage: running the plan")
	x := len(p.Steps) - cont
	var log [8][]dmgRec
	for s := range log {
		for sn := int64(0); sn < ref.TwigSize; sn++ {
			log[s] = append(log[s], dmgRec{rec: ref.Dummy(sn, nil)})
		}
	}
	tail := dmgTail{X: x, Plan: *p}
	tail.Plan.Steps = nil
	for i := range exp {
		for s := range exp[i].App {
			for j := range exp[i].App[s] {
				a := &exp[i].App[s][j]
				if i <= x {
					log[s] = append(log[s], dmgRec{rec: r.rec(a), act: a})
				}
			}
		}
		r.apply(&exp[i])
		if i >= x {
			rs := r.roots()
			var b [8][]byte
			for s := range rs {
				b[s] = append([]byte{}, rs[s][:]...)
			}
			tail.Roots = append(tail.Roots, b)
		}
		rep.At("damage: reference")
	}
	for i := range exp[x:] {
		exp[x+i].App = [8][]AppRec{}
	}
	tail.Exp = exp[x:]
	tail.Steps = p.Steps[x:]
	bz, err := json.Marshal(tail)
	must(err)
	must(os.WriteFile(filepath.Join(out, "tail.json"), bz, 0644))

	r2 := newAdsRun(p, filepath.Join(root, "db"))
	r2.open()
	for i := 0; i < x; i++ {
		rep.At("damage: step %d %s", i+1, p.Steps[i].Op)
		r2.step(&p.Steps[i])
	}
	r2.mads.Close()
	for s := range log {
		pos := int64(0)
		for j := range log[s] {
			e := ref.Encode(log[s][j].rec)
			log[s][j].enc, log[s][j].pos = e, pos
			pos += int64(8+len(e)+7) / 8 * 8
		}
	}
	e := &exp[x]
	fs := newMemfs(filepath.Join(root, "db"))
	g := &dmgGen{p: p, fs: fs, log: log, e: e, R: rand.New(rand.NewSource(p.Seed + 5)), block: p.Knobs["DefaultHPFileSize"], live: map[[2]int64]int64{}}
	if g.block == 0 {
		g.block = 1 << 40
	}
	for j := range e.Live {
		l := &e.Live[j]
		g.live[[2]int64{int64(shardOf(r.keys[l[0]])), l[5]}] = l[0]
	}
	g.locate()
	g.generate(count)
	g.full = count / 5
	g.alive(g.full)
	for i := range g.cases {
		g.cases[i].Id = i
		if g.cases[i].Probe == nil {
			g.cases[i].Probe = []int64{}
		}
	}
	meta := dmgMeta{Old: e.Old, Lp: e.Lp}
	bz, err = json.Marshal(map[string]interface{}{"cases": g.cases})
	must(err)
	must(os.WriteFile(filepath.Join(out, "cases.json"), bz, 0644))
	for i := range g.cases {
		g.cases[i].Ops = []dmgOp{}
	}
	bz, err = json.Marshal(map[string]interface{}{"cases": g.cases, "meta": meta})
	must(err)
	must(os.WriteFile(filepath.Join(out, "parts.json"), bz, 0644))
	rep.Add("alterations_prepared", int64(len(g.cases)))
}

type dmgGen struct {
	p     *Plan
	fs    *memfs
	log   [8][]dmgRec
	e     *Exp
	R     *rand.Rand
	block int64
	live  map[[2]int64]int64 // shard, serial number -> key
	cases []dmgCase
	full  int
	names map[string]map[int64]string // "entries.3" -> file id -> path
}

func (g *dmgGen) locate() {
	g.names = map[string]map[int64]string{}
	for f := range g.fs.files {
		d, b := filepath.Split(f)
		d = strings.TrimSuffix(d, "/")
		if !strings.HasPrefix(d, "entries") && !strings.HasPrefix(d, "twigmt") {
			continue
		}
		id, err := strconv.ParseInt(strings.Split(b, "-")[0], 10, 64)
		must(err)
		sz, err := strconv.ParseInt(strings.Split(b, "-")[1], 10, 64)
		must(err)
		g.block = sz
		if g.names[d] == nil {
			g.names[d] = map[int64]string{}
		}
		g.names[d][id] = f
	}
	// the layout the alterations rely on
	n := 0
	for s := range g.log {
		for j := range g.log[s] {
			rc := &g.log[s][j]
			b := g.bytes(dirE(s), rc.pos, 8+len(rc.enc))
			if b == nil {
				continue
			}
			n++
			if !bytes.Equal(b[:8], magicBytes) || !bytes.Equal(b[8:], rc.enc) {
				must(fmt.Errorf("shard %d record %d is not stored as expected at %d", s, rc.rec.SN, rc.pos))
			}
		}
	}
	rep.Add("records_located", int64(n))
}

func dirE(s int) string { return fmt.Sprintf("entries.%d", s) }
func dirT(s int) string { return fmt.Sprintf("twigmt.%d", s) }

func (g *dmgGen) bytes(dir string, pos int64, n int) []byte {
	f, ok := g.names[dir][pos/g.block]
	o := pos % g.block
	if !ok || o+int64(n) > int64(len(g.fs.files[f])) {
		return nil
	}
	return g.fs.files[f][o : o+int64(n)]
}

func (g *dmgGen) set(dir string, pos int64, data []byte) (dmgOp, bool) {
	old := g.bytes(dir, pos, len(data))
	if old == nil || bytes.Equal(old, data) {
		return dmgOp{}, false
	}
	return dmgOp{File: g.names[dir][pos/g.block], Act: "set", Off: pos % g.block, Data: hex.EncodeToString(data)}, true
}

func (g *dmgGen) add(c dmgCase, ops ...dmgOp) {
	c.Ops = ops
	g.cases = append(g.cases, c)
}

// garble changes some bytes of [pos, pos+n): one bit, one byte, a run of zeros or ones, or noise.
func (g *dmgGen) garble(dir string, pos int64, n int) (dmgOp, string, bool) {
	old := g.bytes(dir, pos, n)
	if old == nil {
		return dmgOp{}, "", false
	}
	b := append([]byte{}, old...)
	how := []string{"bit", "byte", "zero", "ones", "noise", "plus"}[g.R.Intn(6)]
	i := g.R.Intn(n)
	switch how {
	case "bit":
		b[i] ^= 1 << uint(g.R.Intn(8))
	case "byte":
		b[i] = byte(g.R.Intn(256))
	case "zero", "ones":
		for j := i; j < n; j++ {
			b[j] = map[string]byte{"zero": 0, "ones": 255}[how]
		}
	case "noise":
		g.R.Read(b)
	case "plus":
		b[i]++
	}
	op, ok := g.set(dir, pos, b)
	return op, how, ok
}

func (rc *dmgRec) parts() (np int, bodyEnd int) {
	np = 0
	for binary.LittleEndian.Uint32(rc.enc[4+4*np:]) != ^uint32(0) {
		np++
	}
	bodyEnd = len(rc.enc) - 8*len(rc.rec.Deact) - 24
	return
}

func (rc *dmgRec) pad() int { return (8 - (8+len(rc.enc))%8) % 8 }

func (g *dmgGen) recCase(s int, rc *dmgRec, part string) bool {
	np, be := rc.parts()
	dir := dirE(s)
	base := rc.pos + 8
	c := dmgCase{Kind: "rec", Part: part, Shard: s, Twig: rc.rec.SN >> ref.TwigShift, SN: rc.rec.SN}
	if k, ok := g.live[[2]int64{int64(s), rc.rec.SN}]; ok {
		c.Probe = append(c.Probe, k)
	}
	var op dmgOp
	var how string
	ok := false
	switch part {
	case "magic":
		op, how, ok = g.garble(dir, rc.pos, 8)
	case "n":
		op, how, ok = g.garble(dir, base, 1)
	case "len":
		l := int(rc.enc[1]) | int(rc.enc[2])<<8 | int(rc.enc[3])<<16
		nl := l
		switch g.R.Intn(4) {
		case 0, 1: // the padding takes it
			if rc.pad() > 0 {
				nl = l + 1 + g.R.Intn(rc.pad())
				how = "absorbed"
			} else {
				nl = l - 1 - g.R.Intn(7)
				how = "shorter"
			}
		case 2:
			nl, how = l+[]int{8, -8, 16, 24}[g.R.Intn(4)], "step"
		default:
			nl, how = g.R.Intn(1<<uint(4+g.R.Intn(20))), "any"
		}
		op, ok = g.set(dir, base+1, []byte{byte(nl), byte(nl >> 8), byte(nl >> 16)})
	case "plist":
		op, how, ok = g.garble(dir, base+4, 4*(np+1))
	case "span":
		if np == 0 {
			return false
		}
		st := int64(binary.LittleEndian.Uint32(rc.enc[4+4*g.R.Intn(np):]))
		op, how, ok = g.garble(dir, base+4+st+4, 8)
	case "body":
		// one byte outside the cleared markers
		span := map[int]bool{}
		for i := 0; i < np; i++ {
			st := int(binary.LittleEndian.Uint32(rc.enc[4+4*i:])) + 4 + 4
			for j := 0; j < 8; j++ {
				span[st+j] = true
			}
		}
		o := 4 + 4*(np+1) + g.R.Intn(be-4-4*(np+1))
		if span[o] {
			return false
		}
		op, how, ok = g.garble(dir, base+int64(o), 1)
	case "tail":
		op, how, ok = g.garble(dir, base+int64(be), 24)
	case "dead":
		if len(rc.rec.Deact) == 0 {
			return false
		}
		op, how, ok = g.garble(dir, base+int64(be)+24, 8*len(rc.rec.Deact))
	case "pad":
		if rc.pad() == 0 {
			return false
		}
		op, how, ok = g.garble(dir, base+int64(len(rc.enc)), rc.pad())
	}
	if !ok {
		return false
	}
	c.Note = how
	g.add(c, op)
	return true
}

func (g *dmgGen) pick(s int, evicted bool) *dmgRec {
	old := g.e.Old[s] << ref.TwigShift
	n := int64(len(g.log[s]))
	var sn int64
	switch {
	case evicted:
		if old == 0 {
			return nil
		}
		sn = g.R.Int63n(old)
	default:
		switch g.R.Intn(6) {
		case 0:
			sn = old + g.R.Int63n(4)
		case 1:
			sn = n - 1 - g.R.Int63n(4)
		case 2: // around a twig boundary
			sn = (g.R.Int63n(n>>ref.TwigShift+1))<<ref.TwigShift + g.R.Int63n(5) - 2
		default:
			sn = old + g.R.Int63n(n-old)
		}
		if sn < old {
			sn = old
		}
	}
	if sn >= n || sn < 0 {
		sn = n - 1
	}
	return &g.log[s][sn]
}

func (g *dmgGen) shards() (l []int) {
	for s := range g.log {
		l = append(l, s)
		if len(g.log[s]) > 3*ref.TwigSize { // mostly the ones in use
			for i := 0; i < 6; i++ {
				l = append(l, s)
			}
		}
	}
	return
}

func (g *dmgGen) generate(count int) {
	R := g.R
	for i := 0; i < 3; i++ {
		g.add(dmgCase{Kind: "none"})
	}
	for n := 0; n < 4000 && len(g.cases) < 3+count/12; n++ { // a length that still fits, of a live record
		s := R.Intn(8)
		rc := g.pick(s, false)
		if _, ok := g.live[[2]int64{int64(s), rc.rec.SN}]; ok && len(rc.rec.Deact) == 0 && rc.pad() > 0 {
			l := int(rc.enc[1]) | int(rc.enc[2])<<8 | int(rc.enc[3])<<16
			l += 1 + R.Intn(rc.pad())
			if op, ok := g.set(dirE(s), rc.pos+9, []byte{byte(l), byte(l >> 8), byte(l >> 16)}); ok {
				g.add(dmgCase{Kind: "rec", Part: "len", Shard: s, Twig: rc.rec.SN >> ref.TwigShift, SN: rc.rec.SN, Note: "absorbed, live"}, op)
			}
		}
	}
	sh := g.shards()
	shard := func() int { return sh[R.Intn(len(sh))] }
	parts := []string{"magic", "n", "len", "len", "plist", "span", "body", "body", "tail", "tail", "dead", "pad"}
	for n := 0; len(g.cases) < count && n < 100*count; n++ {
		s := shard()
		old, lp, top := g.e.Old[s], g.e.Lp[s], int64(len(g.log[s]))>>ref.TwigShift
		switch k := R.Intn(30); {
		case k < 14:
			part := parts[R.Intn(len(parts))]
			rc := g.pick(s, R.Intn(12) == 0)
			if rc == nil {
				continue
			}
			if R.Intn(2) == 0 { // a live one, or one that retires others, or one with markers
				for try := 0; try < 200; try++ {
					c := g.pick(s, false)
					_, lv := g.live[[2]int64{int64(s), c.rec.SN}]
					np, _ := c.parts()
					if (lv && part != "dead" && part != "span") || (part == "dead" && len(c.rec.Deact) > 0) || (part == "span" && np > 0 && lv) {
						rc = c
						break
					}
				}
			}
			g.recCase(s, rc, part)
		case k < 17: // two parts of one record, or of neighbours
			rc := g.pick(s, false)
			before := len(g.cases)
			a, b := parts[R.Intn(len(parts))], parts[R.Intn(len(parts))]
			rc2 := rc
			if R.Intn(2) == 0 && int(rc.rec.SN)+1 < len(g.log[s]) {
				rc2 = &g.log[s][rc.rec.SN+1]
			}
			if g.recCase(s, rc, a) {
				if g.recCase(s, rc2, b) {
					x, y := g.cases[before], g.cases[before+1]
					g.cases = g.cases[:before]
					x.Kind, x.Note = "two", a+"/"+x.Note+" "+b+"/"+y.Note
					g.add(x, x.Ops[0], y.Ops[0])
				}
			}
		case k < 18: // n and len compensating each other
			rc := g.pick(s, false)
			l := int(rc.enc[1]) | int(rc.enc[2])<<8 | int(rc.enc[3])<<16
			d := []int{1, -1}[R.Intn(2)]
			nn, nl := int(rc.enc[0])+d, l-8*d
			if nn < 0 || nn > 255 {
				continue
			}
			if op, ok := g.set(dirE(s), rc.pos+8, []byte{byte(nn), byte(nl), byte(nl >> 8), byte(nl >> 16)}); ok {
				g.add(dmgCase{Kind: "two", Shard: s, SN: rc.rec.SN, Note: "n and len together"}, op)
			}
		case k < 20: // one record over another of the same size, or the two exchanged
			a := g.pick(s, R.Intn(3) == 0)
			if a == nil {
				continue
			}
			for try := 0; try < 400; try++ {
				b := g.pick(s, false)
				if b.rec.SN == a.rec.SN || (len(a.enc)+7)/8 != (len(b.enc)+7)/8 {
					continue
				}
				da, db := append([]byte{}, a.enc...), append([]byte{}, b.enc...)
				da, db = append(da, make([]byte, a.pad())...), append(db, make([]byte, b.pad())...)
				if g.bytes(dirE(s), a.pos, 8+len(a.enc)) == nil {
					break
				}
				o1, ok1 := g.set(dirE(s), b.pos+8, da)
				o2, ok2 := g.set(dirE(s), a.pos+8, db)
				if ok1 && ok2 {
					if R.Intn(2) == 0 {
						g.add(dmgCase{Kind: "two", Shard: s, SN: a.rec.SN, Note: "two records exchanged"}, o1, o2)
					} else {
						g.add(dmgCase{Kind: "two", Shard: s, SN: a.rec.SN, Note: "one record over another"}, o1)
					}
					break
				}
			}
		case k < 22: // position of the first record of a twig
			t := old
			if R.Intn(3) == 0 && top > 0 {
				t = R.Int63n(top)
			}
			if R.Intn(2) == 0 {
				if op, how, ok := g.garble(dirT(s), t*twigRow, 12); ok {
					g.add(dmgCase{Kind: "pos", Shard: s, Twig: t, Note: how}, op)
				}
			} else { // with a check that fits
				rc := g.pick(s, R.Intn(2) == 0)
				if rc == nil {
					continue
				}
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], uint64(rc.pos))
				h := meow.New32(0)
				h.Write(b[:])
				if op, ok := g.set(dirT(s), t*twigRow, append(b[:], h.Sum(nil)...)); ok {
					g.add(dmgCase{Kind: "twopos", Shard: s, Twig: t, Note: "another record's position"}, op)
				}
			}
		case k < 27: // a hash of a twig's tree
			if top < 1 {
				continue
			}
			t := R.Int63n(top)
			node, part := 1, ""
			var probe []int64
			if R.Intn(3) > 0 && old < top { // on the path of a live record
				t = old + R.Int63n(top-old)
				var ks [][2]int64
				for q := range g.live {
					if q[0] == int64(s) && q[1]>>ref.TwigShift == t {
						ks = append(ks, q)
					}
				}
				if len(ks) > 0 {
					q := ks[0]
					for _, z := range ks { // (map order must not matter)
						if z[1] < q[1] {
							q = z
						}
					}
					if R.Intn(2) == 0 {
						for _, z := range ks {
							if z[1] > q[1] {
								q = z
							}
						}
					}
					node = 2048 + int(q[1]%ref.TwigSize)
					lv := R.Intn(11)
					if lv >= 1 && lv <= 3 {
						lv = 0
					}
					node >>= uint(lv)
					part = "self"
					if lv == 0 {
						part = "leaf"
					}
					if R.Intn(2) == 0 {
						node ^= 1
						part = "peer"
					}
					probe = append(probe, g.live[q])
				}
			}
			off := int64(node - 1)
			if node >= 2048 {
				off -= 2048 - 256
			}
			pos := t*twigRow + 12 + 32*off
			if (pos%g.block)+32 > g.block && g.bytes(dirT(s), pos, 32) == nil {
				continue
			}
			if op, how, ok := g.garble(dirT(s), pos, 32); ok {
				g.add(dmgCase{Kind: "node", Part: part, Shard: s, Twig: t, Node: node, Probe: probe, Note: how}, op)
			}
		case k < 28: // more bytes than committed
			dir := dirE(s)
			if R.Intn(2) == 0 {
				dir = dirT(s)
			}
			var last int64 = -1
			for id := range g.names[dir] {
				if id > last {
					last = id
				}
			}
			if last < 0 {
				continue
			}
			b := make([]byte, 1+R.Intn(200))
			R.Read(b)
			if R.Intn(2) == 0 {
				copy(b, magicBytes)
			}
			f := g.names[dir][last]
			g.add(dmgCase{Kind: "longer", Shard: s}, dmgOp{File: f, Act: "grow", Off: int64(len(g.fs.files[f])), Data: hex.EncodeToString(b)})
		case k < 29: // fewer bytes than committed
			rc := &g.log[s][len(g.log[s])-1]
			end := rc.pos + int64(8+len(rc.enc)+rc.pad())
			f, ok := g.names[dirE(s)][rc.pos/g.block]
			if !ok || int64(len(g.fs.files[f])) != end-(rc.pos/g.block)*g.block || g.names[dirE(s)][rc.pos/g.block+1] != "" {
				continue
			}
			nb := int64(1 + R.Intn(30))
			if R.Intn(2) == 0 {
				nb = 1 + R.Int63n(int64(len(g.fs.files[f])))
			}
			// zeros take the place of what is gone; a record that ends in zeros may survive
			gone := g.fs.files[f][int64(len(g.fs.files[f]))-nb:]
			z := 0
			for z < len(gone) && gone[len(gone)-1-z] == 0 {
				z++
			}
			pad := int64(rc.pad())
			if int64(z) > pad {
				pad = int64(z)
			}
			g.add(dmgCase{Kind: "cut", Shard: s, Bytes: nb, Pad: pad}, dmgOp{File: f, Act: "cut", Off: int64(len(g.fs.files[f])) - nb})
		default: // a whole file is missing
			dir := dirE(s)
			if R.Intn(3) == 0 {
				dir = dirT(s)
			}
			var ids []int64
			for id := range g.names[dir] {
				ids = append(ids, id)
			}
			if len(ids) == 0 {
				continue
			}
			id := ids[0]
			for _, z := range ids {
				if z > id {
					id = z
				}
			}
			id -= R.Int63n(int64(len(ids)))
			f, ok := g.names[dir][id]
			if !ok {
				continue
			}
			need := false
			if dir == dirE(s) {
				// every record from the oldest active twig on is read again
				for sn := old << ref.TwigShift; sn < int64(len(g.log[s])); sn++ {
					if g.log[s][sn].pos/g.block == id {
						need = true
					}
				}
			} else {
				need = old*twigRow/g.block == id
			}
			g.add(dmgCase{Kind: "missing", Shard: s, Need: need, Note: dir}, dmgOp{File: f, Act: "rm"})
		}
		_ = lp
	}
}

// alive: some of the alterations made while the database is open, to be seen by a proof
func (g *dmgGen) alive(n int) {
	// half of them on live records of full twigs
	var full []*dmgRec
	var sh []int
	for s := range g.log {
		top := int64(len(g.log[s])) >> ref.TwigShift
		for sn := g.e.Old[s] << ref.TwigShift; sn < top<<ref.TwigShift; sn++ {
			if _, ok := g.live[[2]int64{int64(s), sn}]; ok && sn < int64(len(g.log[s])) {
				full, sh = append(full, &g.log[s][sn]), append(sh, s)
			}
		}
	}
	rep.Add("live_in_full_twigs", int64(len(full)))
	for i := 0; len(full) > 0 && i < 20*n && n > 0; i++ {
		j := g.R.Intn(len(full))
		at := len(g.cases)
		if g.recCase(sh[j], full[j], []string{"n", "len", "plist", "span", "body", "body", "tail", "tail", "dead"}[g.R.Intn(9)]) {
			g.cases[at].Kind = "liverec"
			if n--; n <= g.full/2 {
				break
			}
		}
	}
	for _, i := range g.R.Perm(len(g.cases)) {
		c := g.cases[i]
		if n == 0 {
			return
		}
		if (c.Kind == "rec" || c.Kind == "node") && len(c.Probe) > 0 {
			c.Kind = "live" + c.Kind
			g.cases = append(g.cases, c)
			n--
		}
	}
}

func isLive(c *dmgCase) bool { return strings.HasPrefix(c.Kind, "live") }

// pokeFile writes the altered bytes into the file in place and returns the former ones.
func pokeFile(dir string, o *dmgOp, data []byte) []byte {
	f, err := os.OpenFile(filepath.Join(dir, o.File), os.O_RDWR, 0)
	must(err)
	defer f.Close()
	old := make([]byte, len(data))
	_, err = f.ReadAt(old, o.Off)
	must(err)
	_, err = f.WriteAt(data, o.Off)
	must(err)
	return old
}

func applyDamage(m *memfs, c *dmgCase) {
	for _, o := range c.Ops {
		b := append([]byte{}, m.files[o.File]...)
		d, err := hex.DecodeString(o.Data)
		must(err)
		switch o.Act {
		case "set":
			copy(b[o.Off:], d)
		case "grow":
			b = append(b, d...)
		case "cut":
			b = b[:o.Off]
		case "rm":
			delete(m.files, o.File)
			continue
		}
		m.files[o.File] = b
	}
}

type dmgFile struct {
	Cases []dmgCase `json:"cases"`
}

func loadCases(path string) []dmgCase {
	var f dmgFile
	bz, err := os.ReadFile(path)
	must(err)
	must(json.Unmarshal(bz, &f))
	return f.Cases
}

// damagerun OUT ROOT WORK OUTCOMES: every case in its own process
func damageRun(args []string) {
	cases := loadCases(filepath.Join(args[0], "cases.json"))
	var outcome []string
	bz, err := os.ReadFile(args[3])
	must(err)
	for _, l := range strings.Split(strings.TrimSpace(string(bz)), "\n") {
		var s string
		must(json.Unmarshal([]byte(l), &s))
		must(json.Unmarshal([]byte(s), &s))
		outcome = append(outcome, s)
	}
	if len(outcome) != len(cases) {
		must(fmt.Errorf("%d outcomes for %d cases", len(outcome), len(cases)))
	}
	base := newMemfs(filepath.Join(args[1], "db"))
	rep.Arm()
	self, err := os.Executable()
	must(err)
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := range ch {
				runDamage(self, base, &cases[i], outcome[i], args[0], filepath.Join(args[2], fmt.Sprintf("w%d", w)))
			}
		}(w)
	}
	for i := range cases {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (c *dmgCase) String() string {
	return fmt.Sprintf("case %d: %s %s %s shard %d twig %d sn %d node %d", c.Id, c.Kind, c.Part, c.Note, c.Shard, c.Twig, c.SN, c.Node)
}

func runDamage(self string, base *memfs, c *dmgCase, want string, out, work string) {
	m := base.clone()
	if !isLive(c) {
		applyDamage(m, c)
	}
	m.write(filepath.Join(work, "db"))
	st := filepath.Join(work, "status")
	os.Remove(st)
	cmd := exec.Command(self, "damageone", out, strconv.Itoa(c.Id), filepath.Join(work, "db"), st)
	cmd.Env = append(os.Environ(), "VERIF_REPORT="+filepath.Join(work, "rep"))
	var errb bytes.Buffer
	cmd.Stderr = &errb
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	deadline := time.Now().Add(110 * time.Second)
	var err error
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-time.After(2 * time.Second):
			rep.At("damage %s", c)
			if time.Now().After(deadline) {
				hung = true
				cmd.Process.Kill()
				<-done
				break wait
			}
		}
	}
	rep.At("damage %s", c)
	sb, _ := os.ReadFile(st)
	s := strings.TrimSpace(string(sb))
	if strings.Contains(errb.String(), "HARNESS-ERROR") {
		must(fmt.Errorf("child: %s", trunc(errb.String(), 2000)))
	}
	lines := strings.Split(s, "\n")
	last := lines[len(lines)-1]
	rep.Add("alterations_tried", 1)
	got := ""
	switch {
	case hung:
		rep.Viol("damage", "%s: neither opened nor refused", c)
		return
	case strings.HasPrefix(last, "DIFF"):
		rep.Viol("damage", "%s: opened, and %s", c, last)
		return
	case last == "done":
		if err != nil {
			must(fmt.Errorf("child ended with %v after the end", err))
		}
		got = "same"
	case s == "" || last == "error":
		got = "refused"
	default:
		got = "stopped"
	}
	rep.Add("outcome_"+got, 1)
	rep.Add("outcome_"+got+"_"+c.Kind, 1)
	if strings.Contains(s, "proof-refused") {
		rep.Add("proofs_refused", 1)
	}
	for _, l := range lines {
		if l == "proof-given" {
			rep.Add("proofs_given", 1)
		}
	}
	if isLive(c) && got == "same" {
		got = ""
		for i, l := range lines {
			if l == "live" && i+1 < len(lines) {
				got = strings.TrimPrefix(lines[i+1], "proof-")
			}
		}
		rep.Add("live_proof_"+got, 1)
		if want == "refused" && got != "refused" {
			rep.Viol("damage", "%s: altered under the open database, and a proof was %s", c, got)
		}
		if c.Id%7 == 1 {
			rep.Sample(map[string]interface{}{"case": c.String(), "specification": want, "code": got})
		}
		return
	}
	if c.Id < 400 && (c.Id%67 == 5) {
		rep.Sample(map[string]interface{}{"case": c.String(), "specification": want, "code": got})
	}
	switch {
	case c.Kind == "none" && got != "same":
		rep.Viol("damage", "%s: the unaltered files: %s (%s) %s", c, got, s, trunc(errb.String(), 400))
	case want == "refused" && got != "refused":
		rep.Viol("damage", "%s: the specification refuses it, the code opened the database (%s)", c, got)
	case want == "same" && got != "same":
		rep.Add("stricter_than_specified", 1)
		rep.Add("stricter_"+c.Kind+"_"+c.Part, 1)
	default:
		rep.Add("outcome_as_specified", 1)
	}
}

// damageone OUT ID DB STATUS
func damageOne(args []string) {
	var tail dmgTail
	bz, err := os.ReadFile(filepath.Join(args[0], "tail.json"))
	must(err)
	must(json.Unmarshal(bz, &tail))
	id, _ := strconv.Atoi(args[1])
	c := loadCases(filepath.Join(args[0], "cases.json"))[id]
	st, err := os.Create(args[3])
	must(err)
	say := func(f string, a ...interface{}) {
		_, err := fmt.Fprintf(st, f+"\n", a...)
		must(err)
	}
	p := &tail.Plan
	setKnobs(p.Knobs)
	r := newAdsRunLite(p, args[2], int64(id))
	roots := make([][8]ref.H, len(tail.Roots))
	for i := range roots {
		for s := range roots[i] {
			copy(roots[i][s][:], tail.Roots[i][s])
		}
	}
	rep.Arm()
	m, err := moeingads.NewMoeingADS(args[2], p.History, [][]byte{startKey, endKey})
	if err != nil {
		say("error")
		return
	}
	say("opened")
	r.mads = m
	if d := r.stateDiff(&tail.Exp[0], roots[0]); d != "" {
		say("DIFF %s", d)
		return
	}
	proof := func(k int64) {
		var rec, pf []byte
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("%v", e)
				}
			}()
			rec, pf, err = m.GetProof(r.keys[k])
		}()
		if err != nil {
			say("proof-refused")
			return
		}
		if !verify(rec, pf, roots[0][shardOf(r.keys[k])]) {
			say("DIFF key %d: a proof was given which does not verify", k)
			os.Exit(0)
		}
		say("proof-given")
	}
	for _, k := range c.Probe {
		if isLive(&c) {
			var old [][]byte
			for i := range c.Ops {
				d, err := hex.DecodeString(c.Ops[i].Data)
				must(err)
				old = append(old, pokeFile(args[2], &c.Ops[i], d))
			}
			say("live")
			proof(k)
			for i := range c.Ops {
				pokeFile(args[2], &c.Ops[i], old[i])
			}
		}
		proof(k)
	}
	for i := 0; i < 3; i++ {
		proof(tail.Exp[0].Live[r.rnd.Intn(len(tail.Exp[0].Live))][0])
	}
	say("proofs")
	r.p.Steps = tail.Steps
	for i := range tail.Steps {
		r.step(&tail.Steps[i])
		if d := r.stateDiff(&tail.Exp[i+1], roots[i+1]); d != "" {
			say("DIFF %d steps later: %s", i+1, d)
			return
		}
	}
	say("carried-on")
	r.mads.Close()
	m, err = moeingads.NewMoeingADS(args[2], p.History, [][]byte{startKey, endKey})
	if err != nil {
		say("refused-later")
		return
	}
	r.mads = m
	if d := r.stateDiff(&tail.Exp[len(tail.Steps)], roots[len(tail.Steps)]); d != "" {
		say("DIFF reopened later: %s", d)
		return
	}
	r.mads.Close()
	say("done")
}
