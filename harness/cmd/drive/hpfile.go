package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"

	"github.com/smartbch/moeingads/datatree"
)

// hpraw BEHAVIOURS WORK SHARE OF UNIT B C: replays behaviours of HPFile (every step with its
// result) on the real record file; one model byte is UNIT real bytes.
//
// entryfile PLAN TOKENS TRACE WORK: appends, reads, scans, truncates and prunes real records;
// content is compared here, the positions are recorded for validation by the specification.
func init() {
	modes["hpraw"] = hpRaw
	modes["entryfile"] = entryFileMain
}

type hpStep struct {
	O struct {
		Op string
		A  int64
		P  []int64
	}
	X struct {
		Size  int64
		Recs  [][3]int64
		Files [][2]int64
	}
}

func recBytes(tag, n int64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(tag*37 + int64(i)*11 + 1)
		if b[i] == 0 {
			b[i] = 255
		}
	}
	return b
}

// tryRead reads n bytes at p; a panic counts as a failed read.
func tryRead(f *datatree.HPFile, p, n int64, withBuf bool) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	b = make([]byte, n)
	err = f.ReadAt(b, p, withBuf)
	return
}

func hpRaw(args []string) {
	share, _ := strconv.Atoi(args[2])
	of, _ := strconv.Atoi(args[3])
	u, _ := strconv.ParseInt(args[4], 10, 64)
	B, _ := strconv.ParseInt(args[5], 10, 64)
	C, _ := strconv.ParseInt(args[6], 10, 64)
	n := 0
	rep.Arm()
	readLines(args[0], func(bz []byte) {
		n++
		if n%of != share || rep.nviol > 0 {
			return
		}
		var steps []hpStep
		must(json.Unmarshal(bz, &steps))
		rep.At("behaviour %d", n)
		hpOne(steps, filepath.Join(args[1], "hp"), u, B, C, n)
		rep.Add("behaviours", 1)
		if n < 6*of {
			rep.Sample(steps)
		}
	})
}

func hpOne(steps []hpStep, dir string, u, B, C int64, n int) {
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0755))
	open := func() *datatree.HPFile {
		f, err := datatree.NewHPFile(int(C*u), int(B*u), dir)
		if err != nil {
			rep.Viol("open", "behaviour %d: %v", n, err)
			return nil
		}
		f.InitPreReader()
		return f
	}
	f := open()
	if f == nil {
		return
	}
	durable := map[int64]bool{} // records flushed
	gone := [][2]int64{}        // truncated away
	for i := range steps {
		st := &steps[i]
		o := &st.O
		switch o.Op {
		case "append":
			var bufs [][]byte
			var all []byte
			for _, p := range o.P {
				all = append(all, make([]byte, p*u)...)
			}
			copy(all, recBytes(o.A, int64(len(all))))
			off := int64(0)
			for _, p := range o.P {
				bufs = append(bufs, append([]byte{}, all[off:off+p*u]...))
				off += p * u
			}
			pos, err := f.Append(bufs)
			want := st.X.Recs[len(st.X.Recs)-1]
			if err != nil || pos != want[1]*u {
				rep.Viol("append", "behaviour %d step %d: position %d (%v), want %d", n, i, pos, err, want[1]*u)
			}
			gone = nil
		case "flush", "end":
			if (i+n)%2 == 0 {
				f.Flush()
			} else {
				f.StartFlushing()
				f.WaitForFlushing()
			}
		case "reopen":
			f.Flush()
			if err := f.Close(); err != nil {
				rep.Viol("close", "behaviour %d: %v", n, err)
			}
			if f = open(); f == nil {
				return
			}
		case "truncate":
			for t := range durable {
				delete(durable, t)
			}
			for _, r := range steps[i-1].X.Recs {
				if r[1] >= o.A {
					gone = append(gone, [2]int64{r[1], r[2]})
				}
			}
			if err := f.Truncate(o.A * u); err != nil {
				rep.Viol("truncate", "behaviour %d: %v", n, err)
			}
		case "prune":
			if err := f.PruneHead(o.A * u); err != nil {
				rep.Viol("prune", "behaviour %d: %v", n, err)
			}
		}
		if f.Size() != st.X.Size*u {
			rep.Viol("size", "behaviour %d step %d (%s): size %d, want %d", n, i, o.Op, f.Size(), st.X.Size*u)
		}
		if o.Op != "append" {
			for _, r := range st.X.Recs {
				durable[r[0]] = true
			}
		}
		// everything flushed and left reads back, directly and through the read-ahead buffer
		for pass := 0; pass < 2; pass++ {
			for _, r := range st.X.Recs {
				if !durable[r[0]] {
					continue
				}
				got, err := tryRead(f, r[1]*u, r[2]*u, pass == 1)
				if err != nil || !bytes.Equal(got, recBytes(r[0], r[2]*u)) {
					rep.Viol("read", "behaviour %d step %d (%s): record %d at %d, buffered=%v: got %x (%v)", n, i, o.Op, r[0], r[1]*u, pass == 1, got, err)
				}
				rep.Add("records_read", 1)
			}
			for _, g := range gone { // what was cut off cannot be read any more
				if got, err := tryRead(f, g[0]*u, g[1]*u, pass == 1); err == nil {
					rep.Viol("read", "behaviour %d step %d (%s): truncated record at %d, buffered=%v, still reads %x", n, i, o.Op, g[0]*u, pass == 1, got)
				}
			}
		}
		if rep.nviol > 0 {
			bz, _ := json.Marshal(steps)
			rep.Viol("behaviour", "%s", bz)
			return
		}
	}
	_ = f.Close()
}

// ---------------------------------------------------------------------------

type efPlan struct {
	Buffer, Block int
	Seed          int64
	Steps         []struct {
		Op  string
		T   [3]int // token strings of key, value, next key
		Big int    // extra length of the value
		NSN int
		I   int // index (modulo) of the record concerned
	}
}

var tokBytes = map[string][]byte{"M": {255, 254, 253, 252, 252, 253, 254, 255}, "A": {255, 254, 253, 252},
	"B": {252, 253, 254, 255}, "f": {255}, "0": {0}, "x": {7}}

type efRec struct {
	pos int64
	e   datatree.Entry
	sns []int64
	raw []byte
}

func entryFileMain(args []string) {
	var p efPlan
	bz, err := os.ReadFile(args[0])
	must(err)
	must(json.Unmarshal(bz, &p))
	var toks [][]byte
	readLines(args[1], func(bz []byte) {
		var ts []string
		must(json.Unmarshal(bz, &ts))
		var b []byte
		for _, t := range ts {
			b = append(b, tokBytes[t]...)
		}
		toks = append(toks, b)
	})
	tf, err := os.Create(args[2])
	must(err)
	out := json.NewEncoder(tf)
	log := func(m map[string]interface{}) { must(out.Encode(m)) }
	log(map[string]interface{}{"block": p.Block})
	R := rand.New(rand.NewSource(p.Seed))
	dir := filepath.Join(args[3], "ef")
	must(os.MkdirAll(dir, 0755))
	rep.Arm()
	ef, err := datatree.NewEntryFile(p.Buffer, p.Block, dir)
	must(err)
	var recs []efRec
	durable := 0
	check := func(k int) {
		r := &recs[k]
		same := func(e *datatree.Entry) bool {
			return bytes.Equal(e.Key, r.e.Key) && bytes.Equal(e.Value, r.e.Value) && bytes.Equal(e.NextKey, r.e.NextKey) &&
				e.Height == r.e.Height && e.LastHeight == r.e.LastHeight && e.SerialNum == r.e.SerialNum
		}
		next := int64(-1)
		if k+1 < len(recs) {
			next = recs[k+1].pos
		}
		e := ef.ReadEntry(r.pos)
		if !same(e) {
			rep.Viol("read", "record at %d: %s, want %s", r.pos, entStr(e), entStr(&r.e))
		}
		e, sns, nx := ef.ReadEntryAndSNList(r.pos)
		if !same(e) || fmt.Sprint(sns) != fmt.Sprint(r.sns) {
			rep.Viol("read", "record with list at %d: %s %v, want %s %v", r.pos, entStr(e), sns, entStr(&r.e), r.sns)
		}
		raw, nx2 := ef.ReadEntryRawBytes(r.pos)
		if next >= 0 && (nx != next || nx2 != next) {
			rep.Viol("scan", "record at %d: next %d / %d, want %d", r.pos, nx, nx2, next)
		}
		if !bytes.Equal(datatree.ExtractKeyFromRawBytes(raw), r.e.Key) || datatree.ExtractSerialNum(raw) != r.e.SerialNum {
			rep.Viol("raw", "record at %d: raw key %x sn %d, want %x %d", r.pos, datatree.ExtractKeyFromRawBytes(raw), datatree.ExtractSerialNum(raw), r.e.Key, r.e.SerialNum)
		}
		if !bytes.Equal(raw, datatree.EntryToBytes(r.e, nil)) && len(r.sns) == 0 {
			rep.Viol("raw", "record at %d: raw bytes differ", r.pos)
		}
		if pb := ef.ReadEntryBytesForProof(r.pos); !bytes.Equal(pb, r.raw) {
			rep.Viol("raw", "record at %d: bytes for the proof differ: %x want %x", r.pos, pb, r.raw)
		}
		rep.Add("records_read", 5)
	}
	for i := range p.Steps {
		st := &p.Steps[i]
		rep.At("step %d %s", i+1, st.Op)
		switch st.Op {
		case "append", "mark":
			val := append([]byte{}, toks[st.T[1]%len(toks)]...)
			if st.Op == "mark" { // a marker at exactly this offset of the value
				val = append(bytes.Repeat([]byte{7}, st.I), magicBytes...)
				val = append(val, bytes.Repeat([]byte{9}, st.Big)...)
			} else if st.Big > 0 {
				pad := make([]byte, st.Big)
				R.Read(pad)
				if R.Intn(2) == 0 {
					val = append(val, pad...)
				} else {
					val = append(pad, val...)
				}
			}
			e := datatree.Entry{Key: toks[st.T[0]%len(toks)], Value: val, NextKey: toks[st.T[2]%len(toks)],
				Height: R.Int63() - R.Int63(), LastHeight: R.Int63n(1 << 40), SerialNum: R.Int63()}
			if R.Intn(8) == 0 {
				e.Height, e.LastHeight = -0x0001020303020101, -2 // a marker as a number
			}
			sns := make([]int64, 0, st.NSN)
			for j := 0; j < st.NSN; j++ {
				s := R.Int63()
				if R.Intn(6) == 0 {
					s = -0x0001020303020101 // bytes of the marker
				}
				sns = append(sns, s)
			}
			b := datatree.EntryToBytes(e, sns)
			var two [2][]byte
			switch R.Intn(3) { // as the tree appends: the record, or the record and the list
			case 0:
				two[0] = append([]byte{}, b...)
			default:
				raw := datatree.EntryToBytes(e, nil)
				raw[0] = byte(len(sns))
				two[0], two[1] = raw, datatree.SNListToBytes(sns)
			}
			pos := ef.Append(two)
			recs = append(recs, efRec{pos, e, sns, b})
			log(map[string]interface{}{"op": "append", "pos": pos, "size": ef.Size()})
			rep.Add("records", 1)
		case "flush":
			ef.Flush()
			durable = len(recs)
			log(map[string]interface{}{"op": "flush", "size": ef.Size()})
		case "reopen":
			ef.Flush()
			ef.Close()
			ef, err = datatree.NewEntryFile(p.Buffer, p.Block, dir)
			if err != nil {
				rep.Viol("open", "%v", err)
				return
			}
			durable = len(recs)
			log(map[string]interface{}{"op": "reopen", "size": ef.Size()})
		case "truncate":
			ef.Flush()
			if len(recs) == 0 {
				break
			}
			k := len(recs) - 1 - st.I%(1+len(recs)/3)
			to := recs[k].pos
			ef.Truncate(to)
			recs = recs[:k]
			durable = k
			log(map[string]interface{}{"op": "truncate", "to": to, "size": ef.Size()})
			rep.Add("truncations", 1)
		case "prune":
			ef.Flush()
			durable = len(recs)
			if len(recs) < 2 {
				break
			}
			k := st.I % (1 + len(recs)/3)
			to := recs[k].pos
			ef.PruneHead(to)
			b := int64(p.Block)
			for len(recs) > 0 && recs[0].pos/b < to/b {
				recs = recs[1:]
				durable--
			}
			log(map[string]interface{}{"op": "prune", "to": to, "size": ef.Size()})
			rep.Add("prunings", 1)
		case "scan":
			if durable == 0 {
				break
			}
			ef.Flush()
			durable = len(recs)
			k := st.I % len(recs)
			var got []int64
			pos, end := recs[k].pos, ef.Size()
			for n := 0; pos < end && n <= len(recs); n++ {
				got = append(got, pos)
				if R.Intn(2) == 0 {
					_, pos = ef.ReadEntryRawBytes(pos)
				} else {
					_, _, pos = ef.ReadEntryAndSNList(pos)
				}
			}
			log(map[string]interface{}{"op": "scan", "k": k + 1, "got": got, "size": end})
			rep.Add("scans", 1)
			rep.Add("records_scanned", int64(len(got)))
		case "read":
			for j := 0; j < 12 && durable > 0; j++ {
				check(R.Intn(durable))
			}
		case "readall":
			ef.Flush()
			durable = len(recs)
			for k := range recs {
				check(k)
			}
		}
		if rep.nviol > 0 {
			break
		}
	}
	must(tf.Close())
}
