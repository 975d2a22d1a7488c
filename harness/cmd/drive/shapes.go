package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"

	"github.com/smartbch/moeingads/datatree"

	"verifharness/ref"
)

// shapes FILE SEED: proofs of every height, built as ProofShape says.
func init() { modes["shapes"] = shapesMain }

type proofShape struct {
	U, Count, BitsAt, Join int
	Bits                   []int
	Left, Right, Up        [][3]int
}

func fold(h ref.H, steps [][3]int, hs []ref.H) ref.H {
	for _, s := range steps {
		buf := []byte{byte(s[0])}
		if s[1] == 1 {
			buf = append(append(buf, hs[s[2]][:]...), h[:]...)
		} else {
			buf = append(append(buf, h[:]...), hs[s[2]][:]...)
		}
		h = sha256.Sum256(buf)
	}
	return h
}

func (s *proofShape) sn() (v int64) {
	for i, b := range s.Bits {
		v |= int64(b) << uint(i)
	}
	return
}

// top is the hash that the fold arrives at.
func (s *proofShape) top(hs []ref.H) ref.H {
	l := fold(hs[0], s.Left, hs)
	r := fold(hs[s.BitsAt], s.Right, hs)
	return fold(sha256.Sum256(append(append([]byte{byte(s.Join)}, l[:]...), r[:]...)), s.Up, hs)
}

func proofBytes(sn int64, hs []ref.H) []byte {
	bz := make([]byte, 8)
	binary.LittleEndian.PutUint64(bz, uint64(sn))
	for i := range hs {
		bz = append(bz, hs[i][:]...)
	}
	return bz
}

func shapesMain(args []string) {
	f, err := os.Open(args[0])
	must(err)
	var seed int64
	fmt.Sscan(args[1], &seed)
	R := rand.New(rand.NewSource(seed))
	rep.Arm()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var str string
		must(json.Unmarshal(sc.Bytes(), &str))
		var s proofShape
		must(json.Unmarshal([]byte(str), &s))
		rep.At("proof of height %d, serial number %d", s.U, s.sn())
		rec := make([]byte, 20+R.Intn(100))
		R.Read(rec)
		hs := make([]ref.H, s.Count)
		for i := range hs {
			R.Read(hs[i][:])
		}
		hs[0] = sha256.Sum256(rec)
		root := s.top(hs)
		hs[s.Count-1] = root
		sn := s.sn()
		bz := proofBytes(sn, hs)
		bad := func(f string, a ...interface{}) {
			rep.Viol("proof-shape", "height %d, serial number %d: %s", s.U, sn, fmt.Sprintf(f, a...))
		}
		rep.Add("proof_shapes", 1)
		pp, err := datatree.BytesToProofPath(bz)
		if err != nil {
			bad("not parsed: %v", err)
			return
		}
		if pp.SerialNum != sn || pp.Root != root || len(pp.UpperPath) != s.U {
			bad("parsed to serial number %d, root %x, %d upper nodes", pp.SerialNum, pp.Root[:4], len(pp.UpperPath))
			return
		}
		if !bytes.Equal(pp.ToBytes(), bz) {
			bad("serialised again, it has other bytes")
			return
		}
		if err := pp.Check(true); err != nil {
			bad("does not verify: %v", err)
			return
		}
		if err := pp.Check(false); err != nil {
			bad("does not verify once completed: %v", err)
			return
		}
		if !bytes.Equal(pp.ToBytes(), bz) {
			bad("serialised after the check, it has other bytes")
			return
		}
		// a completed path with any altered own hash is inconsistent
		alter := func(what string, h *[32]byte) {
			i := R.Intn(32)
			h[i] ^= 1 << uint(R.Intn(8))
			keep := *h
			if pp.Check(false) == nil {
				bad("verifies with another %s", what)
			}
			*h = keep
			rep.Add("proof_shape_alterations", 1)
		}
		for i := range pp.LeftOfTwig {
			c := *pp
			alterOne(&c, pp, func() { alter("own hash of the left path", &pp.LeftOfTwig[i].SelfHash) })
		}
		for i := range pp.RightOfTwig {
			c := *pp
			alterOne(&c, pp, func() { alter("own hash of the right path", &pp.RightOfTwig[i].SelfHash) })
		}
		for i := range pp.UpperPath {
			keep := pp.UpperPath[i].SelfHash
			alter("own hash of the upper path", &pp.UpperPath[i].SelfHash)
			pp.UpperPath[i].SelfHash = keep
		}
		// serialised, with each part altered
		no := func(what string, rec2, bz2 []byte) {
			rep.Add("proof_shape_alterations", 1)
			if verify(rec2, bz2, root) {
				bad("verifies with %s", what)
			}
		}
		if !verify(rec, bz, root) {
			bad("the serialised proof does not verify")
			return
		}
		for i := range hs {
			j := 8 + 32*i + R.Intn(32)
			b2 := append([]byte{}, bz...)
			b2[j] ^= 1 << uint(R.Intn(8))
			no(fmt.Sprintf("another hash %d of %d", i, len(hs)), rec, b2)
		}
		for b := uint(0); b < 64; b++ {
			no(fmt.Sprintf("bit %d of the serial number altered", b), rec, proofBytes(sn^(1<<b), hs))
		}
		r2 := append([]byte{}, rec...)
		r2[R.Intn(len(r2))] ^= 1 << uint(R.Intn(8))
		no("another record", r2, bz)
		at := s.BitsAt + len(s.Right) + 1 + R.Intn(s.U) // one upper hash too few or too many
		no("an upper hash missing", rec, proofBytes(sn, append(append([]ref.H{}, hs[:at]...), hs[at+1:]...)))
		no("an upper hash twice", rec, proofBytes(sn, append(append([]ref.H{}, hs[:at]...), hs[at-1:]...)))
		no("a part missing", rec, bz[:len(bz)-1-R.Intn(31)])
		no("more bytes", rec, append(append([]byte{}, bz...), make([]byte, 1+R.Intn(31))...))
		if rep.nviol > 0 {
			return
		}
	}
	must(sc.Err())
}

// alterOne undoes what f changed in the fixed parts of pp.
func alterOne(saved, pp *datatree.ProofPath, f func()) {
	f()
	pp.LeftOfTwig, pp.RightOfTwig = saved.LeftOfTwig, saved.RightOfTwig
}
