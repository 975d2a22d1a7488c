// Package ref is the byte-level reference used by the conformance drivers: it turns the
// abstract record log computed by the TLA+ specification into record bytes and Merkle
// roots.  It shares no code with the code under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/bits"
)

const (
	TwigShift = 11
	TwigSize  = 1 << TwigShift
)

type H = [32]byte

var magic = []byte{255, 254, 253, 252, 252, 253, 254, 255}

// Rec is one appended record.
type Rec struct {
	Key, Val, Next []byte
	H, LH, SN      int64
	Deact          []int64
}

func le32(n int) []byte {
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], uint32(n))
	return b[:]
}
func le64(n int64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(n))
	return b[:]
}

// Encode builds the documented record layout (without the leading marker and padding):
// 1b list length, 24b length, marker positions ending in -1, payload, deactivated list.
func Encode(r *Rec) []byte {
	var strs []byte
	for _, s := range [][]byte{r.Key, r.Val, r.Next} {
		strs = append(strs, le32(len(s))...)
		strs = append(strs, s...)
	}
	var pos []int
	for i := 0; i+8 <= len(strs); {
		j := bytes.Index(strs[i:], magic)
		if j < 0 {
			break
		}
		pos = append(pos, i+j)
		i += j + 8
	}
	for _, p := range pos {
		copy(strs[p:p+8], make([]byte, 8))
	}
	var body []byte
	for _, p := range pos {
		body = append(body, le32(p+4*len(pos))...)
	}
	body = append(body, 255, 255, 255, 255)
	body = append(body, strs...)
	body = append(body, le64(r.H)...)
	body = append(body, le64(r.LH)...)
	body = append(body, le64(r.SN)...)
	out := []byte{byte(len(r.Deact)), byte(len(body)), byte(len(body) >> 8), byte(len(body) >> 16)}
	out = append(out, body...)
	for _, sn := range r.Deact {
		out = append(out, le64(sn)...)
	}
	return out
}

func Dummy(sn int64, deact []int64) *Rec {
	d := []byte("dummy")
	return &Rec{d, d, d, -2, -2, sn, deact}
}

func h2(level int, a, b []byte) H {
	buf := make([]byte, 0, 65)
	buf = append(buf, byte(level))
	buf = append(buf, a...)
	buf = append(buf, b...)
	return sha256.Sum256(buf)
}

var (
	nullLeft  [12]H // root of a null left subtree of height i
	nullTwig  H
	nullUpper [64]H
)

func init() {
	nullLeft[0] = sha256.Sum256(Encode(&Rec{H: -1, LH: -1, SN: -1}))
	for i := 1; i <= 11; i++ {
		nullLeft[i] = h2(i-1, nullLeft[i-1][:], nullLeft[i-1][:])
	}
	b3 := bitsRoot(make([]byte, 256))
	nullTwig = h2(11, nullLeft[11][:], b3[:])
	nullUpper[13] = h2(12, nullTwig[:], nullTwig[:])
	for i := 14; i < 64; i++ {
		nullUpper[i] = h2(i-1, nullUpper[i-1][:], nullUpper[i-1][:])
	}
}

func bitsRoot(b []byte) H {
	var l1 [4]H
	for i := range l1 {
		l1[i] = h2(8, b[64*i:64*i+32], b[64*i+32:64*i+64])
	}
	a, c := h2(9, l1[0][:], l1[1][:]), h2(9, l1[2][:], l1[3][:])
	return h2(10, a[:], c[:])
}

// Shard is the reference state of one data tree.
type Shard struct {
	leaves [][]H    // per twig: 2048 leaf hashes filled so far
	left   []H      // cached left root of complete twigs
	Bits   [][]byte // per twig: 256 bytes of active flags
	Max    int64    // next serial number
}

// Append adds a record's bytes as the next leaf.
func (s *Shard) AppendBytes(bz []byte) {
	t := int(s.Max >> TwigShift)
	s.grow(t)
	s.leaves[t] = append(s.leaves[t], sha256.Sum256(bz))
	s.Max++
	if len(s.leaves[t]) == TwigSize {
		s.left[t] = leftRoot(s.leaves[t])
	}
	s.grow(int(s.Max >> TwigShift))
}

func (s *Shard) grow(t int) {
	for len(s.leaves) <= t {
		s.leaves = append(s.leaves, nil)
		s.left = append(s.left, H{})
		s.Bits = append(s.Bits, make([]byte, 256))
	}
}

func (s *Shard) SetActive(sn int64, on bool) {
	t, o := int(sn>>TwigShift), sn%TwigSize
	if on {
		s.Bits[t][o/8] |= 1 << uint(o%8)
	} else {
		s.Bits[t][o/8] &^= 1 << uint(o%8)
	}
}
func (s *Shard) Active(sn int64) bool {
	t, o := int(sn>>TwigShift), sn%TwigSize
	return t < len(s.Bits) && s.Bits[t][o/8]&(1<<uint(o%8)) != 0
}

func leftRoot(l []H) H {
	cur := l
	for lv := 0; lv < 11; lv++ {
		n := (len(cur) + 1) / 2
		nx := make([]H, n)
		for i := range nx {
			r := nullLeft[lv]
			if 2*i+1 < len(cur) {
				r = cur[2*i+1]
			}
			nx[i] = h2(lv, cur[2*i][:], r[:])
		}
		cur = nx
		if len(cur) == 0 {
			return nullLeft[11]
		}
	}
	return cur[0]
}

func (s *Shard) TwigRoot(t int) H {
	b := bitsRoot(s.Bits[t])
	l := s.left[t]
	if len(s.leaves[t]) < TwigSize {
		l = leftRoot(s.leaves[t])
	}
	return h2(11, l[:], b[:])
}

// Root is the shard's root; the youngest twig must be >= 1 (always so after creation).
func (s *Shard) Root() H {
	y := int(s.Max >> TwigShift)
	top := 13 + 63 - bits.LeadingZeros64(uint64(y))
	cur := make([]H, y+1)
	for t := range cur {
		cur[t] = s.TwigRoot(t)
	}
	for lv := 13; lv <= top; lv++ {
		nx := make([]H, len(cur)/2+len(cur)%2)
		for i := range nx {
			var r H
			if 2*i+1 < len(cur) {
				r = cur[2*i+1]
			} else if lv == 13 {
				r = nullTwig
			} else {
				r = nullUpper[lv]
			}
			nx[i] = h2(lv-1, cur[2*i][:], r[:])
		}
		cur = nx
	}
	return cur[0]
}

// Clone makes an independent copy (leaf slices are shared up to their length).
func (s *Shard) Clone() *Shard {
	c := &Shard{Max: s.Max}
	for i := range s.leaves {
		c.leaves = append(c.leaves, append([]H(nil), s.leaves[i]...))
		c.left = append(c.left, s.left[i])
		c.Bits = append(c.Bits, append([]byte(nil), s.Bits[i]...))
	}
	return c
}

// Combine is the top hash over the eight shard roots.
func Combine(r [8]H) H {
	cur := r[:]
	for len(cur) > 1 {
		nx := make([]H, len(cur)/2)
		for i := range nx {
			nx[i] = sha256.Sum256(append(append([]byte{}, cur[2*i][:]...), cur[2*i+1][:]...))
		}
		cur = nx
	}
	return cur[0]
}
