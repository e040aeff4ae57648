package main

import (
	"math/big"
	"math/bits"
	"strconv"
)

// i128 is a 128-bit two's complement integer. Every operation reports overflow,
// and callers drop the constraint (sound: fewer facts) or stop the analysis.
type i128 struct {
	hi int64
	lo uint64
}

func n64(x int64) i128 {
	if x < 0 {
		return i128{-1, uint64(x)}
	}
	return i128{0, uint64(x)}
}

func nu64(x uint64) i128 { return i128{0, x} }

func nbig(b *big.Int) (i128, bool) {
	if b.BitLen() > 126 {
		return i128{}, false
	}
	var t big.Int
	t.Set(b)
	neg := t.Sign() < 0
	t.Abs(&t)
	var lo, hi big.Int
	mask := new(big.Int).SetUint64(^uint64(0))
	lo.And(&t, mask)
	hi.Rsh(&t, 64)
	r := i128{int64(hi.Uint64()), lo.Uint64()}
	if neg {
		r = r.neg()
	}
	return r, true
}

func (a i128) big() *big.Int {
	neg := a.hi < 0
	if neg {
		a = a.neg()
	}
	r := new(big.Int).SetUint64(uint64(a.hi))
	r.Lsh(r, 64)
	r.Or(r, new(big.Int).SetUint64(a.lo))
	if neg {
		r.Neg(r)
	}
	return r
}

func (a i128) String() string {
	if a.isInt64() {
		return strconv.FormatInt(a.int64(), 10)
	}
	return a.big().String()
}

func (a i128) neg() i128 {
	lo, b := bits.Sub64(0, a.lo, 0)
	hi, _ := bits.Sub64(0, uint64(a.hi), b)
	return i128{int64(hi), lo}
}

func (a i128) add(b i128) (i128, bool) {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi, _ := bits.Add64(uint64(a.hi), uint64(b.hi), c)
	r := i128{int64(hi), lo}
	if (a.hi < 0) == (b.hi < 0) && (r.hi < 0) != (a.hi < 0) {
		return r, false
	}
	return r, true
}

func (a i128) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}

func (a i128) cmp(b i128) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}

// mul by a 64-bit factor.
func (a i128) mul(k int64) (i128, bool) {
	if k == 0 || a.sign() == 0 {
		return i128{}, true
	}
	neg := false
	if a.hi < 0 {
		a = a.neg()
		neg = !neg
		if a.hi < 0 {
			return a, false
		}
	}
	uk := uint64(k)
	if k < 0 {
		uk = uint64(-k)
		neg = !neg
	}
	h1, l1 := bits.Mul64(a.lo, uk)
	h2, l2 := bits.Mul64(uint64(a.hi), uk)
	if h2 != 0 {
		return i128{}, false
	}
	hi, c := bits.Add64(h1, l2, 0)
	if c != 0 || int64(hi) < 0 {
		return i128{}, false
	}
	r := i128{int64(hi), l1}
	if neg {
		r = r.neg()
	}
	return r, true
}

// floorDiv by a positive 64-bit divisor.
func (a i128) floorDiv(d int64) i128 {
	neg := a.hi < 0
	if neg {
		a = a.neg()
	}
	ud := uint64(d)
	qh := uint64(a.hi) / ud
	rh := uint64(a.hi) % ud
	ql, rem := bits.Div64(rh, a.lo, ud)
	q := i128{int64(qh), ql}
	if neg {
		q = q.neg()
		if rem != 0 {
			q, _ = q.add(n64(-1))
		}
	}
	return q
}

func (a i128) isInt64() bool {
	return a == n64(int64(a.lo))
}
func (a i128) int64() int64 { return int64(a.lo) }

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return r, true
}

func addOK(a, b int64) (int64, bool) {
	r := a + b
	if (a < 0) == (b < 0) && (r < 0) != (a < 0) {
		return 0, false
	}
	return r, true
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
