package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C12"] = &propCheck{par: true, run: checkPrime, minObl: 66}
}

func checkPrime(c *Ctx) {
	sp := c.pkg("math/prime")
	const chunks = 64
	for i := int64(0); i < chunks; i++ {
		lo, hi := i*(65536/chunks), (i+1)*(65536/chunks)
		c.oblige(fmt.Sprintf("SqrtUint32 for roots %d to %d", lo, hi-1), func() {
			e := c.engine()
			e.unroll, e.maxPeel, e.maxPeelStates = 64, 64, 1<<20
			st := e.newState()
			n := st.fresh(types.Typ[types.Uint32], "val")
			l := n.(VInt).L
			st.assume(l.AddK(-lo * lo))
			st.assume(K(hi*hi - 1).Sub(l))
			c.run(e, st, c.fn(sp, "SqrtUint32"), []Value{n}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				r := s.c.norm(ret[0].(VInt).L)
				if !r.isK() {
					return "the root is not determined: " + r.String()
				}
				k := r.c.int64()
				if k > 0 && !s.c.entails(l.AddK(-(k-1)*(k-1))) || !s.c.entails(K((k+1)*(k+1)-1).Sub(l)) {
					return fmt.Sprintf("%d is not the root of %s", k, s.c)
				}
				return ""
			})
		})
	}
	c.oblige("the table lists consecutive primes from 2 to beyond 2^16", func() {
		tab := primeTable(c, sp)
		i := 0
		for n := int64(2); n < 1<<16; n++ {
			if !big.NewInt(n).ProbablyPrime(0) { // exact below 2^64
				continue
			}
			if i >= len(tab) || tab[i] != n {
				c.fail("%s: the table has %v at position %d, expected %d", c.p.pos(sp.Func("IsPrime")), at(tab, i), i, n)
				return
			}
			i++
		}
		for n := int64(1 << 16); i < len(tab); n++ {
			if big.NewInt(n).ProbablyPrime(0) {
				if tab[i] != n {
					c.fail("%s: the table has %d at position %d, expected %d", c.p.pos(sp.Func("IsPrime")), tab[i], i, n)
					return
				}
				i++
			}
		}
	})
	for _, cs := range []string{"0", "1", "primes", "composites with smallest factor 2", "composites with smallest factor 3", "composites with a larger smallest factor"} {
		c.oblige("IsPrime for "+cs, func() {
			tab := primeTable(c, sp)
			e := c.engine(sp)
			st := e.newState()
			fn := c.fn(sp, "IsPrime")
			below := int64(len(tab)) // entries below 2^16; the squares of later ones wrap around
			for i := len(tab) - 1; i >= 0 && tab[i] >= 1<<16; i-- {
				below = int64(i)
			}
			n := st.fresh(types.Typ[types.Uint32], "num")
			l := n.(VInt).L
			want := false
			var sqrtFact func(s *State, root Lin)
			switch cs {
			case "0", "1":
				n = VInt{K(int64(cs[0] - '0'))}
			case "primes":
				want = true
				st.assume(l.AddK(-2))
				st.assumeNe(l.AddK(-4))
				e.onDiv = func(s *State, a, b Lin) (Lin, Lin, bool) { return primeRem(s, l, a, b) }
				sqrtFact = func(s *State, root Lin) {
					if s.c.entails(l.AddK(-5)) {
						s.assume(l.Sub(root).AddK(-3))
					}
				}
			default:
				// num = q*m with 2 <= q <= m, q the smallest prime factor, hence q < 2^16 is in the table
				m := st.fresh(types.Typ[types.Uint32], "cofactor").(VInt).L
				var q Lin
				var at Lin
				switch cs[len(cs)-1] {
				case '2':
					q, at = K(2), K(0)
					st.assumeEq(l.Sub(m.Scale(2)))
					st.assume(m.AddK(-2))
				case '3':
					q, at = K(3), K(1)
					st.assumeEq(l.Sub(m.Scale(3)))
					st.assume(m.AddK(-3))
				default:
					at = st.fresh(types.Typ[types.Int], "j").(VInt).L
					st.assume(at.AddK(-2))
					st.assume(K(below - 1).Sub(at)) // q*q <= num < 2^32
					q = st.seqElem(st.tableSeq(tab, types.Typ[types.Int]), at).(VInt).L
					e.tabHint = append(e.tabHint, at)
					e.templates = append(e.templates, func(m Lin) (out []Lin) {
						for k := int64(-4); k <= 4; k++ {
							out = append(out, at.Sub(m).AddK(k))
						}
						return
					})
					st.assume(q.AddK(-5))
					st.assume(m.Sub(q))
					sqq := st.mulLin(q, q)
					st.assume(l.Sub(sqq))
					st.assume(sqq.Sub(q.Scale(5)))
				}
				e.onDiv = func(s *State, a, b Lin) (Lin, Lin, bool) {
					if !s.c.entailsEq(a.Sub(l)) {
						return Lin{}, Lin{}, false
					}
					if s.provesEq(b, q) {
						return m, K(0), true
					}
					if q.isK() {
						return Lin{}, Lin{}, false // ordinary arithmetic
					}
					if b.isK() && b.c.isInt64() && b.c.int64() <= 64 && b.c.sign() > 0 && gcd64(b.c.int64(), 6) > 1 {
						// num is coprime to 2 and 3
						k := b.c.int64()
						var rs []int64
						for r := int64(0); r < k; r++ {
							if gcd64(r, gcd64(k, 6)) == 1 {
								rs = append(rs, r)
							}
						}
						return anyQuo(s, a, b), K(rs[s.choose(len(rs))]), true
					}
					return anyRem(s, a, b)
				}
				sqrtFact = func(s *State, root Lin) { s.assume(root.Sub(q)) }
			}
			if below < int64(len(tab)) {
				e.tabHint = append(e.tabHint, K(below))
			}
			sq := sp.Func("SqrtUint32")
			e.onCall = func(s *State, f *ssa.Function, args, _ []Value) ([]Outcome, bool) {
				if f != sq || sqrtFact == nil {
					return nil, false
				}
				if a, ok := args[0].(VInt); !ok || !s.provesEq(a.L, l) {
					return nil, false
				}
				var outs []Outcome
				y, _ := defSym("isqrt", "isqrt(num)", &symDef{op: "fn", tag: "isqrt"})
				root := symLin(y)
				z, _ := defSym("isqrt+", "SqrtUint32(num)", &symDef{op: "fn", tag: "isqrt+"})
				res := symLin(z)
				s.assume(root)
				s.assume(K(65535).Sub(root))
				s.assume(res.Sub(root))
				s.assume(root.AddK(1).Sub(res))
				sqrtFact(s, root)
				return append(outs, Outcome{st: s, ret: []Value{VInt{res}}}), true
			}
			c.run(e, st, fn, []Value{n}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				return wantBool(s, ret[0], want, "the answer")
			})
		})
	}
}

func at(t []int64, i int) any {
	if i < len(t) {
		return t[i]
	}
	return "nothing"
}

// primeTable is the content of the table variable, from its initialiser.
func primeTable(c *Ctx, sp *ssa.Package) []int64 {
	e := c.engine(sp)
	st := e.newState()
	var best []int64
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		o := st.heap[e.global(st, g)]
		if o == nil {
			continue
		}
		s, ok := o.v.(VSlice)
		if !ok || s.Arr == 0 {
			continue
		}
		for _, p := range st.normRope(st.content(s)) {
			if p.kind == pTable && len(p.tab) > len(best) {
				best = p.tab
			}
		}
	}
	if len(best) < 1000 {
		giveUp("the table of primes is not found")
	}
	return best
}

// anyRem is a remainder about which only the type's bounds are known.
func anyRem(s *State, a, b Lin) (Lin, Lin, bool) {
	if !s.c.entails(b.AddK(-1)) {
		return Lin{}, Lin{}, false
	}
	key := "anyrem:" + a.key() + ":" + b.key()
	y, _ := defSym(key, "("+a.String()+")%("+b.String()+")", &symDef{op: "fn", tag: key})
	r := symLin(y)
	s.assume(r)
	s.assume(b.Sub(r).AddK(-1))
	return anyQuo(s, a, b), r, true
}

func anyQuo(s *State, a, b Lin) Lin {
	key := "anyquo:" + a.key() + ":" + b.key()
	z, _ := defSym(key, "("+a.String()+")/("+b.String()+")", &symDef{op: "fn", tag: key})
	q := symLin(z)
	s.assume(q)
	s.assume(a.Sub(q))
	return q
}

// primeRem is num%b for a prime num.
func primeRem(s *State, num, a, b Lin) (Lin, Lin, bool) {
	if !s.c.entailsEq(a.Sub(num)) || !s.c.entails(b.AddK(-1)) {
		return Lin{}, Lin{}, false
	}
	if b.isK() && b.c.isInt64() && !big.NewInt(b.c.int64()).ProbablyPrime(0) {
		s.assumeNe(b.Sub(num))
	} else if s.condEq(b, num) {
		return K(1), K(0), true
	}
	if s.cond(b.Sub(num)) {
		return K(0), num, true
	}
	if s.condEq(b, K(1)) {
		return num, K(0), true
	}
	b = s.c.norm(b)
	if b.isK() && b.c.isInt64() && b.c.int64() <= 64 && !big.NewInt(b.c.int64()).ProbablyPrime(0) {
		// 1 < b < num: the remainder is coprime to b
		k := b.c.int64()
		var rs []int64
		for r := int64(1); r < k; r++ {
			if gcd64(r, k) == 1 {
				rs = append(rs, r)
			}
		}
		return anyQuo(s, a, b), K(rs[s.choose(len(rs))]), true
	}
	q, r, ok := anyRem(s, a, b)
	if ok {
		s.assume(r.AddK(-1))
	}
	return q, r, ok
}
