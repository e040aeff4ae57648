package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

func init() {
	props["C37"] = &propCheck{run: checkFileSize, minObl: 9}
}

// scaled is the float nearest to num, times a power of two: both steps are exact after the conversion.
func scaled(st *State, num Lin, k *big.Rat) Value {
	num = st.c.norm(num)
	if k.Cmp(big.NewRat(1, 1)) == 0 {
		s, _ := defSym("conv:float64:"+num.key(), "float64("+num.String()+")", &symDef{op: "fn", tag: "conv float64", args: []Lin{num}})
		return VOpq{symLin(s), "float"}
	}
	s, _ := defSym("scaled:"+num.key()+"*"+k.String(), "float("+num.String()+")*"+k.String(), &symDef{op: "fn", tag: "scaled " + k.String(), args: []Lin{num}})
	return VOpq{symLin(s), "float"}
}

func scaledOf(v Value) (num Lin, k *big.Rat, ok bool) {
	o, isO := v.(VOpq)
	if !isO {
		return
	}
	y, one := o.L.onlySym()
	if !one {
		return
	}
	d := symDefOf(y)
	if d == nil {
		return
	}
	switch {
	case d.op == "float":
		if r, ok := new(big.Rat).SetString(d.tag); ok {
			return K(1), r, true
		}
	case d.tag == "conv float64":
		return d.args[0], big.NewRat(1, 1), true
	case len(d.tag) > 7 && d.tag[:7] == "scaled ":
		if r, ok := new(big.Rat).SetString(d.tag[7:]); ok {
			return d.args[0], r, true
		}
	}
	return
}

func powerOfTwo(r *big.Rat) bool {
	one := func(x *big.Int) bool {
		return x.Sign() > 0 && new(big.Int).And(x, new(big.Int).Sub(x, big.NewInt(1))).Sign() == 0
	}
	return one(r.Num()) && one(r.Denom())
}

func scaleOp(st *State, op token.Token, a, b Value) Value {
	num, k, ok := scaledOf(a)
	cn, ck, ok2 := scaledOf(b)
	if ok && ok2 && op == token.MUL && num.isK() && !cn.isK() {
		num, k, cn, ck = cn, ck, num, k
	}
	if ok && ok2 && cn.isK() && cn.c.isInt64() {
		c := new(big.Rat).Mul(ck, new(big.Rat).SetInt64(cn.c.int64()))
		if powerOfTwo(c) {
			switch op {
			case token.QUO:
				return scaled(st, num, new(big.Rat).Quo(k, c))
			case token.MUL:
				return scaled(st, num, new(big.Rat).Mul(k, c))
			}
		}
	}
	giveUp("float operation %s of %s and %s", op, vstr(a), vstr(b))
	return nil
}

func checkFileSize(c *Ctx) {
	sp := c.pkg("fs")
	units := []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}
	pow := func(n int) Lin {
		l := K(1)
		for ; n >= 32; n -= 32 {
			l = l.Scale(1 << 32)
		}
		return l.Scale(1 << uint(n))
	}
	for i, u := range units {
		i, u := i, u
		c.oblige("FileSize.String in "+u, func() {
			e := c.engine(sp)
			e.floatOp = scaleOp
			fn := c.fn(sp, "FileSize.String")
			st := e.newState()
			n := st.fresh(fn.Signature.Recv().Type(), "size").(VInt)
			if i > 0 {
				st.assume(n.L.Sub(pow(10 * i)))
			}
			if i < 6 {
				st.assume(pow(10*i + 10).Sub(n.L).AddK(-1))
			}
			c.run(e, st, fn, []Value{n}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				k := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(10*i)))
				want, ok := s.format("%.3f"+u, []Value{VIface{Dyn: types.Typ[types.Float64], V: scaled(s, n.L, k)}})
				if !ok {
					giveUp("no text of a number")
				}
				g := VStr{s.normRope(ret[0].(VStr).R)}
				if !s.sameArg(g, VStr{s.normRope(want)}) {
					return fmt.Sprintf("the text is %s instead of %s", vstr(g), vstr(VStr{want}))
				}
				return ""
			})
		})
	}
	c.oblige("FileSize.N", func() {
		e := c.engine(sp)
		fn := c.fn(sp, "FileSize.N")
		st := e.newState()
		n := st.fresh(fn.Signature.Recv().Type(), "size").(VInt)
		c.run(e, st, fn, []Value{n}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return wantInt(s, ret[0], n.L, "the number")
		})
	})
	c.oblige("FileSize.Set", func() {
		e := c.engine(sp)
		fn := c.fn(sp, "FileSize.Set")
		st := e.newState()
		t := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		p := VPtr{Obj: st.newObj(t, st.fresh(t, "old"), "size")}
		n := st.fresh(fn.Params[1].Type(), "new").(VInt)
		c.run(e, st, fn, []Value{p, n}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return wantInt(s, s.load(p), n.L, "the size")
		})
	})
}
