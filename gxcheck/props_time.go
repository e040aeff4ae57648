package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

func init() {
	props["C30"] = &propCheck{run: checkDuration, minObl: 19}
}

// durFloat is a float known as an integer times a constant, up to a number of roundings.
type durFloat struct {
	num  Lin
	k    *big.Rat
	errs int
}

type durWorld struct {
	vals []durFloat
}

func (w *durWorld) put(f durFloat) Value {
	if f.errs > 64 {
		giveUp("too many roundings")
	}
	w.vals = append(w.vals, f)
	return VOpq{K(int64(len(w.vals) - 1)), "duration float"}
}

func bigOf(l Lin) *big.Rat {
	b, ok := new(big.Int).SetString(l.c.String(), 10)
	if !ok {
		giveUp("number %s", l)
	}
	return new(big.Rat).SetInt(b)
}

func (w *durWorld) get(st *State, v Value) durFloat {
	o, ok := v.(VOpq)
	if !ok {
		giveUp("float %s", vstr(v))
	}
	if o.Tag == "duration float" {
		return w.vals[o.L.c.int64()]
	}
	if o.L.isK() && o.L.c.sign() == 0 {
		return durFloat{num: K(1), k: new(big.Rat)}
	}
	if s, ok := o.L.onlySym(); ok {
		if d := symDefOf(s); d != nil {
			switch {
			case d.op == "float":
				if r, ok := new(big.Rat).SetString(d.tag); ok {
					return durFloat{num: K(1), k: r, errs: 1}
				}
			case d.op == "fn" && d.tag == "conv float64":
				return w.num(st, d.args[0], big.NewRat(1, 1), 1)
			}
		}
	}
	giveUp("float %s", vstr(v))
	return durFloat{}
}

func (w *durWorld) num(st *State, l Lin, k *big.Rat, errs int) durFloat {
	if l = st.c.norm(l); l.isK() {
		return durFloat{num: K(1), k: k.Mul(k, bigOf(l)), errs: errs}
	}
	return durFloat{num: l, k: k, errs: errs}
}

func (w *durWorld) op(st *State, op token.Token, a, b Value) Value {
	x := w.get(st, a)
	if b == nil {
		return w.put(durFloat{x.num, new(big.Rat).Neg(x.k), x.errs})
	}
	y := w.get(st, b)
	n := x.errs + y.errs + 1
	switch op {
	case token.MUL:
		if x.num.isK() {
			x, y = y, x
		}
		if y.num.isK() {
			return w.put(durFloat{x.num, new(big.Rat).Mul(x.k, y.k), n})
		}
	case token.QUO:
		if y.num.isK() && y.k.Sign() != 0 {
			return w.put(durFloat{x.num, new(big.Rat).Quo(x.k, y.k), n})
		}
	case token.ADD:
		// parts of a duration have its sign: nothing cancels
		if x.k.Sign() == y.k.Sign() && x.k.Sign() != 0 {
			if x.k.Cmp(y.k) > 0 {
				x, y = y, x
			}
			if r := new(big.Rat).Quo(y.k, x.k); r.IsInt() && r.Num().IsInt64() {
				return w.put(durFloat{x.num.Add(y.num.Scale(r.Num().Int64())), x.k, n})
			}
		}
	}
	giveUp("float operation %s", op)
	return nil
}

func checkDuration(c *Ctx) {
	sp := c.pkg("time")
	tm := sp.Type("Duration")
	if tm == nil {
		c.fail("type Duration not found")
		return
	}
	dt := tm.Type()
	const day = int64(86400e9)
	start := func() (*Engine, *State, *durWorld, VInt) {
		e := c.engine(sp)
		st := e.newState()
		d := st.fresh(dt, "d").(VInt)
		w := &durWorld{}
		e.floatOp = w.op
		e.models["(time.Duration).String"] = func(c *callCtx) Value {
			return c.st.fnStr("std duration:"+c.st.c.norm(c.args[0].(VInt).L).key(), "duration text")
		}
		for n, k := range map[string]int64{"Seconds": 1e9, "Minutes": 60e9, "Hours": 3600e9} {
			k := k
			e.models["(time.Duration)."+n] = func(c *callCtx) Value {
				return w.put(w.num(c.st, c.args[0].(VInt).L, big.NewRat(1, k), 3))
			}
		}
		for n, k := range map[string]int64{"Nanoseconds": 1, "Microseconds": 1e3, "Milliseconds": 1e6} {
			k := k
			e.models["(time.Duration)."+n] = func(c *callCtx) Value {
				q, _ := c.st.divmod(c.args[0].(VInt).L, K(k))
				return VInt{q}
			}
		}
		e.models["(time.Duration).Truncate"] = func(c *callCtx) Value {
			m := c.st.c.norm(c.args[1].(VInt).L)
			if !m.isK() || m.c.sign() <= 0 {
				giveUp("Truncate to %s", m)
			}
			_, r := c.st.divmod(c.args[0].(VInt).L, m)
			return VInt{c.args[0].(VInt).L.Sub(r)}
		}
		return e, st, w, d
	}
	// constants
	scope := c.p.tpkgs["time"].Scope()
	for _, x := range []struct {
		name string
		v    int64
	}{{"Nanosecond", 1}, {"Microsecond", 1e3}, {"Millisecond", 1e6}, {"Second", 1e9}, {"Minute", 60e9}, {"Hour", 3600e9}, {"Day", day}, {"Week", 7 * day}} {
		x := x
		c.oblige("constant "+x.name, func() {
			c.cur.cases = 1
			o, ok := scope.Lookup(x.name).(*types.Const)
			if !ok {
				c.fail("constant %s not found", x.name)
				return
			}
			if !types.Identical(o.Type(), dt) {
				c.fail("%s: %s has type %s", c.p.posOf(o.Pos()), x.name, o.Type())
			}
			if v, ok := constant.Int64Val(constant.ToInt(o.Val())); !ok || v != x.v {
				c.fail("%s: %s is %s, not %d ns", c.p.posOf(o.Pos()), x.name, o.Val(), x.v)
			}
		})
	}
	for _, long := range []bool{false, true} {
		long := long
		name := "String of less than a day (or a negative duration)"
		if long {
			name = "String of a day and more"
		}
		c.oblige(name, func() {
			fn := c.fn(sp, "Duration.String")
			e, st, _, d := start()
			if long {
				st.assume(d.L.AddK(-day))
			} else {
				st.assume(K(day - 1).Sub(d.L))
			}
			c.run(e, st, fn, []Value{d}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return "panics: " + pan.why
				}
				var want Rope
				if long {
					q, r := s.divmod(d.L, K(day))
					days := s.fnStr("fmt:%d:"+s.c.norm(q).key(), "days").R
					if n := s.c.norm(q); n.isK() {
						days = strRope(n.c.String())
					}
					want = append(want, days...)
					want = append(want, strRope("d")...)
					want = append(want, s.fnStr("std duration:"+s.c.norm(r).key(), "duration text").R...)
				} else {
					want = s.fnStr("std duration:"+s.c.norm(d.L).key(), "duration text").R
				}
				got, ok := ret[0].(VStr)
				if !ok || s.ropeKey(s.normRope(got.R)) != s.ropeKey(s.normRope(want)) {
					return fmt.Sprintf("returns %s, expected %s", vstr(ret[0]), vstr(VStr{want}))
				}
				return ""
			})
		})
	}
	c.oblige("Std is the same duration", func() {
		fn := c.fn(sp, "Duration.Std")
		e, st, _, d := start()
		c.run(e, st, fn, []Value{d}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return "panics: " + pan.why
			}
			if r, ok := ret[0].(VInt); !ok || !s.c.entailsEq(r.L.Sub(d.L)) {
				return "returns " + vstr(ret[0])
			}
			return ""
		})
	})
	for _, x := range []struct {
		name string
		k    int64
	}{{"Seconds", 1e9}, {"Minutes", 60e9}, {"Hours", 3600e9}, {"Days", day}, {"Weeks", 7 * day}} {
		x := x
		c.oblige(x.name+" is the duration over its unit", func() {
			fn := c.fn(sp, "Duration."+x.name)
			e, st, w, d := start()
			c.run(e, st, fn, []Value{d}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return "panics: " + pan.why
				}
				f := w.get(s, ret[0])
				r := new(big.Rat).Mul(f.k, big.NewRat(x.k, 1))
				if r.Num().IsInt64() && r.Denom().IsInt64() && s.c.entailsEq(f.num.Scale(r.Num().Int64()).Sub(d.L.Scale(r.Denom().Int64()))) {
					return ""
				}
				return fmt.Sprintf("returns %s times %s; the unit has %d ns", s.c.norm(f.num), f.k.RatString(), x.k)
			})
		})
	}
	c.oblige("ParseDuration gives what the standard library gives", func() {
		fn := c.fn(sp, "ParseDuration")
		e, st, _, _ := start()
		text := VStr{st.freshRope("text", types.Typ[types.Byte])}
		d := st.fresh(types.Typ[types.Int64], "parsed").(VInt)
		failed := st.newErr("time.ParseDuration")
		e.models["time.ParseDuration"] = func(c *callCtx) Value {
			if a, ok := c.args[0].(VStr); !ok || c.st.ropeKey(c.st.normRope(a.R)) != c.st.ropeKey(c.st.normRope(text.R)) {
				giveUp("%s: another text is parsed", c.pos)
			}
			if c.st.choose(2) == 0 {
				return VTuple{VInt{K(0)}, failed}
			}
			return VTuple{d, VIface{}}
		}
		c.run(e, st, fn, []Value{text}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return "panics: " + pan.why
			}
			r, ok := ret[0].(VInt)
			if !ok {
				return "returns " + vstr(ret[0])
			}
			if isNil(ret[1]) {
				if !s.c.entailsEq(r.L.Sub(d.L)) {
					return "returns " + vstr(r) + " without error, not the parsed duration"
				}
				return ""
			}
			if !s.sameVal(ret[1], failed) {
				return "another error: " + vstr(ret[1])
			}
			if !s.c.entailsEq(r.L) {
				return "a failed parse gives " + vstr(r)
			}
			return ""
		})
	})
	c.oblige("Since gives what the standard library gives", func() {
		fn := c.fn(sp, "Since")
		e, st, _, _ := start()
		d := st.fresh(types.Typ[types.Int64], "since").(VInt)
		e.models["time.Since"] = func(c *callCtx) Value { return d }
		c.run(e, st, fn, []Value{VJunk{}}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return "panics: " + pan.why
			}
			if r, ok := ret[0].(VInt); !ok || !s.c.entailsEq(r.L.Sub(d.L)) {
				return "returns " + vstr(ret[0])
			}
			return ""
		})
	})
}
