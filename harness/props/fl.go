package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/ref"
)

// How an operand enters the circuit.
const (
	inWire   = 0 // decoded from a witness value
	inConst  = 1 // circuit constant
	inDirect = 2 // canonical components placed directly on wires
	inLit    = 3 // decoded from a circuit constant
	inExpr   = 4 // decoded from a sum of wires
	inModes  = 5
)

// sumOf returns an expression of two wires with the value of w: the second is
// zero for every w.
func sumOf(api frontend.API, w frontend.Variable) frontend.Variable {
	return api.Add(w, api.Mul(w, api.IsZero(w)))
}

// Item is one operation on at most two floats.
type Item struct {
	Op  string `json:"op"`
	X   fw.Hex `json:"x"`
	Y   fw.Hex `json:"y,omitempty"`
	Tol fw.Hex `json:"tol,omitempty"`
	Inx int    `json:"inx,omitempty"`
	Iny int    `json:"iny,omitempty"`
}

// FCase is one circuit holding several operations.
type FCase struct {
	E     uint   `json:"E"`
	M     uint   `json:"M"`
	Range uint   `json:"range"`
	SCS   bool   `json:"scs,omitempty"`
	Items []Item `json:"items"`
}

func (c FCase) f() ref.Fmt { return ref.Fmt{E: c.E, M: c.M} }

type outKind int

const (
	outFloat  outKind = iota
	outBit            // 0/1
	outInt            // signed integer in the field
	outAssert         // accepted or not
)

type opDef struct {
	ar   int
	kind outKind
	run  func(c *float.Context, x, y float.FloatVar, it Item) any
	// want: the expected bits / bit / integer. accept is whether the statement
	// must be provable; skip means the specification leaves the case open.
	want func(f ref.Fmt, it Item) (v any, accept, skip bool)
}

func fop(ar int, run func(c *float.Context, x, y float.FloatVar) float.FloatVar, want func(f ref.Fmt, x, y uint64) uint64) opDef {
	return opDef{ar: ar, kind: outFloat,
		run: func(c *float.Context, x, y float.FloatVar, _ Item) any { return run(c, x, y) },
		want: func(f ref.Fmt, it Item) (any, bool, bool) {
			return want(f, uint64(it.X), uint64(it.Y)), true, false
		}}
}

func bop(run func(c *float.Context, x, y float.FloatVar) frontend.Variable, want func(f ref.Fmt, x, y uint64) bool) opDef {
	return opDef{ar: 2, kind: outBit,
		run: func(c *float.Context, x, y float.FloatVar, _ Item) any { return run(c, x, y) },
		want: func(f ref.Fmt, it Item) (any, bool, bool) {
			return want(f, uint64(it.X), uint64(it.Y)), true, false
		}}
}

var ops = map[string]opDef{
	"id":  fop(1, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return x }, func(f ref.Fmt, x, y uint64) uint64 { return x }),
	"add": fop(2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Add(x, y) }, ref.Fmt.Add),
	"sub": fop(2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Sub(x, y) }, ref.Fmt.Sub),
	"mul": fop(2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Mul(x, y) }, ref.Fmt.Mul),
	"div": fop(2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Div(x, y) }, ref.Fmt.Div),
	"sqrt": fop(1, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Sqrt(x) },
		func(f ref.Fmt, x, y uint64) uint64 { return f.Sqrt(x) }),
	"abs": fop(1, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Abs(x) },
		func(f ref.Fmt, x, y uint64) uint64 { return f.Abs(x) }),
	"neg": fop(1, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Neg(x) },
		func(f ref.Fmt, x, y uint64) uint64 { return f.Neg(x) }),
	"trunc": fop(1, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Trunc(x) },
		func(f ref.Fmt, x, y uint64) uint64 { return f.Integral(x, 0) }),
	"floor": fop(1, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Floor(x) },
		func(f ref.Fmt, x, y uint64) uint64 { return f.Integral(x, 1) }),
	"ceil": fop(1, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Ceil(x) },
		func(f ref.Fmt, x, y uint64) uint64 { return f.Integral(x, 2) }),
	"lt": bop(func(c *float.Context, x, y float.FloatVar) frontend.Variable { return c.IsLt(x, y) }, ref.Fmt.Lt),
	"le": bop(func(c *float.Context, x, y float.FloatVar) frontend.Variable { return c.IsLe(x, y) }, ref.Fmt.Le),
	"gt": bop(func(c *float.Context, x, y float.FloatVar) frontend.Variable { return c.IsGt(x, y) },
		func(f ref.Fmt, x, y uint64) bool { return f.Lt(y, x) }),
	"ge": bop(func(c *float.Context, x, y float.FloatVar) frontend.Variable { return c.IsGe(x, y) },
		func(f ref.Fmt, x, y uint64) bool { return f.Le(y, x) }),
	"sellt": fop(2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Select(c.IsLt(x, y), x, y) },
		func(f ref.Fmt, x, y uint64) uint64 {
			if f.Lt(x, y) {
				return x
			}
			return y
		}),
	"toint": {ar: 1, kind: outInt,
		run: func(c *float.Context, x, y float.FloatVar, _ Item) any { return c.ToInt(x) },
		want: func(f ref.Fmt, it Item) (any, bool, bool) {
			v, ok := f.Int(uint64(it.X))
			if !f.Finite(uint64(it.X)) {
				return nil, false, false
			}
			if !ok {
				return nil, false, true // not integral: outside the contract
			}
			c := f.Comp(uint64(it.X))
			if v.Sign() != 0 && c.Exp > int64(f.M+f.E) {
				return nil, false, false
			}
			return v, true, false
		}},
	"eq": {ar: 2, kind: outAssert,
		run: func(c *float.Context, x, y float.FloatVar, _ Item) any { c.AssertIsEqual(x, y); return nil },
		want: func(f ref.Fmt, it Item) (any, bool, bool) {
			return nil, f.Same(uint64(it.X), uint64(it.Y)), false
		}},
	"ulp": {ar: 2, kind: outAssert,
		run:  func(c *float.Context, x, y float.FloatVar, _ Item) any { c.AssertIsEqualOrULP(x, y); return nil },
		want: wantULP},
	"tol": {ar: 2, kind: outAssert,
		run: func(c *float.Context, x, y float.FloatVar, it Item) any {
			if c.M == 23 {
				c.AssertIsEqualOrCustomULP32(x, y, math.Float32frombits(uint32(it.Tol)))
			} else {
				c.AssertIsEqualOrCustomULP64(x, y, math.Float64frombits(uint64(it.Tol)))
			}
			return nil
		},
		want: wantTol},
}

func wantULP(f ref.Fmt, it Item) (any, bool, bool) {
	x, y := uint64(it.X), uint64(it.Y)
	if f.IsNaN(x) || f.IsNaN(y) {
		return nil, f.IsNaN(x) && f.IsNaN(y), false
	}
	if f.Sign(x) != f.Sign(y) {
		return nil, false, false
	}
	if x == y {
		return nil, true, false
	}
	d := int64(f.Abs(x)) - int64(f.Abs(y))
	if d == 1 || d == -1 {
		// adjacent: specified for two normal numbers only
		n := func(v uint64) bool { return f.Finite(v) && f.BExp(v) != 0 }
		if n(x) && n(y) {
			return nil, true, false
		}
		return nil, false, true
	}
	return nil, false, false
}

func wantTol(f ref.Fmt, it Item) (any, bool, bool) {
	x, y := uint64(it.X), uint64(it.Y)
	if f.IsNaN(x) || f.IsNaN(y) {
		return nil, f.IsNaN(x) && f.IsNaN(y), false
	}
	if f.Sign(x) != f.Sign(y) {
		return nil, false, false
	}
	if x == y {
		return nil, true, false
	}
	return nil, f.Le(f.Abs(f.Sub(x, y)), uint64(it.Tol)), false
}

// place puts a float into the circuit.
func place(e *eng.Engine, c *float.Context, f ref.Fmt, b uint64, how int) float.FloatVar {
	switch how {
	case inConst:
		return c.NewConstant(b)
	case inDirect:
		k := f.Comp(b)
		return float.FloatVar{Sign: e.In(k.S), Exponent: e.In(k.Exp), Mantissa: e.In(k.Man), IsAbnormal: e.In(k.Abn)}
	case inLit:
		return c.NewFloat(b)
	case inExpr:
		return c.NewFloat(sumOf(e, e.In(b)))
	}
	return c.NewFloat(e.In(b))
}

// compOf reads a circuit float; the error names a component out of range.
func compOf(v float.FloatVar) (ref.Comp, string) {
	var c ref.Comp
	var ok bool
	if c.S, ok = eng.Uint(v.Sign); !ok || c.S > 1 {
		return c, fmt.Sprintf("sign is %s", eng.Big(v.Sign))
	}
	if c.Abn, ok = eng.Uint(v.IsAbnormal); !ok || c.Abn > 1 {
		return c, fmt.Sprintf("abnormal flag is %s", eng.Big(v.IsAbnormal))
	}
	if c.Exp, ok = eng.Signed(v.Exponent); !ok {
		return c, fmt.Sprintf("exponent is %s", eng.Big(v.Exponent))
	}
	if c.Man, ok = eng.Uint(v.Mantissa); !ok {
		return c, fmt.Sprintf("mantissa is %s", eng.Big(v.Mantissa))
	}
	return c, ""
}

// mismatch compares a circuit float with the expected bits.
func mismatch(f ref.Fmt, v float.FloatVar, want uint64) string {
	got, bad := compOf(v)
	w := f.Comp(want)
	if bad != "" {
		return fmt.Sprintf("%s, want %#x %+v", bad, want, w)
	}
	if !ref.SameComp(got, w) {
		return fmt.Sprintf("got %+v, want %#x %+v", got, want, w)
	}
	return ""
}

// compareOut compares an operation's output; "" when right.
func compareOut(f ref.Fmt, d opDef, out, want any) string {
	switch d.kind {
	case outFloat:
		return mismatch(f, out.(float.FloatVar), want.(uint64))
	case outBit:
		w := uint64(0)
		if want.(bool) {
			w = 1
		}
		if g, ok := eng.Uint(out); !ok || g != w {
			return fmt.Sprintf("got %s, want %d", eng.Big(out), w)
		}
	case outInt:
		w := new(big.Int).Mod(want.(*big.Int), eng.Modulus())
		if g := eng.Big(out); g.Cmp(w) != 0 {
			return fmt.Sprintf("got %s, want %s", g, want.(*big.Int))
		}
	}
	return ""
}

func (it Item) String() string {
	return fmt.Sprintf("%s(%#x,%#x tol=%#x in=%d,%d)", it.Op, uint64(it.X), uint64(it.Y), uint64(it.Tol), it.Inx, it.Iny)
}

func engineFor(scs bool, more ...eng.Option) *eng.Engine {
	if scs {
		more = append(more, eng.WithSCS())
	}
	return eng.New(more...)
}

// newCtx makes a context and decodes one float in it, since a circuit without
// any table lookup cannot be compiled.
func newCtx(e *eng.Engine, api frontend.API, rs, E, M uint) float.Context {
	ctx := float.NewContext(api, rs, E, M)
	ctx.NewFloat(e.In(ref.Fmt{E: E, M: M}.FromFloat(1)))
	return ctx
}

// runItem evaluates one item in a context.
func runItem(e *eng.Engine, ctx *float.Context, f ref.Fmt, it Item) any {
	d := ops[it.Op]
	x := place(e, ctx, f, uint64(it.X), it.Inx)
	var y float.FloatVar
	if d.ar == 2 {
		y = place(e, ctx, f, uint64(it.Y), it.Iny)
	}
	return d.run(ctx, x, y, it)
}

// checkF evaluates the case with honest advice.
func checkF(c FCase) string {
	f := c.f()
	e := engineFor(c.SCS)
	var ctx float.Context
	if r := eng.Guard(func() { ctx = newCtx(e, e, c.Range, c.E, c.M) }); !r.Accepted {
		return "context: " + r.Why
	}
	var batch []Item
	for _, it := range c.Items {
		d, known := ops[it.Op]
		if !known {
			return "harness: unknown op " + it.Op
		}
		want, accept, skip := d.want(f, it)
		if skip {
			continue
		}
		if !accept {
			if why := checkRejected(c, it); why != "" {
				return why
			}
			continue
		}
		var out any
		r := eng.Guard(func() { out = runItem(e, &ctx, f, it) })
		if !r.Accepted {
			return fmt.Sprintf("%v is unprovable: %s", it, r.Why)
		}
		if why := compareOut(f, d, out, want); why != "" {
			return fmt.Sprintf("%v: %s", it, why)
		}
		batch = append(batch, it)
	}
	if len(batch) == 0 {
		return ""
	}
	if r := eng.Guard(e.Finish); !r.Accepted {
		if len(batch) > 1 {
			for _, it := range batch {
				if why := checkF(FCase{E: c.E, M: c.M, Range: c.Range, SCS: c.SCS, Items: []Item{it}}); why != "" {
					return why
				}
			}
		}
		return fmt.Sprintf("%v... is unprovable: %s", batch[0], r.Why)
	}
	return ""
}

// checkRejected runs one item that must not be provable.
func checkRejected(c FCase, it Item) string {
	f := c.f()
	e := engineFor(c.SCS)
	var out any
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, c.E, c.M)
		out = runItem(e, &ctx, f, it)
	})
	if r.Accepted {
		if out != nil {
			return fmt.Sprintf("%v is accepted with output %v, must be unprovable", it, describe(out))
		}
		return fmt.Sprintf("%v is accepted, must be unprovable", it)
	}
	return ""
}

func describe(out any) string {
	switch v := out.(type) {
	case float.FloatVar:
		return fmt.Sprintf("{%s %s %s %s}", eng.Big(v.Sign), eng.Big(v.Exponent), eng.Big(v.Mantissa), eng.Big(v.IsAbnormal))
	default:
		return eng.Big(v).String()
	}
}

// shrinkF proposes smaller cases.
func shrinkF(c FCase) []FCase {
	var out []FCase
	with := func(items []Item) FCase { d := c; d.Items = items; return d }
	if n := len(c.Items); n > 1 {
		for _, it := range c.Items {
			out = append(out, with([]Item{it}))
		}
		out = append(out, with(c.Items[:n/2]), with(c.Items[n/2:]))
		return out
	}
	if len(c.Items) == 0 {
		return nil
	}
	it := c.Items[0]
	f := c.f()
	if c.SCS {
		d := c
		d.SCS = false
		out = append(out, d)
	}
	if c.Range != 0 {
		for _, r := range []uint{0, 8} {
			if c.Range != r {
				d := c
				d.Range = r
				out = append(out, d)
			}
		}
	}
	if it.Inx != 0 || it.Iny != 0 {
		j := it
		j.Inx, j.Iny = 0, 0
		out = append(out, with([]Item{j}))
	}
	for _, v := range simpler(f, uint64(it.X)) {
		j := it
		j.X = fw.Hex(v)
		out = append(out, with([]Item{j}))
	}
	if ops[it.Op].ar == 2 {
		for _, v := range simpler(f, uint64(it.Y)) {
			j := it
			j.Y = fw.Hex(v)
			out = append(out, with([]Item{j}))
		}
	}
	return out
}

// simpler lists simpler bit patterns: fewer significant fraction bits,
// exponents nearer to that of one, positive sign.
func simpler(f ref.Fmt, b uint64) []uint64 {
	var out []uint64
	s, e, m := f.Sign(b), f.BExp(b), f.Frac(b)
	if s == 1 {
		out = append(out, f.Make(0, e, m))
	}
	if m != 0 {
		out = append(out, f.Make(s, e, 0))
		for k := f.M / 2; k > 0; k /= 2 {
			if v := m >> k << k; v != m {
				out = append(out, f.Make(s, e, v))
			}
		}
		out = append(out, f.Make(s, e, m&(m-1)))
	}
	one := uint64(f.Bias())
	if e != one {
		out = append(out, f.Make(s, one, m))
		if e > one {
			out = append(out, f.Make(s, (e+one)/2, m), f.Make(s, e-1, m))
		} else {
			out = append(out, f.Make(s, (e+one+1)/2, m), f.Make(s, e+1, m))
		}
	}
	return out
}

// classOf names the class of a float.
func classOf(f ref.Fmt, b uint64) string {
	switch {
	case f.IsNaN(b):
		return "nan"
	case f.IsInf(b):
		return "inf"
	case f.IsZero(b):
		return "zero"
	case f.IsSub(b):
		return "subnormal"
	}
	return "normal"
}

// unitsF describes the evaluations of a case. Non-trivial: no NaN operand, and
// the specification decides the case.
func unitsF(c FCase) []fw.Unit {
	f := c.f()
	us := make([]fw.Unit, 0, len(c.Items))
	for _, it := range c.Items {
		d := ops[it.Op]
		w, acc, skip := d.want(f, it)
		lab := "reject"
		switch {
		case skip:
			lab = "open"
		case acc && d.kind == outFloat:
			lab = classOf(f, w.(uint64))
		case acc && d.kind == outBit:
			lab = fmt.Sprint(w.(bool))
		case acc:
			lab = "accept"
		}
		us = append(us, fw.Unit{
			Hash:       fw.H(uint64(c.E), uint64(c.M), fw.HS(it.Op), uint64(it.X), uint64(it.Y), uint64(it.Tol)),
			NonTrivial: !skip && !f.IsNaN(uint64(it.X)) && (d.ar < 2 || !f.IsNaN(uint64(it.Y))),
			Label:      it.Op + "->" + lab,
		})
	}
	return us
}

// batchGen makes a case generator from an item generator.
func batchGen(f ref.Fmt, n int, item func(r *fw.R, f ref.Fmt) Item) func(r *fw.R, i int) FCase {
	return func(r *fw.R, i int) FCase {
		c := FCase{E: f.E, M: f.M, Range: rangeSize(r), SCS: r.P(1, 4)}
		if f.M > 8 && r.P(1, 40) {
			c.Range = 16
		}
		how := r.N(5)
		for k := 0; k < n; k++ {
			it := item(r, f)
			switch how {
			case 0:
				it.Inx, it.Iny = inDirect, inDirect
			case 1:
				it.Inx, it.Iny = inConst, inWire
			case 2:
				it.Inx, it.Iny = inWire, inConst
			case 3:
				it.Inx, it.Iny = r.N(inModes), r.N(inModes)
			}
			c.Items = append(c.Items, it)
		}
		return c
	}
}

// pairsExhaustive enumerates all operand pairs of a tiny format, a row of
// pairs with equal first operand per case.
func pairsExhaustive(f ref.Fmt, opNames []string) (int, func(r *fw.R, i int) FCase) {
	w := 1 << f.Width()
	return w * len(opNames), func(r *fw.R, i int) FCase {
		op := opNames[i/w]
		c := FCase{E: f.E, M: f.M, Range: rangeSize(r), SCS: r.P(1, 4)}
		x := uint64(i % w)
		d := ops[op]
		how := r.N(inModes)
		if d.ar == 1 {
			c.Items = append(c.Items, Item{Op: op, X: fw.Hex(x), Inx: how})
			return c
		}
		for y := 0; y < w; y++ {
			c.Items = append(c.Items, Item{Op: op, X: fw.Hex(x), Y: fw.Hex(y), Inx: how, Iny: inDirect})
		}
		return c
	}
}
