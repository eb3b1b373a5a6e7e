package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/hint"
	zmath "github.com/tumberger/zk-Location/math"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/ref"
)

// ---- M01

type PolyCase struct {
	F64   bool     `json:"f64"`
	K     bool     `json:"k,omitempty"` // highest degree first (EvalK with k=1)
	Range uint     `json:"range"`
	Coef  []fw.Hex `json:"coef"`
	At    fw.Hex   `json:"at"`
	Const bool     `json:"const,omitempty"` // coefficients are circuit constants
}

func fmtBits(f64 bool) ref.Fmt {
	if f64 {
		return ref.F64
	}
	return ref.F32
}

func (c PolyCase) native() uint64 {
	f := fmtBits(c.F64)
	r := f.Zero(0)
	n := len(c.Coef)
	for i := 0; i < n; i++ {
		k := i
		if !c.K {
			k = n - 1 - i
		}
		r = f.Add(f.Mul(r, uint64(c.At)), uint64(c.Coef[k]))
	}
	return r
}

func checkPoly(c PolyCase) string {
	f := fmtBits(c.F64)
	e := eng.New()
	var out float.FloatVar
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, f.E, f.M)
		at := ctx.NewFloat(e.In(uint64(c.At)))
		var p zmath.Polynomial
		for _, b := range c.Coef {
			if c.Const {
				p = append(p, ctx.NewConstant(uint64(b)))
			} else {
				p = append(p, ctx.NewFloat(e.In(uint64(b))))
			}
		}
		if c.K {
			out = p.EvalK(&ctx, at, 1)
		} else {
			out = p.Eval(&ctx, at)
		}
	})
	if !r.Accepted {
		return "unprovable: " + r.Why
	}
	return mismatch(f, out, c.native())
}

func genPoly(r *fw.R, f64 bool) PolyCase {
	f := fmtBits(f64)
	c := PolyCase{F64: f64, K: r.Bool(), Range: rangeSize(r), Const: r.Bool()}
	tame := r.P(2, 3)
	v := func() uint64 {
		if tame {
			return fromExp(f, r.U64()&1, int64(r.Range(-4, 4)), frac(r, f))
		}
		return anyFloat(r, f)
	}
	for k := r.N(13); k >= 0; k-- {
		x := v()
		if r.P(1, 12) {
			x = anyFloat(r, f)
		}
		if r.P(1, 12) {
			x = f.Zero(r.U64() & 1)
		}
		c.Coef = append(c.Coef, fw.Hex(x))
	}
	c.At = fw.Hex(v())
	return c
}

func shrinkPoly(c PolyCase) []PolyCase {
	var out []PolyCase
	f := fmtBits(c.F64)
	for i := range c.Coef {
		if len(c.Coef) > 1 {
			d := c
			d.Coef = append(append([]fw.Hex{}, c.Coef[:i]...), c.Coef[i+1:]...)
			out = append(out, d)
		}
	}
	for i := range c.Coef {
		for _, v := range simpler(f, uint64(c.Coef[i])) {
			d := c
			d.Coef = append([]fw.Hex{}, c.Coef...)
			d.Coef[i] = fw.Hex(v)
			out = append(out, d)
		}
	}
	for _, v := range simpler(f, uint64(c.At)) {
		d := c
		d.At = fw.Hex(v)
		out = append(out, d)
	}
	return out
}

func unitsPoly(c PolyCase) []fw.Unit {
	f := fmtBits(c.F64)
	h := fw.H(uint64(f.M), uint64(c.At), uint64(len(c.Coef)))
	for _, b := range c.Coef {
		h = fw.H(h, uint64(b))
	}
	if c.K {
		h = fw.H(h, 1)
	}
	v := c.native()
	return []fw.Unit{{Hash: h, NonTrivial: !f.IsNaN(v) && len(c.Coef) > 1, Label: classOf(f, v)}}
}

// FoldCase evaluates in more than one fold: the result is the polynomial's value
// but for rounding, whatever the scheme.
type FoldCase struct {
	PolyCase
	Fold int `json:"fold"`
}

// summed is what a recurrence gives that adds every fold to the first.
func (c FoldCase) summed() uint64 {
	f, at := fmtBits(c.F64), uint64(c.At)
	part := make([]uint64, c.Fold)
	for _, b := range c.Coef {
		for j := range part {
			add := uint64(b)
			if j > 0 {
				add = f.Mul(part[j-1], at)
			}
			part[j] = f.Add(f.Mul(part[j], at), add)
		}
	}
	for j := 1; j < c.Fold; j++ {
		part[0] = f.Add(part[0], part[j])
	}
	return part[0]
}

const foldsAdded = "folds added: "

func checkFold(c FoldCase) string {
	f := fmtBits(c.F64)
	e := eng.New()
	var got float64
	bad := ""
	var out float.FloatVar
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, f.E, f.M)
		at := ctx.NewFloat(e.In(uint64(c.At)))
		var p zmath.Polynomial
		for _, b := range c.Coef {
			p = append(p, ctx.NewFloat(e.In(uint64(b))))
		}
		out = p.EvalK(&ctx, at, c.Fold)
		var err error
		if got, err = fl(f, out); err != nil {
			bad = err.Error()
		}
	})
	if !r.Accepted {
		return "unprovable: " + r.Why
	}
	if bad != "" {
		return bad
	}
	v, sum, at := rf(), 0.0, f.Float(uint64(c.At))
	for _, b := range c.Coef { // highest degree first
		a := f.Float(uint64(b))
		v.Add(v.Mul(v, rf().SetFloat64(at)), rf().SetFloat64(a))
		sum = sum*math.Abs(at) + math.Abs(a)
	}
	d, _ := rf().Sub(v, rf().SetFloat64(got)).Float64()
	if math.Abs(d) <= 16*float64(len(c.Coef)+c.Fold)*ulp(f)*sum {
		return ""
	}
	w, _ := v.Float64()
	why := fmt.Sprintf("the polynomial of degree %d at %v in %d folds is %v, want %v", len(c.Coef)-1, at, c.Fold, got, w)
	if mismatch(f, out, c.summed()) == "" {
		why = foldsAdded + why
	}
	return why
}

func genFold(r *fw.R, b bool) FoldCase {
	f := fmtBits(b)
	c := FoldCase{PolyCase{F64: b, K: true, Range: rangeSize(r)}, r.Range(2, 5)}
	for k := r.N(9); k >= 0; k-- {
		x := fromExp(f, r.U64()&1, int64(r.Range(-4, 4)), frac(r, f))
		if r.P(1, 8) {
			x = f.Zero(0)
		}
		c.Coef = append(c.Coef, fw.Hex(x))
	}
	c.At = fw.Hex(fromExp(f, r.U64()&1, int64(r.Range(-6, 3)), frac(r, f)))
	if r.P(1, 10) {
		c.At = fw.Hex(f.Zero(0))
	}
	return c
}

func M01(x *fw.Ctx) {
	std(x, "polynomials of degree 0 to 12, moderate coefficients in two thirds of the cases and arbitrary ones otherwise, both coefficient orders; compared bit for bit with Horner's scheme in the reference arithmetic; evaluation in two to five folds compared with the exact value; non-trivial: degree at least 1 and a result that is not NaN; distinct by coefficients, order and point")
	for _, b := range []bool{false, true} {
		b := b
		fw.Run(x, fw.Stage[PolyCase]{Name: fmtBits(b).String(), N: x.Scale(12000, 300000), Gen: func(r *fw.R, i int) PolyCase { return genPoly(r, b) },
			Check: checkPoly, Shrink: shrinkPoly, Units: unitsPoly})
		fw.Run(x, fw.Stage[FoldCase]{Name: "folds-" + fmtBits(b).String(), N: x.Scale(3000, 60000), Gen: func(r *fw.R, i int) FoldCase { return genFold(r, b) },
			Check: checkFold, Shrink: func(c FoldCase) (out []FoldCase) {
				for _, p := range shrinkPoly(c.PolyCase) {
					out = append(out, FoldCase{p, c.Fold})
				}
				if c.Fold > 2 {
					out = append(out, FoldCase{c.PolyCase, c.Fold - 1})
				}
				return
			}, Finding: func(c FoldCase, why string) string {
				if strings.HasPrefix(why, foldsAdded) {
					return "folds-added"
				}
				return ""
			}, Units: func(c FoldCase) []fw.Unit {
				u := unitsPoly(c.PolyCase)
				u[0].Hash = fw.H(u[0].Hash, uint64(c.Fold))
				u[0].Label = fmt.Sprintf("%d folds", c.Fold)
				return u
			}})
	}
}

// ---- M02..M04

// FnCase evaluates an elementary function at several points.
type FnCase struct {
	Fn    string   `json:"fn"` // atan, sin, atan2
	F64   bool     `json:"f64"`
	Range uint     `json:"range"`
	SCS   bool     `json:"scs,omitempty"`
	X     []fw.Hex `json:"x"`
	Y     []fw.Hex `json:"y,omitempty"`
}

// tolerance is the accepted absolute error at v: the measured maximum on the
// pinned tree, doubled (see DESIGN.md).
func fnTol(fn string, f64 bool, want float64) float64 {
	switch {
	case f64 && fn == "atan2":
		return 2.2e-15
	case f64:
		return 1.5e-15
	case fn == "atan":
		return 4e-7
	}
	return 8e-7
}

func (c FnCase) at(i int) (x, y, want float64) {
	f := fmtBits(c.F64)
	x = f.Float(uint64(c.X[i]))
	switch c.Fn {
	case "atan":
		return x, 0, math.Atan(x)
	case "sin":
		return x, 0, math.Sin(x)
	}
	y = f.Float(uint64(c.Y[i]))
	return x, y, math.Atan2(y, x)
}

func checkFn(c FnCase) string {
	f := fmtBits(c.F64)
	e := engineFor(c.SCS)
	var outs, neg []float.FloatVar
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, f.E, f.M)
		for i := range c.X {
			x := ctx.NewFloat(e.In(uint64(c.X[i])))
			switch {
			case c.Fn == "atan" && c.F64:
				outs = append(outs, zmath.AtanRemez64(&ctx, x))
			case c.Fn == "atan":
				outs = append(outs, zmath.AtanRemez32(&ctx, x))
			case c.Fn == "sin" && c.F64:
				outs = append(outs, zmath.SinTaylor64(&ctx, x))
			case c.Fn == "sin":
				outs = append(outs, zmath.SinTaylor32(&ctx, x))
			default:
				outs = append(outs, zmath.Atan2(&ctx, ctx.NewFloat(e.In(uint64(c.Y[i]))), x))
			}
			if i == 0 && c.Fn == "atan" {
				y := ctx.NewFloat(e.In(f.Neg(uint64(c.X[0]))))
				if c.F64 {
					neg = append(neg, zmath.AtanRemez64(&ctx, y))
				} else {
					neg = append(neg, zmath.AtanRemez32(&ctx, y))
				}
			}
		}
	})
	if !r.Accepted {
		if len(c.X) > 1 {
			for i := range c.X {
				d := c
				d.X = c.X[i : i+1]
				if c.Y != nil {
					d.Y = c.Y[i : i+1]
				}
				if w := checkFn(d); w != "" {
					return w
				}
			}
		}
		return fmt.Sprintf("%s(%#x) is unprovable: %s", c.Fn, uint64(c.X[0]), r.Why)
	}
	for i, o := range outs {
		x, y, want := c.at(i)
		k, bad := compOf(o)
		if bad != "" {
			return fmt.Sprintf("%s(%v,%v): %s", c.Fn, x, y, bad)
		}
		if k.Abn != 0 {
			return fmt.Sprintf("%s(%v,%v) is not finite", c.Fn, x, y)
		}
		got := valueOf(f, k)
		diff := math.Abs(got - want)
		noteErr(c.Fn+f.String(), diff)
		if !(diff <= fnTol(c.Fn, c.F64, want)) {
			return fmt.Sprintf("%s(%v, %v) = %v, want %v (error %g)", c.Fn, x, y, got, want, diff)
		}
		if c.Fn != "atan2" && k.S != f.Sign(uint64(c.X[i])) {
			return fmt.Sprintf("%s(%v) has sign %d", c.Fn, x, k.S)
		}
		if c.Fn == "atan2" && math.Abs(want) > 1e-5 && math.Abs(want) < math.Pi-1e-5 && (k.S == 1) != (want < 0) {
			return fmt.Sprintf("atan2(%v,%v) = %v, want %v", y, x, got, want)
		}
	}
	if len(neg) > 0 {
		a, _ := compOf(outs[0])
		b, _ := compOf(neg[0])
		b.S = 1 - b.S
		if a != b {
			return fmt.Sprintf("atan(%#x) = %+v is not the negative of atan at the negated point: %+v", uint64(c.X[0]), a, b)
		}
	}
	return ""
}

// valueOf is the real value of components, which must be canonical.
func valueOf(f ref.Fmt, k ref.Comp) float64 {
	if k.Man == 0 {
		return 0
	}
	v := math.Ldexp(float64(k.Man), int(k.Exp)-int(f.M))
	if k.S == 1 {
		return -v
	}
	return v
}

// nearValue draws a float within a few ulps or a short distance of v.
func nearValue(r *fw.R, f ref.Fmt, v float64) uint64 {
	b := f.FromFloat(v)
	d := uint64(r.N(1 << uint(r.N(12))))
	if r.Bool() {
		b += d
	} else {
		b -= d
	}
	return b & f.Mask()
}

// magnitude draws a positive float with a spread of exponents.
func magnitude(r *fw.R, f ref.Fmt, lo, hi int) uint64 {
	return fromExp(f, 0, int64(r.Range(lo, hi)), frac(r, f))
}

func genAtan(r *fw.R, f64 bool, n int) FnCase {
	f := fmtBits(f64)
	c := FnCase{Fn: "atan", F64: f64, Range: rangeSize(r), SCS: r.P(1, 4)}
	for k := 0; k < n; k++ {
		var b uint64
		switch r.N(6) {
		case 0:
			b = finite(r, f)
		case 1:
			b = nearValue(r, f, 1)
		case 2:
			b = magnitude(r, f, -int(f.M)-3, int(f.M)+3)
		case 3, 4:
			b = f.FromFloat(float64(r.U64()>>11) / (1 << 53))
		default:
			b = magnitude(r, f, -3, 3)
		}
		if f.IsZero(b) || !f.Finite(b) {
			b = f.FromFloat(0.5)
		}
		if r.Bool() {
			b = f.Neg(b)
		}
		c.X = append(c.X, fw.Hex(b))
	}
	return c
}

func genSin(r *fw.R, f64 bool, n int) FnCase {
	f := fmtBits(f64)
	c := FnCase{Fn: "sin", F64: f64, Range: rangeSize(r), SCS: r.P(1, 4)}
	top := f.FromFloat(math.Pi)
	for k := 0; k < n; k++ {
		var b uint64
		switch r.N(8) {
		case 0:
			b = nearValue(r, f, math.Pi/2)
		case 1:
			b = top - uint64(r.N(1<<uint(r.N(14))))
		case 2:
			b = magnitude(r, f, -int(f.M)-3, 0)
		case 3:
			b = f.Abs(finite(r, f))
		default:
			b = f.FromFloat(float64(r.U64()>>11) / (1 << 53) * math.Pi)
		}
		if b == 0 {
			b = 1
		}
		if b > top {
			b = top
		}
		if r.P(2, 5) {
			b = f.Neg(b)
		}
		c.X = append(c.X, fw.Hex(b))
	}
	return c
}

func genAtan2(r *fw.R, n int) FnCase {
	f := ref.F64
	c := FnCase{Fn: "atan2", F64: true, Range: rangeSize(r), SCS: r.P(1, 4)}
	for k := 0; k < n; k++ {
		for {
			x := fromExp(f, r.U64()&1, int64(r.Range(-300, 300)), frac(r, f))
			d := int64(r.Range(-60, 60))
			if r.Bool() {
				d = int64(r.Range(-2, 2))
			}
			y := fromExp(f, r.U64()&1, f.Comp(x).Exp+d, frac(r, f))
			if r.P(1, 6) {
				x, y = finite(r, f), finite(r, f)
			}
			if r.P(1, 8) { // the diagonals
				y = f.Make(r.U64()&1, f.BExp(x), f.Frac(x))
			}
			q := f.Div(y, x)
			if f.Finite(q) && f.BExp(q) != 0 && f.Finite(x) && f.Finite(y) {
				c.X, c.Y = append(c.X, fw.Hex(x)), append(c.Y, fw.Hex(y))
				break
			}
		}
	}
	return c
}

func shrinkFn(c FnCase) []FnCase {
	var out []FnCase
	if len(c.X) > 1 {
		for i := range c.X {
			d := c
			d.X = c.X[i : i+1]
			if c.Y != nil {
				d.Y = c.Y[i : i+1]
			}
			out = append(out, d)
		}
		return out
	}
	f := fmtBits(c.F64)
	for _, v := range simpler(f, uint64(c.X[0])) {
		d := c
		d.X = []fw.Hex{fw.Hex(v)}
		x, _, _ := d.at(0)
		if c.Fn == "sin" && math.Abs(x) > 3.14159 || x == 0 {
			continue
		}
		out = append(out, d)
	}
	return out
}

func unitsFn(c FnCase) []fw.Unit {
	var us []fw.Unit
	for i := range c.X {
		h := fw.H(fw.HS(c.Fn), uint64(c.X[i]))
		if c.Y != nil {
			h = fw.H(h, uint64(c.Y[i]))
		}
		x, y, _ := c.at(i)
		lab := "pos"
		if x < 0 {
			lab = "neg"
		}
		if c.Fn == "atan2" {
			if y < 0 {
				lab += "-neg"
			} else {
				lab += "-pos"
			}
		}
		us = append(us, fw.Unit{Hash: h, NonTrivial: true, Label: lab})
	}
	return us
}

func fnStages(x *fw.Ctx, n int, gens map[string]func(r *fw.R, i int) FnCase) {
	for _, name := range []string{"f32", "f64"} {
		if g := gens[name]; g != nil {
			fw.Run(x, fw.Stage[FnCase]{Name: name, N: n, Gen: g, Check: checkFn, Shrink: shrinkFn, Units: unitsFn})
		}
	}
	x.Extra("largest_error", errReport())
}

func M02(x *fw.Ctx) {
	std(x, "finite non-zero arguments over the whole exponent range, dense around 1 and in (0,1), both signs, both formats; compared with the library arctangent, with its sign, and with the value at the negated argument; distinct by argument")
	fnStages(x, x.Scale(1000, 40000), map[string]func(r *fw.R, i int) FnCase{
		"f32": func(r *fw.R, i int) FnCase { return genAtan(r, false, 12) },
		"f64": func(r *fw.R, i int) FnCase { return genAtan(r, true, 6) },
	})
}

func M03(x *fw.Ctx) {
	std(x, "arguments in [-pi, pi] without 0, dense near 0, pi/2 and pi, subnormals included, both formats; compared with the library sine and its sign; distinct by argument")
	fnStages(x, x.Scale(1000, 40000), map[string]func(r *fw.R, i int) FnCase{
		"f32": func(r *fw.R, i int) FnCase { return genSin(r, false, 8) },
		"f64": func(r *fw.R, i int) FnCase { return genSin(r, true, 6) },
	})
}

func M04(x *fw.Ctx) {
	std(x, "pairs in all four quadrants whose quotient is a normal number, quotients near 1 in half of the cases and up to 2^60 otherwise, binary64; compared with the library function; distinct by pair")
	fnStages(x, x.Scale(1500, 60000), map[string]func(r *fw.R, i int) FnCase{
		"f64": func(r *fw.R, i int) FnCase { return genAtan2(r, 6) },
	})
}

// ---- M05

type AdviceCase struct {
	F64 bool   `json:"f64"`
	V   fw.Hex `json:"v"`
}

func checkAdvice(c AdviceCase) string {
	f := fmtBits(c.F64)
	fn := hint.PrecomputeHint32
	if c.F64 {
		fn = hint.PrecomputeHint64
	}
	out := make([]*big.Int, 16)
	for i := range out {
		out[i] = new(big.Int)
	}
	var err error
	if p := guarded(func() error {
		err = fn(eng.Modulus(), []*big.Int{bigu(uint64(c.V)), big.NewInt(int64(f.E)), big.NewInt(int64(f.M))}, out)
		return nil
	}); p != nil {
		err = p
	}
	if err != nil {
		return fmt.Sprintf("no advice for %#x: %v", uint64(c.V), err)
	}
	v := f.Float(uint64(c.V))
	want := halfAngles(v)
	names := []string{"tan(v/2)", "sin(v)", "sin(v/2)", "cos(v/2)"}
	e := eng.New()
	fv := make([]float.FloatVar, 4)
	for i := range fv {
		o := out[4*i:]
		fv[i] = float.FloatVar{Sign: e.In(modz(o[0])), Exponent: e.In(modz(o[1])), Mantissa: e.In(modz(o[2])), IsAbnormal: e.In(modz(o[3]))}
		k, bad := compOf(fv[i])
		if bad != "" {
			return fmt.Sprintf("%s for %v: %s", names[i], v, bad)
		}
		if k.Abn != 0 {
			return fmt.Sprintf("%s for %v is not finite", names[i], v)
		}
		if !canonical(f, k) {
			return fmt.Sprintf("%s for %v is not a well-formed float: %+v", names[i], v, k)
		}
		got := valueOf(f, k)
		tol := math.Ldexp(math.Abs(want[i]), -int(f.M)+2) + math.Ldexp(1, int(f.ENorm())-int(f.M))
		if i == 1 || i == 3 { // cancellation near pi
			tol += math.Ldexp(1, -52)
		}
		if i == 0 { // the argument of the tangent is rounded
			tol += math.Abs(want[i]) * math.Abs(want[i]) * math.Ldexp(1, -52)
		}
		if !(math.Abs(got-want[i]) <= tol) {
			return fmt.Sprintf("%s for %v (%#x) is %v, want %v", names[i], v, uint64(c.V), got, want[i])
		}
		if s := math.Signbit(want[i]); math.Abs(want[i]) > 1e-6 && s != (k.S == 1) {
			return fmt.Sprintf("%s for %v has the wrong sign", names[i], v)
		}
	}
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, 8, f.E, f.M)
		tol := func(a, b float.FloatVar) {
			if c.F64 {
				ctx.AssertIsEqualOrCustomULP64(a, b, 1.0)
			} else {
				ctx.AssertIsEqualOrCustomULP32(a, b, 1.0)
			}
		}
		al, be, ga, de := fv[0], fv[1], fv[2], fv[3]
		one := ctx.NewConstant(f.FromFloat(1))
		two := ctx.NewConstant(f.FromFloat(2))
		tol(ctx.Add(ctx.Mul(ga, ga), ctx.Mul(de, de)), one)
		tol(ctx.Mul(al, de), ga)
		tol(ctx.Mul(two, ctx.Mul(ga, de)), be)
		if c.F64 { // the binary64 circuit allows these one unit only
			ctx.AssertIsEqualOrULP(ctx.Mul(al, de), ga)
			ctx.AssertIsEqualOrULP(ctx.Mul(two, ctx.Mul(ga, de)), be)
		}
	})
	if !r.Accepted {
		return fmt.Sprintf("identity checks fail for %v (%#x): %s", v, uint64(c.V), r.Why)
	}
	return ""
}

// canonical: the components of some float of the format.
func canonical(f ref.Fmt, k ref.Comp) bool {
	if k.Man == 0 {
		return k.Exp == f.Comp(f.Zero(0)).Exp
	}
	if k.Man>>f.M != 1 || k.Exp >= f.EMax() || k.Exp < f.ENorm()-int64(f.M) {
		return false
	}
	if k.Exp < f.ENorm() {
		return k.Man&(1<<uint(f.ENorm()-k.Exp)-1) == 0
	}
	return true
}

func genAdvice(r *fw.R, f64 bool) AdviceCase {
	f := fmtBits(f64)
	top := f.FromFloat(math.Pi)
	var b uint64
	switch r.N(10) {
	case 0:
		b = 0
	case 1:
		b = f.FromFloat(math.Pi / 2)
		b += uint64(r.N(9)) - 4
	case 2:
		b = top - uint64(r.N(6))
	case 3:
		b = uint64(r.N(1000))
	case 4:
		b = f.Abs(finite(r, f))
	case 5:
		b = magnitude(r, f, -int(f.M)-3, 0)
	default:
		b = f.FromFloat(float64(r.U64()>>11) / (1 << 53) * math.Pi)
	}
	if b > top {
		b = top
	}
	if r.Bool() {
		b = f.Neg(b)
	}
	return AdviceCase{f64, fw.Hex(b)}
}

func M05(x *fw.Ctx) {
	std(x, "angles in [-pi, pi]: zeros, subnormals, neighbourhoods of pi/2 and pi, uniform and log-uniform, both formats; the advice must be canonical floats, agree with the library functions, and satisfy the identity checks; distinct by angle")
	for _, b := range []bool{false, true} {
		b := b
		fw.Run(x, fw.Stage[AdviceCase]{Name: fmtBits(b).String(), N: x.Scale(9000, 600000), Gen: func(r *fw.R, i int) AdviceCase { return genAdvice(r, b) },
			Check: checkAdvice, Units: func(c AdviceCase) []fw.Unit {
				return []fw.Unit{{Hash: fw.H(uint64(c.V)), NonTrivial: fmtBits(b).Abs(uint64(c.V)) != 0, Label: classOf(fmtBits(b), uint64(c.V))}}
			}})
	}
}
