package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/util"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/ref"
)

const ruleF = "operand bit patterns drawn by an edge-biased generator (special values, exponents near zero, bias, over- and underflow, sparse/dense/halfway significands, pairs built for alignment distance, cancellation, halfway and subnormal results), the same for a dozen other formats (half, bfloat16, TF32, ... up to 63 bits), plus every operand pair of the tiny formats E5M2 and E4M3; a case is non-trivial when no operand is NaN and the specification decides it; distinct by format, operation and operands"

var assumeF = []string{
	"circuits are evaluated on field elements of the BN254 scalar field by the harness's own engine, which gives each front-end call the meaning of its constraints; C01 and C02 compare it with compiled systems",
	"reference: the processor's IEEE-754 arithmetic for binary32/binary64 and an independent big-integer implementation for the tiny formats (cross-checked by the self test)",
}

func std(x *fw.Ctx, rule string) {
	x.Rule = rule
	x.Assume = append(x.Assume, assumeF...)
}

// fstages runs the usual stages of a float operation.
func fstages(x *fw.Ctx, names []string, n32, n64 int, item func(r *fw.R, f ref.Fmt) Item) {
	const per = 48
	for _, t := range []struct {
		name string
		f    ref.Fmt
		n    int
	}{{"f32", ref.F32, n32}, {"f64", ref.F64, n64}} {
		fw.Run(x, fw.Stage[FCase]{Name: t.name, N: t.n / per, Gen: batchGen(t.f, per, item), Check: checkF, Shrink: shrinkF, Units: unitsF})
	}
	fw.Run(x, fw.Stage[FCase]{Name: "other-formats", N: n32 / 2 / per, Gen: otherGen(per, item), Check: checkF, Shrink: shrinkF, Units: unitsF})
	for _, f := range []ref.Fmt{E5M2, E4M3} {
		n, g := pairsExhaustive(f, names)
		fw.Run(x, fw.Stage[FCase]{Name: "all-" + f.String(), N: n, Gen: g, Check: checkF, Shrink: shrinkF, Units: unitsF})
	}
}

// otherGen batches operations of one of the other formats.
func otherGen(per int, item func(r *fw.R, f ref.Fmt) Item) func(r *fw.R, i int) FCase {
	return func(r *fw.R, i int) FCase { return batchGen(otherFormat(r), per, item)(r, i) }
}

func pick(r *fw.R, names []string) string { return names[r.N(len(names))] }

func itemPair(names []string, pair func(r *fw.R, f ref.Fmt) (uint64, uint64)) func(r *fw.R, f ref.Fmt) Item {
	return func(r *fw.R, f ref.Fmt) Item {
		a, b := pair(r, f)
		return Item{Op: pick(r, names), X: fw.Hex(a), Y: fw.Hex(b)}
	}
}

func itemOne(names []string, one func(r *fw.R, f ref.Fmt) uint64) func(r *fw.R, f ref.Fmt) Item {
	return func(r *fw.R, f ref.Fmt) Item { return Item{Op: pick(r, names), X: fw.Hex(one(r, f))} }
}

func F03(x *fw.Ctx) {
	std(x, ruleF)
	n := x.Scale(120000, 3000000)
	fstages(x, []string{"add", "sub"}, n, n, itemPair([]string{"add", "sub"}, addPair))
}

func F04(x *fw.Ctx) {
	std(x, ruleF)
	n := x.Scale(120000, 3000000)
	fstages(x, []string{"mul"}, n, n, itemPair([]string{"mul"}, mulPair))
}

func F05(x *fw.Ctx) {
	std(x, ruleF)
	n := x.Scale(120000, 3000000)
	fstages(x, []string{"div"}, n, n, itemPair([]string{"div"}, divPair))
}

func F06(x *fw.Ctx) {
	std(x, ruleF)
	n := x.Scale(120000, 3000000)
	fstages(x, []string{"sqrt"}, n, n, itemOne([]string{"sqrt"}, sqrtArg))
}

var cmpOps = []string{"lt", "le", "gt", "ge"}

func F07(x *fw.Ctx) {
	std(x, ruleF)
	n := x.Scale(150000, 3000000)
	names := append([]string{"sellt"}, cmpOps...)
	fstages(x, names, n, n, itemPair(names, nearPair))
}

func F08(x *fw.Ctx) {
	std(x, ruleF)
	n := x.Scale(150000, 3000000)
	names := []string{"trunc", "floor", "ceil"}
	fstages(x, names, n, n, itemOne(names, roundArg))
}

// integral draws integral floats of every magnitude, and values that must not
// convert.
func integral(r *fw.R, f ref.Fmt) uint64 {
	lim := int(f.M + f.E)
	switch r.N(8) {
	case 0:
		s := []uint64{f.Zero(0), f.Zero(1), f.Inf(0), f.Inf(1), f.NaN(), f.Make(1, 1<<f.E-1, 1)}
		return s[r.N(len(s))]
	case 1: // around the supported magnitude
		return fromExp(f, r.U64()&1, int64(lim+r.Range(-2, 3)), frac(r, f))
	case 2: // beyond
		e := min(int64(lim+1)+int64(r.N(max(1, int(f.EMax())-lim))), int64(f.EMax()))
		return fromExp(f, r.U64()&1, e, frac(r, f))
	case 3: // wide, exponent above the precision
		return fromExp(f, r.U64()&1, int64(f.M)+int64(r.N(int(f.E)+1)), frac(r, f))
	}
	k := 1 + r.N(int(f.M)+1)
	return f.Round(r.U64()&1, new(big.Int).SetUint64(r.U64()>>(64-k)), 0, false)
}

func F09(x *fw.Ctx) {
	std(x, "integral floats of every magnitude including both zeros, powers around the supported limit (exponent M+E), larger ones, infinities and NaN, plus composition with truncation/floor/ceiling of arbitrary floats; non-trivial: not NaN")
	n := x.Scale(40000, 1000000)
	for _, t := range []struct {
		name string
		f    ref.Fmt
	}{{"f32", ref.F32}, {"f64", ref.F64}} {
		fw.Run(x, fw.Stage[FCase]{Name: t.name, N: n / 40, Gen: batchGen(t.f, 40, itemOne([]string{"toint"}, integral)), Check: checkF, Shrink: shrinkF, Units: unitsF})
		f := t.f
		fw.Run(x, fw.Stage[FCase]{Name: t.name + "-rounded", N: n / 40, Gen: batchGen(f, 40, itemOne([]string{"trunc", "floor", "ceil"}, func(r *fw.R, f ref.Fmt) uint64 {
			for {
				v := roundArg(r, f)
				if f.Finite(v) && f.Comp(v).Exp < int64(f.M+f.E) {
					return v
				}
			}
		})), Check: checkRoundToInt, Shrink: shrinkF, Units: unitsF})
	}
	fw.Run(x, fw.Stage[FCase]{Name: "other-formats", N: n / 2 / 40, Gen: otherGen(40, itemOne([]string{"toint"}, integral)), Check: checkF, Shrink: shrinkF, Units: unitsF})
	fw.Run(x, fw.Stage[FCase]{Name: "all-E5M2", N: 256, Gen: func(r *fw.R, i int) FCase {
		return FCase{E: 5, M: 2, Range: rangeSize(r), Items: []Item{{Op: "toint", X: fw.Hex(i)}}}
	}, Check: checkF, Shrink: shrinkF, Units: unitsF})
	fw.Run(x, fw.Stage[FCase]{Name: "all-E4M3", N: 256, Gen: func(r *fw.R, i int) FCase {
		return FCase{E: 4, M: 3, Range: rangeSize(r), Items: []Item{{Op: "toint", X: fw.Hex(i)}}}
	}, Check: checkF, Shrink: shrinkF, Units: unitsF})
}

// checkRoundToInt converts the circuit's own rounding results.
func checkRoundToInt(c FCase) string {
	f := c.f()
	e := engineFor(c.SCS)
	why := ""
	r := e.Run(func(api frontend.API) {
		ctx := float.NewContext(api, c.Range, c.E, c.M)
		for _, it := range c.Items {
			mode := map[string]int{"trunc": 0, "floor": 1, "ceil": 2}[it.Op]
			want, ok := f.Int(f.Integral(uint64(it.X), mode))
			if !ok {
				continue
			}
			out := ctx.ToInt(runItem(e, &ctx, f, it).(float.FloatVar))
			if g := eng.Big(out); g.Cmp(new(big.Int).Mod(want, eng.Modulus())) != 0 {
				why = fmt.Sprintf("ToInt of %v: got %s, want %s", it, g, want)
				return
			}
		}
	})
	if why != "" {
		return why
	}
	if !r.Accepted {
		return "unprovable: " + r.Why
	}
	return ""
}

func F10(x *fw.Ctx) {
	std(x, "pairs of floats that are equal, adjacent, of opposite sign, or NaNs with different signs and payloads, plus every pair of E5M2 and E4M3; non-trivial: no NaN operand")
	n := x.Scale(20000, 400000)
	pair := func(r *fw.R, f ref.Fmt) (uint64, uint64) {
		if r.Bool() {
			a := anyFloat(r, f)
			if f.IsNaN(a) {
				return a, f.Make(r.U64()&1, 1<<f.E-1, r.U64()|1)
			}
			return a, a
		}
		return nearPair(r, f)
	}
	fstages(x, []string{"eq"}, n, n, itemPair([]string{"eq"}, pair))
	// all pairs of an operation's result against the right and a wrong value
	for _, t := range []struct {
		name string
		f    ref.Fmt
	}{{"f32", ref.F32}, {"f64", ref.F64}} {
		f := t.f
		fw.Run(x, fw.Stage[ResCase]{Name: "result-" + t.name, N: x.Scale(12000, 200000), Gen: func(r *fw.R, i int) ResCase { return genRes(r, f) }, Check: checkRes})
	}
}

// ResCase asserts the result of an operation against a claimed value.
type ResCase struct {
	E     uint
	M     uint
	Range uint
	It    Item
	Claim fw.Hex
}

func genRes(r *fw.R, f ref.Fmt) ResCase {
	names := []string{"add", "mul", "div", "sqrt", "sub", "floor", "trunc"}
	op := pick(r, names)
	var a, b uint64
	switch op {
	case "add", "sub":
		a, b = addPair(r, f)
	case "mul":
		a, b = mulPair(r, f)
	case "div":
		a, b = divPair(r, f)
	case "sqrt":
		a = sqrtArg(r, f)
	default:
		a = roundArg(r, f)
	}
	it := Item{Op: op, X: fw.Hex(a), Y: fw.Hex(b)}
	w, _, _ := ops[op].want(f, it)
	claim := w.(uint64)
	switch r.N(5) {
	case 0:
		claim = f.Neg(claim)
	case 1:
		claim = (claim + 1) & f.Mask()
	case 2:
		claim = (claim - 1) & f.Mask()
	}
	return ResCase{f.E, f.M, rangeSize(r), it, fw.Hex(claim)}
}

func checkRes(c ResCase) string {
	f := fmtOf(c.E, c.M)
	w, _, _ := ops[c.It.Op].want(f, c.It)
	want := f.Same(w.(uint64), uint64(c.Claim))
	e := eng.New()
	r := e.Run(func(api frontend.API) {
		ctx := float.NewContext(api, c.Range, c.E, c.M)
		out := runItem(e, &ctx, f, c.It).(float.FloatVar)
		ctx.AssertIsEqual(out, ctx.NewFloat(e.In(uint64(c.Claim))))
	})
	if r.Accepted != want {
		return fmt.Sprintf("asserting %v == %#x: accepted=%v, want %v (%s)", c.It, uint64(c.Claim), r.Accepted, want, r.Why)
	}
	return ""
}

func F11(x *fw.Ctx) {
	std(x, "pairs of floats at distances 0, 1, 2 and a few units in the last place, across powers of two, signs and classes, with tolerances at, just below and just above the rounded difference; non-trivial: no NaN operand and the specification decides the case (one-unit assertion: subnormal neighbours and infinity against the largest finite float are left open)")
	n := x.Scale(24000, 500000)
	item := func(r *fw.R, f ref.Fmt) Item {
		if r.Bool() {
			a, b := nearPair(r, f)
			return Item{Op: "ulp", X: fw.Hex(a), Y: fw.Hex(b)}
		}
		var a, b uint64
		if r.Bool() {
			a, b = nearPair(r, f)
		} else {
			a, b = addPair(r, f)
			if r.P(3, 4) {
				b = f.Abs(b) | f.Zero(f.Sign(a))
			}
		}
		d := f.Abs(f.Sub(a, b))
		var tol uint64
		switch r.N(6) {
		case 0:
			tol = f.FromFloat(1)
		case 1:
			tol = d
		case 2:
			tol = d + 1
		case 3:
			if tol = d; d > 0 {
				tol--
			}
		case 4:
			tol = 0
		default:
			tol = f.Abs(anyFloat(r, f))
		}
		if f.IsNaN(tol) {
			tol = f.FromFloat(0.5)
		}
		return Item{Op: "tol", X: fw.Hex(a), Y: fw.Hex(b), Tol: fw.Hex(tol)}
	}
	for _, t := range []struct {
		name string
		f    ref.Fmt
	}{{"f32", ref.F32}, {"f64", ref.F64}} {
		fw.Run(x, fw.Stage[FCase]{Name: t.name, N: n / 24, Gen: batchGen(t.f, 24, item), Check: checkF, Shrink: shrinkF, Units: unitsF})
	}
	for _, f := range []ref.Fmt{E5M2, E4M3} {
		n, g := pairsExhaustive(f, []string{"ulp"})
		fw.Run(x, fw.Stage[FCase]{Name: "all-" + f.String(), N: n, Gen: g, Check: checkF, Shrink: shrinkF, Units: unitsF})
	}
}

// ---- F01

// DecCase gives an arbitrary field element as a float input.
type DecCase struct {
	E, M  uint
	Range uint
	SCS   bool
	V     string // decimal
	How   int    `json:",omitempty"` // how the element enters: inWire, inLit, inExpr
}

func F01(x *fw.Ctx) {
	std(x, ruleF+"; for rejection: field elements just outside the format, multiples and neighbours of powers of two, negative values and random elements")
	n := x.Scale(200000, 4000000)
	fstages(x, []string{"id"}, n, n, itemOne([]string{"id"}, anyFloat))
	p := eng.Modulus()
	gen := func(f ref.Fmt) func(r *fw.R, i int) DecCase {
		return func(r *fw.R, i int) DecCase {
			w := f.Width()
			top := new(big.Int).Lsh(big.NewInt(1), w)
			low := new(big.Int).SetUint64(anyFloat(r, f))
			v := new(big.Int)
			switch r.N(7) {
			case 0: // just above
				v.Add(top, low)
			case 1: // a higher bit set
				v.Lsh(big.NewInt(1), w+uint(r.N(int(253-w))))
				v.Add(v, low)
			case 2: // negative of a pattern
				v.Neg(low)
				if v.Sign() == 0 {
					v.SetInt64(-1)
				}
			case 3:
				v.SetInt64(-1 - int64(r.N(1000)))
			case 4: // random element
				for k := 0; k < 4; k++ {
					v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(r.U64()))
				}
			case 5: // pattern divided by a small power of two, in the field
				v.Mul(low, new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), uint(1+r.N(int(w)))), p))
			default:
				v.Add(top, big.NewInt(int64(r.N(3)-1)))
			}
			v.Mod(v, p)
			return DecCase{f.E, f.M, rangeSize(r), r.P(1, 4), v.String(), r.Pick(inWire, inWire, inLit, inExpr)}
		}
	}
	for _, t := range []struct {
		name string
		f    ref.Fmt
	}{{"f32", ref.F32}, {"f64", ref.F64}, {"E5M2", E5M2}, {"E4M3", E4M3}} {
		fw.Run(x, fw.Stage[DecCase]{Name: "element-" + t.name, N: x.Scale(15000, 300000), Gen: gen(t.f), Check: checkDec})
	}
	fw.Run(x, fw.Stage[DecCase]{Name: "element-other-formats", N: x.Scale(15000, 300000), Gen: func(r *fw.R, i int) DecCase { return gen(otherFormat(r))(r, i) }, Check: checkDec})
}

func checkDec(c DecCase) string {
	f := fmtOf(c.E, c.M)
	v, ok := new(big.Int).SetString(c.V, 10)
	if !ok {
		return "harness: bad value"
	}
	in := v.BitLen() <= int(f.Width())
	e := engineFor(c.SCS)
	var out float.FloatVar
	r := e.Run(func(api frontend.API) {
		ctx := float.NewContext(api, c.Range, c.E, c.M)
		switch c.How {
		case inLit:
			out = ctx.NewFloat(v)
		case inExpr:
			out = ctx.NewFloat(sumOf(api, e.In(v)))
		default:
			out = ctx.NewFloat(e.In(v))
		}
	})
	if r.Accepted != in {
		return fmt.Sprintf("element %s given as float: accepted=%v, want %v (%s)", c.V, r.Accepted, in, r.Why)
	}
	if in {
		return mismatch(f, out, v.Uint64())
	}
	return ""
}

// ---- F02

// CodecCase exercises the component codec.
type CodecCase struct {
	E, M uint
	V    fw.Hex
}

func F02(x *fw.Ctx) {
	std(x, ruleF)
	n := x.Scale(200000, 4000000)
	for _, t := range []struct {
		name string
		f    ref.Fmt
	}{{"f32", ref.F32}, {"f64", ref.F64}, {"E5M2", E5M2}, {"E4M3", E4M3}} {
		f := t.f
		k := n
		if f.M < 8 {
			k = 256
		}
		fw.Run(x, fw.Stage[CodecCase]{Name: t.name, N: k, Gen: func(r *fw.R, i int) CodecCase {
			if f.M < 8 {
				return CodecCase{f.E, f.M, fw.Hex(i)}
			}
			return CodecCase{f.E, f.M, fw.Hex(anyFloat(r, f))}
		}, Check: checkCodec, Shrink: func(c CodecCase) []CodecCase {
			var out []CodecCase
			for _, v := range simpler(fmtOf(c.E, c.M), uint64(c.V)) {
				out = append(out, CodecCase{c.E, c.M, fw.Hex(v)})
			}
			return out
		}, Units: func(c CodecCase) []fw.Unit {
			f := fmtOf(c.E, c.M)
			return []fw.Unit{{Hash: fw.H(uint64(c.E), uint64(c.V)), NonTrivial: !f.IsNaN(uint64(c.V)), Label: classOf(f, uint64(c.V))}}
		}})
	}
	for _, f := range []ref.Fmt{ref.F32, ref.F64} {
		fw.Run(x, fw.Stage[CompCase]{Name: "refuse-" + f.String(), N: n / 2, Gen: func(r *fw.R, i int) CompCase { return genComps(r, f) }, Check: checkComps, Units: func(c CompCase) []fw.Unit {
			lab := "denotes a number"
			if !compsValid(fmtOf(c.E, c.M), c) {
				lab = "denotes none"
			}
			return []fw.Unit{{Hash: fw.H(uint64(c.E), c.Sign, uint64(c.Exp), uint64(c.Man), c.Abn), NonTrivial: true, Label: lab}}
		}})
	}
	item := func(r *fw.R, f ref.Fmt) Item { return Item{Op: "eq", X: fw.Hex(anyFloat(r, f))} }
	for _, t := range []struct {
		name string
		f    ref.Fmt
	}{{"f32", ref.F32}, {"f64", ref.F64}} {
		f := t.f
		fw.Run(x, fw.Stage[FCase]{Name: "const-eq-input-" + t.name, N: n / 4 / 40, Gen: func(r *fw.R, i int) FCase {
			c := FCase{E: f.E, M: f.M, Range: rangeSize(r)}
			for k := 0; k < 40; k++ {
				it := item(r, f)
				it.Y = it.X
				it.Inx = inConst
				c.Items = append(c.Items, it)
			}
			return c
		}, Check: checkF, Shrink: shrinkF, Units: unitsF})
	}
}

// CompCase is a float given by its components, which need not fit together.
type CompCase struct {
	E, M uint
	Sign uint64
	Exp  int64
	Man  fw.Hex
	Abn  uint64
}

// compRange is the exponent of zero, the least normal one, and that of infinity.
func compRange(f ref.Fmt) (zero, normal, inf int64) {
	inf = int64(1) << (f.E - 1)
	normal = 2 - inf
	return normal - 1 - int64(f.M), normal, inf
}

func compsValid(f ref.Fmt, c CompCase) bool {
	zero, normal, inf := compRange(f)
	switch {
	case c.Abn == 1:
		return c.Exp == inf
	case c.Man == 0:
		return c.Exp == zero
	case c.Exp >= normal:
		return c.Exp < inf
	}
	d := uint(normal - c.Exp)
	return c.Exp > zero && uint64(c.Man)>>d<<d == uint64(c.Man)
}

// genComps makes a significand with its leading bit set, or zero with an
// exponent below the normal ones, and any exponent from that of zero to that of
// infinity.
func genComps(r *fw.R, f ref.Fmt) CompCase {
	zero, normal, inf := compRange(f)
	c := CompCase{E: f.E, M: f.M, Sign: r.U64() & 1}
	one := uint64(1) << f.M
	c.Exp = zero + int64(r.N(int(inf-zero+1)))
	switch r.N(6) {
	case 0, 1:
		c.Exp = zero + int64(r.N(int(f.M+3)))
	case 2:
		c.Exp = inf - int64(r.N(3))
	case 3:
		c.Exp = zero
	}
	c.Man = fw.Hex(one | r.U64()&(one-1))
	if d := normal - c.Exp; d > 0 && r.P(2, 3) { // clear what does not fit, or all but one bit of it
		d -= int64(r.N(2))
		c.Man = fw.Hex(uint64(c.Man) >> uint(d) << uint(d))
	}
	if r.P(1, 6) {
		c.Man = fw.Hex(one)
	}
	if c.Exp < normal && r.P(1, 4) {
		c.Man = 0
	}
	if c.Exp == inf && r.P(4, 5) || r.P(1, 12) {
		c.Abn = 1
		if c.Exp == inf {
			c.Man = fw.Hex(one * (r.U64() & 1))
		}
	}
	return c
}

func checkComps(c CompCase) string {
	f := fmtOf(c.E, c.M)
	comps := []*big.Int{new(big.Int).SetUint64(c.Sign), big.NewInt(c.Exp), new(big.Int).SetUint64(uint64(c.Man)), new(big.Int).SetUint64(c.Abn)}
	got, refused := func() (g uint64, refused bool) {
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		if f == ref.F32 {
			return uint64(math.Float32bits(util.ComponentsToF32(comps))), false
		}
		return math.Float64bits(util.ComponentsToF64(comps)), false
	}()
	valid := compsValid(f, c)
	switch {
	case valid && refused:
		return fmt.Sprintf("components %v are refused", comps)
	case !valid && !refused:
		return fmt.Sprintf("components %v, which denote no number, become %#x", comps, got)
	case valid:
		v := float.FloatVar{Sign: comps[0], Exponent: comps[1], Mantissa: comps[2], IsAbnormal: comps[3]}
		if w := mismatch(f, v, got); w != "" {
			return fmt.Sprintf("components %v become %#x: %s", comps, got, w)
		}
	}
	return ""
}

func checkCodec(c CodecCase) (why string) {
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprintf("codec panics on %#x: %v", uint64(c.V), p)
		}
	}()
	f := fmtOf(c.E, c.M)
	b := uint64(c.V)
	comps := util.ComponentsOf(b, uint64(c.E), uint64(c.M))
	chk := func(what string, comps []*big.Int) string {
		v := float.FloatVar{Sign: comps[0], Exponent: comps[1], Mantissa: comps[2], IsAbnormal: comps[3]}
		if w := mismatch(f, v, b); w != "" {
			return fmt.Sprintf("%s(%#x): %s", what, b, w)
		}
		return ""
	}
	if w := chk("ComponentsOf", comps[:]); w != "" {
		return w
	}
	switch f {
	case ref.F32:
		v := math.Float32frombits(uint32(b))
		cs := util.F32ToComponents(v)
		if w := chk("F32ToComponents", cs[:]); w != "" {
			return w
		}
		g := util.ComponentsToF32(util.ComponentsOf(b, 8, 23))
		if !f.Same(uint64(math.Float32bits(g)), b) {
			return fmt.Sprintf("ComponentsToF32(ComponentsOf(%#x)) = %#x", b, math.Float32bits(g))
		}
		return constCheck(f, b, func(ctx *float.Context) float.FloatVar { return ctx.NewF32Constant(v) })
	case ref.F64:
		v := math.Float64frombits(b)
		cs := util.F64ToComponents(v)
		if w := chk("F64ToComponents", cs[:]); w != "" {
			return w
		}
		g := util.ComponentsToF64(util.ComponentsOf(b, 11, 52))
		if !f.Same(math.Float64bits(g), b) {
			return fmt.Sprintf("ComponentsToF64(ComponentsOf(%#x)) = %#x", b, math.Float64bits(g))
		}
		return constCheck(f, b, func(ctx *float.Context) float.FloatVar { return ctx.NewF64Constant(v) })
	}
	return constCheck(f, b, func(ctx *float.Context) float.FloatVar { return ctx.NewConstant(b) })
}

func constCheck(f ref.Fmt, b uint64, mk func(ctx *float.Context) float.FloatVar) string {
	ctx := float.NewContext(eng.New(), 8, f.E, f.M)
	if w := mismatch(f, mk(&ctx), b); w != "" {
		return fmt.Sprintf("constant %#x: %s", b, w)
	}
	if w := mismatch(f, ctx.NewConstant(b), b); w != "" {
		return fmt.Sprintf("NewConstant(%#x): %s", b, w)
	}
	return ""
}
