package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/gadget"

	"verif/harness/eng"
	"verif/harness/fw"
)

// ---- G01 range checks

type RC struct {
	V    string `json:"v"` // decimal, possibly negative
	Bits uint   `json:"bits"`
	Mode int    `json:"mode"`
	// the same variable as the first check's, or a circuit constant
	Same  bool `json:"same,omitempty"`
	Const bool `json:"const,omitempty"`
}

type RCase struct {
	Range  uint  `json:"range"`
	Size   uint  `json:"size"`
	SCS    bool  `json:"scs,omitempty"`
	NoPow  bool  `json:"nopow,omitempty"` // the power-of-two table is never used
	Checks []RC  `json:"checks"`          // those of other variables than the first are in range
	At     int   `json:"at,omitempty"`    // the first check comes after this many others
	Muts   []Mut `json:"muts,omitempty"`
	Crowd  int   `json:"crowd,omitempty"` // further valid checks and lookups, half of them before
}

var modes = []gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange}

// rcWant: 1 accept, -1 reject, 0 open.
func rcWant(c RC, w uint) int {
	v, _ := new(big.Int).SetString(c.V, 10)
	m := new(big.Int).Mod(v, modp)
	if m.BitLen() <= int(c.Bits) {
		return 1
	}
	s := new(big.Int).Set(m) // signed representative
	if s.Cmp(new(big.Int).Rsh(modp, 1)) > 0 {
		s.Sub(s, modp)
	}
	isSmall := s.BitLen() <= 160
	switch modes[c.Mode] {
	case gadget.TightForUnknownRange:
		return -1
	case gadget.TightForSmallAbs:
		if isSmall {
			return -1
		}
		return 0
	}
	top := c.Bits + 17
	if w > 0 {
		top = (c.Bits + w - 1) / w * w
	}
	if s.Sign() < 0 && isSmall || m.BitLen() > int(top) {
		return -1
	}
	return 0
}

func genRC(r *fw.R, w uint) RC {
	c := RC{Bits: uint(1 + r.N(110)), Mode: r.N(3)}
	if r.P(1, 3) && w > 0 { // lengths around multiples of the width
		c.Bits = uint(max(1, int(w)*(1+r.N(8))+r.Range(-1, 1)))
	}
	ww := w
	if ww == 0 {
		ww = uint(2 + r.N(16))
	}
	top := (c.Bits + ww - 1) / ww * ww
	v := new(big.Int)
	d := big.NewInt(int64(r.Range(-2, 2)))
	switch r.N(10) {
	case 0, 1:
		v.Set(small(r, c.Bits))
	case 2:
		v.Add(pow2(c.Bits), d)
	case 3:
		v.Add(pow2(top), d)
	case 4:
		v.Neg(small(r, uint(1+r.N(int(c.Bits)))))
		if v.Sign() == 0 {
			v.SetInt64(-1)
		}
	case 5: // beyond the last limb
		v.Add(pow2(top+uint(r.N(40))), small(r, c.Bits))
	case 6: // between
		v.Add(pow2(c.Bits), small(r, c.Bits))
	case 7: // field fractions, whose scaled value is small
		v.Mul(small(r, c.Bits), inv(pow2(uint(1+r.N(int(top-c.Bits)+4)))))
		modz(v)
	case 8:
		v.Set(rndBits(r, 254))
		modz(v)
	default:
		v.Neg(pow2(uint(r.N(100))))
	}
	c.V = v.String()
	return c
}

func rcRun(c RCase, opts ...eng.Option) (eng.Result, *eng.Engine) {
	e := engineFor(c.SCS, opts...)
	r := e.Run(func(api frontend.API) {
		g := gadget.New(api, c.Range, c.Size)
		if !c.NoPow {
			g.QueryPowerOf2(e.In(1))
		}
		var vs []frontend.Variable
		for i, k := range c.Checks {
			switch {
			case k.Same && i > 0:
				vs = append(vs, vs[0])
			case k.Const:
				vs = append(vs, modz(dec(k.V)))
			default:
				vs = append(vs, e.In(modz(dec(k.V))))
			}
		}
		crowd := func(k int) {
			for ; k > 0; k-- {
				n := uint(1 + (k*k+k/3)%90)
				v := new(big.Int).Mul(big.NewInt(int64(k)*0x1f3d5b79+0x77), big.NewInt(0x1ce4e5b9bf58476d))
				v.Mul(v, v).And(v, new(big.Int).Sub(pow2(n), one()))
				if !c.NoPow && k%9 == 0 {
					g.QueryPowerOf2(e.In(k % int(c.Size)))
					continue
				}
				g.AssertBitLength(e.In(v), n, modes[k%3])
			}
		}
		crowd(c.Crowd / 2)
		defer func() { crowd(c.Crowd - c.Crowd/2) }()
		check := func(i int) { g.AssertBitLength(vs[i], c.Checks[i].Bits, modes[c.Checks[i].Mode]) }
		for i := 1; i < len(c.Checks) && i <= c.At; i++ {
			check(i)
		}
		check(0)
		for i := c.At + 1; i < len(c.Checks); i++ {
			check(i)
		}
	})
	return r, e
}

func checkRC(c RCase) string {
	var opts []eng.Option
	if len(c.Muts) > 0 {
		opts = append(opts, eng.WithStrategy(strategyOf(c.Muts, c.Size)))
	}
	r, _ := rcRun(c, opts...)
	want := rcAll(c)
	switch {
	case want == -1 && r.Accepted:
		return fmt.Sprintf("%+v accepted at width %d, forged=%v", c.Checks, c.Range, len(c.Muts) > 0)
	case want == 1 && !r.Accepted && len(c.Muts) == 0:
		return fmt.Sprintf("%+v rejected at width %d: %s", c.Checks, c.Range, r.Why)
	}
	return ""
}

// rcAll is the verdict on the conjunction of the checks.
func rcAll(c RCase) int {
	want := 1
	for _, k := range c.Checks {
		want = min(want, rcWant(k, c.Range))
	}
	return want
}

func genRCase(r *fw.R) RCase {
	c := RCase{Range: rangeSize(r), Size: uint(r.Range(4, 70)), SCS: r.P(1, 4), NoPow: r.P(1, 5)}
	if r.P(1, 12) {
		c.Range = 1
	}
	c.Checks = append(c.Checks, genRC(r, c.Range))
	for k := r.N(6); k > 0; k-- {
		d := genRC(r, c.Range)
		d.V = small(r, d.Bits).String()
		if r.P(1, 4) { // the first variable again, in place of its own or next to it
			d.Same, d.V = true, c.Checks[0].V
			if r.Bool() {
				d.Bits = max(1, uint(int(c.Checks[0].Bits)+r.Range(-1, 1)))
			}
		}
		d.Const = !d.Same && r.P(1, 10)
		c.Checks = append(c.Checks, d)
	}
	c.At = r.N(len(c.Checks))
	c.Checks[0].Const = r.P(1, 20)
	return c
}

func shrinkRC(c RCase) []RCase {
	var out []RCase
	if c.Crowd > 0 {
		for _, k := range []int{0, c.Crowd / 2, c.Crowd - 1} {
			d := c
			d.Crowd = k
			out = append(out, d)
		}
	}
	for i := 1; i < len(c.Checks); i++ {
		d := c
		d.Checks = append(append([]RC{}, c.Checks[:i]...), c.Checks[i+1:]...)
		if len(c.Muts) == 0 {
			out = append(out, d)
		}
	}
	if len(c.Muts) > 1 {
		for i := range c.Muts {
			d := c
			d.Muts = append(append([]Mut{}, c.Muts[:i]...), c.Muts[i+1:]...)
			out = append(out, d)
		}
	}
	return out
}

func unitsRC(c RCase) []fw.Unit {
	w := rcAll(c)
	h := fw.H(uint64(c.Range), fw.HS(c.Checks[0].V), uint64(c.Checks[0].Bits), uint64(c.Checks[0].Mode))
	for _, k := range c.Checks[1:] {
		if k.Same {
			h = fw.H(h, uint64(k.Bits), uint64(k.Mode))
		}
	}
	for _, m := range c.Muts {
		h = fw.H(h, uint64(m.Call), uint64(m.A), uint64(m.B))
	}
	return []fw.Unit{{Hash: h, NonTrivial: w != 0, Label: fmt.Sprintf("mode%d->%s", c.Checks[0].Mode, []string{"reject", "open", "accept"}[w+1])}}
}

func G01(x *fw.Ctx) {
	std(x, "one to six range checks per circuit, of different variables, of the same variable or of constants, in any order, table widths 0 (automatic) to 16, bit lengths 1..110 with emphasis on multiples of the width, values at and around 2^bits and the rounded-up power, negatives, field fractions and random elements; up to 80,000 further checks and lookups in the same circuit; forged limb decompositions in the last stage; non-trivial: the specification decides the case (loose mode leaves [2^bits, next limb boundary) open, small-magnitude mode leaves elements of large magnitude open)")
	fw.Run(x, fw.Stage[RCase]{Name: "honest", N: x.Scale(60000, 3000000), Gen: func(r *fw.R, i int) RCase { return genRCase(r) }, Check: checkRC, Shrink: shrinkRC, Units: unitsRC})
	fw.Run(x, fw.Stage[RCase]{Name: "crowd", N: x.Scale(160, 3000), Gen: func(r *fw.R, i int) RCase {
		c := RCase{Size: uint(r.Range(4, 70)), SCS: r.Bool(), NoPow: r.P(1, 4)}
		if r.P(1, 3) {
			c.Range = uint(r.Range(1, 17))
		}
		c.Checks = append(c.Checks, genRC(r, c.Range))
		c.Crowd = int(math.Exp(math.Log(50) + r.Float64()*math.Log(1600)))
		return c
	}, Check: checkRC, Shrink: shrinkRC, Units: unitsRC})
	fw.Run(x, fw.Stage[RCase]{Name: "forged", N: x.Scale(120000, 3000000), Gen: func(r *fw.R, i int) RCase {
		c := genRCase(r)
		if c.Range == 16 || c.Range > 10 {
			c.Range = 5
		}
		_, e := rcRun(c, eng.WithRecord())
		var names []string
		for _, h := range e.Calls {
			names = append(names, h.Name)
		}
		n := len(names)
		if n == 0 {
			return c
		}
		for k := 1 + r.N(2); k > 0; k-- {
			kind := "solve"
			if r.P(1, 4) {
				kind = "generic"
			}
			c.Muts = append(c.Muts, Mut{Call: r.N(n), Kind: kind, A: fw.Hex(r.U64()), B: fw.Hex(r.U64() & 0xffff)})
		}
		return c
	}, Check: checkRC, Shrink: shrinkRC, Units: unitsRC})
}

// ---- G02

type GCase struct {
	Op    string `json:"op"` // abs, pos, max, min, eq
	A     string `json:"a"`
	B     string `json:"b"`
	Len   uint   `json:"len"`
	Range uint   `json:"range"`
	SCS   bool   `json:"scs,omitempty"`
	NoPow bool   `json:"nopow,omitempty"`
	Muts  []Mut  `json:"muts,omitempty"`
	// bit 0: A is a constant of the circuit, bit 1: B is
	Const uint `json:"const,omitempty"`
}

func dec(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }

func gcRun(c GCase, opts ...eng.Option) (eng.Result, []frontend.Variable, *eng.Engine) {
	e := engineFor(c.SCS, opts...)
	var out []frontend.Variable
	r := e.Run(func(api frontend.API) {
		g := gadget.New(api, c.Range, 32)
		if !c.NoPow {
			g.QueryPowerOf2(e.In(1))
		}
		operand := func(s string, bit uint) frontend.Variable {
			v := dec(s)
			if c.Const>>bit&1 == 0 {
				return e.In(modz(v))
			}
			if v.IsInt64() { // the form a circuit writes
				return int(v.Int64())
			}
			return v
		}
		a, b := operand(c.A, 0), operand(c.B, 1)
		switch c.Op {
		case "abs":
			x, y := g.Abs(a, c.Len)
			out = []frontend.Variable{x, y}
		case "pos":
			out = []frontend.Variable{g.IsPositive(a, c.Len)}
		case "max":
			out = []frontend.Variable{g.Max(a, b, c.Len)}
		case "min":
			out = []frontend.Variable{g.Min(a, b, c.Len)}
		case "eq":
			out = []frontend.Variable{g.IsEq(a, b)}
		}
	})
	return r, out, e
}

// gcWant: expected outputs; 1 must accept, -1 must reject, 0 open.
func gcWant(c GCase) (out []*big.Int, st int) {
	a, b := dec(c.A), dec(c.B)
	bit := func(v bool) *big.Int {
		if v {
			return one()
		}
		return new(big.Int)
	}
	d := new(big.Int).Set(a)
	switch c.Op {
	case "abs":
		out = []*big.Int{new(big.Int).Abs(a), bit(a.Sign() >= 0)}
	case "pos":
		out = []*big.Int{bit(a.Sign() >= 0)}
	case "max", "min":
		d.Sub(a, b)
		hi, lo := a, b
		if d.Sign() < 0 {
			hi, lo = b, a
		}
		if c.Op == "min" {
			hi = lo
		}
		out = []*big.Int{new(big.Int).Mod(hi, modp)}
	case "eq":
		return []*big.Int{bit(new(big.Int).Mod(new(big.Int).Sub(a, b), modp).Sign() == 0)}, 1
	}
	top := c.Len + 17
	if c.Range > 0 {
		top = (c.Len + c.Range - 1) / c.Range * c.Range
	}
	d.Abs(d)
	switch {
	case d.BitLen() <= int(c.Len):
		st = 1
	case d.Cmp(pow2(top)) > 0 && !c.allConst(): // a constant may be folded
		st = -1
	}
	return out, st
}

func (c GCase) allConst() bool {
	return c.Const == 3 || c.Const == 1 && (c.Op == "abs" || c.Op == "pos")
}

func checkGC(c GCase) string {
	var opts []eng.Option
	if len(c.Muts) > 0 {
		opts = append(opts, eng.WithStrategy(strategyOf(c.Muts, 32)))
	}
	r, out, _ := gcRun(c, opts...)
	want, st := gcWant(c)
	if !r.Accepted {
		if st == 1 && len(c.Muts) == 0 {
			return fmt.Sprintf("%s(%s,%s) length %d is unprovable: %s", c.Op, c.A, c.B, c.Len, r.Why)
		}
		return ""
	}
	if st == -1 {
		return fmt.Sprintf("%s(%s,%s) of too large magnitude for length %d is accepted", c.Op, c.A, c.B, c.Len)
	}
	// whenever it is accepted the outputs are right
	for i := range want {
		if g := eng.Big(out[i]); g.Cmp(want[i]) != 0 {
			return fmt.Sprintf("%s(%s,%s) length %d: output %d is %s, want %s, forged=%v", c.Op, c.A, c.B, c.Len, i, g, want[i], len(c.Muts) > 0)
		}
	}
	return ""
}

func genGC(r *fw.R) GCase {
	c := GCase{Op: r.PickS("abs", "pos", "max", "min", "eq"), Len: uint(1 + r.N(80)), Range: advRange(r), SCS: r.P(1, 4), NoPow: r.P(1, 5)}
	w := c.Range
	if w == 0 {
		w = uint(2 + r.N(10))
	}
	if r.P(1, 5) {
		c.Const = uint(1 + r.N(3))
	}
	top := (c.Len + w - 1) / w * w
	d := new(big.Int)
	switch r.N(9) {
	case 0:
	case 1:
		d.SetInt64(int64(r.Range(-2, 2)))
	case 2:
		d.Sub(pow2(c.Len), one())
	case 3:
		d.Add(pow2(c.Len), big.NewInt(int64(r.Range(-2, 2))))
	case 4:
		d.Add(pow2(top), big.NewInt(int64(r.Range(-2, 2))))
	case 5:
		d.Lsh(small(r, 10), top)
	default:
		d.Set(small(r, c.Len))
	}
	if r.Bool() {
		d.Neg(d)
	}
	if c.Op == "abs" || c.Op == "pos" {
		c.A, c.B = d.String(), "0"
		return c
	}
	b := small(r, 100)
	if r.Bool() {
		b.Neg(b)
	}
	c.A, c.B = new(big.Int).Add(b, d).String(), b.String()
	return c
}

func unitsGC(c GCase) []fw.Unit {
	_, st := gcWant(c)
	h := fw.H(fw.HS(c.Op), fw.HS(c.A), fw.HS(c.B), uint64(c.Len), uint64(c.Range), uint64(c.Const))
	for _, m := range c.Muts {
		h = fw.H(h, uint64(m.Call), uint64(m.A), uint64(m.B))
	}
	return []fw.Unit{{Hash: h, NonTrivial: true, Label: c.Op + "->" + []string{"reject", "open", "accept"}[st+1]}}
}

func forge[C any](r *fw.R, names []string, set func(ms []Mut) C) C { return set(genMuts(r, names)) }

func namesOf(e *eng.Engine) []string {
	var names []string
	for _, h := range e.Calls {
		names = append(names, h.Name)
	}
	return names
}

func G02(x *fw.Ctx) {
	std(x, "signed integers, as inputs or as constants of the circuit, at zero, at both ends of the stated bit length and beyond, for every gadget and table widths 0..12, honestly and with forged advice; whenever a run is accepted its outputs must be the true ones; distinct by operation, operands, length, width and forgery")
	fw.Run(x, fw.Stage[GCase]{Name: "honest", N: x.Scale(60000, 3000000), Gen: func(r *fw.R, i int) GCase { return genGC(r) }, Check: checkGC, Units: unitsGC})
	fw.Run(x, fw.Stage[GCase]{Name: "forged", N: x.Scale(60000, 3000000), Gen: func(r *fw.R, i int) GCase {
		c := genGC(r)
		_, _, e := gcRun(c, eng.WithRecord())
		if names := namesOf(e); len(names) > 0 { // the equality gadget alone needs no advice
			c.Muts = genMuts(r, names)
		}
		return c
	}, Check: checkGC, Units: unitsGC})
}

// ---- G03

type PCase struct {
	Size  uint   `json:"size"`
	Range uint   `json:"range"`
	SCS   bool   `json:"scs,omitempty"`
	Exp   string `json:"exp"`
	More  int    `json:"more,omitempty"`  // further lookups of other exponents
	Again bool   `json:"again,omitempty"` // the same variable is looked up once more, first
	Const bool   `json:"const,omitempty"`
	Muts  []Mut  `json:"muts,omitempty"`
}

func pcRun(c PCase, opts ...eng.Option) (eng.Result, frontend.Variable, *eng.Engine) {
	e := engineFor(c.SCS, opts...)
	var out frontend.Variable
	r := e.Run(func(api frontend.API) {
		g := gadget.New(api, c.Range, c.Size)
		var v frontend.Variable = e.In(modz(dec(c.Exp)))
		if c.Const {
			v = modz(dec(c.Exp))
		}
		if c.Again {
			g.QueryPowerOf2(v)
		}
		out = g.QueryPowerOf2(v)
		for k := 0; k < c.More; k++ {
			g.QueryPowerOf2(e.In((k * 7) % int(c.Size)))
		}
	})
	return r, out, e
}

func checkPC(c PCase) string {
	var opts []eng.Option
	if len(c.Muts) > 0 {
		opts = append(opts, eng.WithStrategy(strategyOf(c.Muts, c.Size)))
	}
	r, out, _ := pcRun(c, opts...)
	v := dec(c.Exp)
	in := v.Sign() >= 0 && v.Cmp(big.NewInt(int64(c.Size))) < 0
	if !r.Accepted {
		if in && len(c.Muts) == 0 {
			return fmt.Sprintf("2^%s with table size %d, width %d is unprovable: %s", c.Exp, c.Size, c.Range, r.Why)
		}
		return ""
	}
	if !in {
		return fmt.Sprintf("2^%s is outside the table of size %d but accepted as %s", c.Exp, c.Size, eng.Big(out))
	}
	if want := pow2(uint(v.Uint64())); eng.Big(out).Cmp(want) != 0 {
		return fmt.Sprintf("2^%s with table size %d, width %d is accepted as %s", c.Exp, c.Size, c.Range, eng.Big(out))
	}
	return ""
}

func genPC(r *fw.R) PCase {
	c := PCase{Size: uint(r.Range(2, 76)), Range: advRange(r), SCS: r.P(1, 4), More: r.N(4)}
	if r.Bool() {
		c.Size = []uint{32, 64}[r.N(2)]
	}
	v := new(big.Int)
	switch r.N(8) {
	case 0:
		v.SetInt64(int64(c.Size) + int64(r.Range(-2, 2)))
	case 1:
		v.SetInt64(int64(-1 - r.N(40)))
	case 2: // an exponent that, with its power, equals another entry
		v.SetInt64(int64(r.Range(-3, int(c.Size)+20)))
	case 3:
		v.Set(small(r, 120))
		if r.Bool() {
			v.Neg(v)
		}
	default:
		v.SetInt64(int64(r.N(int(c.Size))))
	}
	c.Exp = v.String()
	c.Again, c.Const = r.P(1, 6), r.P(1, 8)
	if r.P(1, 150) {
		c.More = 1 + r.N(20000)>>r.N(12)
	}
	return c
}

func unitsPC(c PCase) []fw.Unit {
	v := dec(c.Exp)
	lab := "outside"
	if v.Sign() >= 0 && v.Cmp(big.NewInt(int64(c.Size))) < 0 {
		lab = "inside"
	}
	h := fw.H(uint64(c.Size), uint64(c.Range), fw.HS(c.Exp))
	for _, m := range c.Muts {
		h = fw.H(h, uint64(m.Call), uint64(m.A), uint64(m.B))
	}
	return []fw.Unit{{Hash: h, NonTrivial: true, Label: lab}}
}

func G03(x *fw.Ctx) {
	std(x, "table sizes 2..76 (32 and 64 half of the time), table widths 0..12 including ones that do not divide the size, exponents inside, at the edges, negative and up to 120 bits, honestly and with forged results (among them all results that collide with another table entry); distinct by size, width, exponent and forgery")
	fw.Run(x, fw.Stage[PCase]{Name: "all", N: x.Scale(75*13*80/4, 75*13*80), Gen: func(r *fw.R, i int) PCase {
		// every exponent from -2 to size+1 for every size and width
		if !x.Thorough() { // a quarter of them, all sizes and widths
			i = i*4 + int(x.Seed%4)
		}
		s := uint(2 + i%75)
		w := uint(i / 75 % 13)
		k := i / 75 / 13
		return PCase{Size: s, Range: w, Exp: fmt.Sprint(k%int(s+4) - 2)}
	}, Check: checkPC, Units: unitsPC})
	fw.Run(x, fw.Stage[PCase]{Name: "honest", N: x.Scale(20000, 2000000), Gen: func(r *fw.R, i int) PCase { return genPC(r) }, Check: checkPC, Units: unitsPC})
	fw.Run(x, fw.Stage[PCase]{Name: "forged", N: x.Scale(60000, 4000000), Gen: func(r *fw.R, i int) PCase {
		c := genPC(r)
		_, _, e := pcRun(c, eng.WithRecord())
		c.Muts = genMuts(r, namesOf(e))
		return c
	}, Check: checkPC, Units: unitsPC})
}
