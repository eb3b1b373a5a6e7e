package props

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/ref"
)

// Mut replaces the outputs of one advice request. It is a pure function of the
// request and its parameters.
type Mut struct {
	Call int    `json:"call"`
	Kind string `json:"kind"`
	A    fw.Hex `json:"a"`
	B    fw.Hex `json:"b"`
}

var modp = eng.Modulus()

func one() *big.Int            { return big.NewInt(1) }
func pow2(k uint) *big.Int     { return new(big.Int).Lsh(one(), k) }
func inv(x *big.Int) *big.Int  { return new(big.Int).ModInverse(x, modp) }
func modz(x *big.Int) *big.Int { return x.Mod(x, modp) }
func bigu(x uint64) *big.Int   { return new(big.Int).SetUint64(x) }
func short(name string) string { return name[strings.LastIndexByte(name, '.')+1:] }
func rndBits(r *fw.R, n uint) *big.Int {
	v := new(big.Int)
	for k := uint(0); k < n; k += 64 {
		v.Lsh(v, 64).Or(v, bigu(r.U64()))
	}
	return v.And(v, new(big.Int).Sub(pow2(n), one()))
}

// small draws a value of at most n bits with emphasis on the ends.
func small(r *fw.R, n uint) *big.Int {
	if n == 0 {
		return new(big.Int)
	}
	switch r.N(6) {
	case 0:
		return new(big.Int)
	case 1:
		return one()
	case 2:
		return new(big.Int).Sub(pow2(n), one())
	case 3:
		return pow2(uint(r.N(int(n))))
	}
	return rndBits(r, n)
}

// apply changes call.Out.
func (m Mut) apply(call *eng.HintCall, tableSize uint) {
	if m.Kind == "set" { // the first two answers are given
		for i, v := range []fw.Hex{m.A, m.B} {
			if i < len(call.Out) {
				call.Out[i].SetUint64(uint64(v))
			}
		}
		return
	}
	r := fw.NewR(uint64(m.A), "mut", uint64(m.B))
	if m.Kind == "solve" && solveMut(r, call, tableSize) {
		return
	}
	genericMut(r, call)
}

func genericMut(r *fw.R, call *eng.HintCall) {
	o := call.Out
	j := r.N(len(o))
	v := o[j]
	switch r.N(12) {
	case 0, 1:
		v.Sub(one(), v)
	case 2:
		v.Add(v, big.NewInt(int64(r.Range(-3, 3))))
	case 3:
		d := pow2(uint(r.N(70)))
		if r.Bool() {
			d.Neg(d)
		}
		v.Add(v, d)
	case 4:
		v.Neg(v)
	case 5:
		v.Mul(v, pow2(uint(1+r.N(8))))
	case 6:
		v.Mul(v, inv(pow2(uint(1+r.N(8)))))
	case 7:
		v.Set(small(r, uint(1+r.N(64))))
	case 8:
		v.Set(rndBits(r, 254))
	case 9:
		if len(o) > 1 {
			k := r.N(len(o))
			a, b := new(big.Int).Set(o[j]), new(big.Int).Set(o[k])
			o[j].Set(b)
			o[k].Set(a)
		} else {
			v.SetInt64(int64(r.N(4)))
		}
	case 10:
		if len(o) > 1 { // shift weight between two outputs
			k := r.N(len(o))
			w := uint(r.N(64))
			v.Add(v, pow2(w))
			o[k].Sub(o[k], one())
			modz(o[k])
		} else {
			v.Add(v, inv(big.NewInt(2)))
		}
	default:
		v.SetInt64(int64(r.N(3)))
	}
	modz(v)
}

// solveMut chooses all but one unknown of the relation that the advice has to
// satisfy and solves the relation for the last one in the field. It reports
// false when the request does not have the expected shape.
func solveMut(r *fw.R, call *eng.HintCall, tableSize uint) bool {
	in, out := call.In, call.Out
	n := call.Name
	is := func(s string, ni, no int) bool {
		return strings.Contains(n, s) && len(in) == ni && len(out) == no
	}
	switch {
	case strings.HasSuffix(n, "DecomposeHint") && len(in) == 4 && in[1].IsUint64() && in[1].Uint64() < 64:
		w := uint(in[1].Uint64())
		k := len(out)
		total := modz(new(big.Int).Mul(in[2], in[3]))
		switch r.N(4) {
		case 0: // carry between neighbours
			if k < 2 {
				return false
			}
			j := r.N(k - 1)
			if r.Bool() {
				out[j].Add(out[j], pow2(w))
				out[j+1].Sub(out[j+1], one())
			} else {
				out[j].Sub(out[j], pow2(w))
				out[j+1].Add(out[j+1], one())
			}
			modz(out[j])
			modz(out[j+1])
			return true
		case 1: // decompose a value one period away
			t := new(big.Int).Add(total, modp)
			for j := range out {
				if j == k-1 {
					out[j].Set(t)
				} else {
					out[j].And(t, new(big.Int).Sub(pow2(w), one()))
				}
				t.Rsh(t, w)
			}
			return true
		}
		j := r.N(k)
		fresh := r.Bool()
		rest := new(big.Int)
		for i := range out {
			if i == j {
				continue
			}
			if fresh {
				out[i].Set(small(r, w))
			} else {
				out[i].And(out[i], new(big.Int).Sub(pow2(w), one()))
			}
			rest.Add(rest, new(big.Int).Lsh(out[i], w*uint(i)))
		}
		rest.Sub(total, rest)
		rest.Mul(rest, inv(pow2(w*uint(j))))
		out[j].Set(modz(rest))
		return true
	case is("DecomposeMantissa", 6, 4):
		if in[1].Sign() == 0 || new(big.Int).Mod(in[1], modp).Sign() == 0 {
			return false
		}
		pi, qi, ri := uint(in[3].Uint64()), uint(in[4].Uint64()), uint(in[5].Uint64())
		if pi > 250 || qi > 250 || ri > 250 {
			return false
		}
		T := new(big.Int).Mul(in[0], pow2(uint(in[2].Uint64())))
		modz(T.Mul(T, inv(in[1])))
		wt := []*big.Int{pow2(pi), pow2(qi), pow2(ri), one()}
		// new values for everything, then solve for one
		if r.P(3, 4) {
			out[1].SetInt64(int64(r.N(2)))
		}
		if r.P(3, 4) {
			out[2].SetInt64(int64(r.N(2)))
		}
		switch r.N(4) {
		case 0:
			out[3].Set(small(r, ri))
		case 1:
			out[3].Add(out[3], pow2(ri))
		case 2:
			out[3].Sub(out[3], pow2(ri))
		}
		switch r.N(3) {
		case 0:
			out[0].Add(out[0], big.NewInt(int64(r.Range(-2, 2))))
		}
		j := r.N(4)
		if r.P(1, 2) {
			j = []int{0, 3}[r.N(2)]
		}
		rest := new(big.Int).Set(T)
		for i := range out {
			if i != j {
				rest.Sub(rest, new(big.Int).Mul(out[i], wt[i]))
			}
		}
		rest.Mul(rest, inv(wt[j]))
		out[j].Set(modz(rest))
		for i := range out {
			modz(out[i])
		}
		return true
	case is("DecodeFloat", 3, 2):
		E, M := uint(in[1].Uint64()), uint(in[2].Uint64())
		if E > 64 || M > 64 {
			return false
		}
		switch r.N(5) {
		case 0: // move sign weight into the exponent
			d := int64(1 - 2*r.N(2))
			out[0].Add(out[0], big.NewInt(d))
			out[1].Sub(out[1], new(big.Int).Mul(big.NewInt(d), pow2(E)))
		case 1: // move exponent weight into the mantissa
			out[1].Add(out[1], big.NewInt(int64(r.Range(-2, 2))))
		case 2: // exponent and mantissa chosen, sign solved
			e, m := small(r, E), small(r, M)
			out[1].Set(e)
			t := new(big.Int).Sub(in[0], m)
			t.Sub(t, new(big.Int).Mul(e, pow2(M)))
			out[0].Mul(t, inv(pow2(E+M)))
		case 3: // sign and mantissa chosen, exponent solved
			s, m := big.NewInt(int64(r.N(2))), small(r, M)
			out[0].Set(s)
			t := new(big.Int).Sub(in[0], m)
			t.Sub(t, new(big.Int).Mul(s, pow2(E+M)))
			out[1].Mul(t, inv(pow2(M)))
		default: // sign and exponent chosen, mantissa takes the rest
			out[0].SetInt64(int64(r.N(2)))
			out[1].Set(small(r, E))
		}
		modz(out[0])
		modz(out[1])
		return true
	case is("DivHint", 3, 1):
		if new(big.Int).Mod(in[1], modp).Sign() == 0 {
			return false
		}
		if r.P(1, 3) { // next to the quotient
			out[0].Add(out[0], big.NewInt(int64(1-2*r.N(2))))
			modz(out[0])
			return true
		}
		// choose the remainder
		x := new(big.Int).Mul(in[0], pow2(uint(in[2].Uint64())))
		rem := remainderOf(r, in[1])
		t := x.Sub(x, rem)
		out[0].Set(modz(t.Mul(t, inv(in[1]))))
		return true
	case is("SqrtHint", 1, 1):
		if r.P(1, 4) {
			out[0].Neg(out[0])
			modz(out[0])
			return true
		}
		if r.P(1, 3) { // next to the root
			out[0].Add(out[0], big.NewInt(int64(1-2*r.N(2))))
			modz(out[0])
			return true
		}
		for k := 0; k < 8; k++ {
			rem := remainderOf(r, out[0])
			t := modz(new(big.Int).Sub(in[0], rem))
			if q := new(big.Int).ModSqrt(t, modp); q != nil {
				if r.Bool() {
					q.Sub(modp, q)
				}
				out[0].Set(modz(q))
				return true
			}
		}
		return false
	case is("TruncHint", 2, 1), is("FloorHint", 3, 1):
		sh := uint(in[1].Uint64())
		if sh > 200 {
			return false
		}
		if r.P(1, 4) { // next to the integral part
			out[0].Add(out[0], big.NewInt(int64(1-2*r.N(2))))
			modz(out[0])
			return true
		}
		rem := small(r, sh)
		if r.P(1, 3) {
			rem.Neg(rem)
		}
		t := new(big.Int).Sub(in[0], rem)
		out[0].Set(modz(t.Mul(t, inv(pow2(sh)))))
		return true
	case is("PowerOfTwo", 1, 1):
		i := uint(r.N(int(tableSize)))
		if r.Bool() { // table entries next to the exponent collide with the smallest values
			e, ok := eng.Signed(in[0])
			k := e + int64(r.Range(-2, 5))
			if ok && k >= 0 && k < int64(tableSize) {
				i = uint(k)
			}
		}
		t := new(big.Int).Sub(big.NewInt(int64(i)), in[0])
		w := tableSize // the weight of the exponent in a table key, as far as can be told from outside
		if r.P(1, 4) {
			w = uint(max(0, int(tableSize)+r.Range(-2, 1)))
		}
		t.Mul(t, pow2(w))
		t.Add(t, pow2(i))
		out[0].Set(modz(t))
		return true
	case is("NormalizeHint", 2, 1):
		if r.Bool() {
			out[0].Add(out[0], big.NewInt(int64(r.Range(-2, 2))))
		} else {
			out[0].SetInt64(int64(r.N(int(tableSize) + 2)))
		}
		modz(out[0])
		return true
	case is("AbsHint", 1, 2), is("NthBit", 2, 1):
		out[0].Sub(one(), out[0])
		modz(out[0])
		return true
	}
	return false
}

// remainderOf draws a candidate remainder for a divisor.
func remainderOf(r *fw.R, y *big.Int) *big.Int {
	switch r.N(6) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Sub(y, one())
	case 2:
		return new(big.Int).Set(y)
	case 3:
		return big.NewInt(int64(r.Range(-4, 4)))
	}
	return small(r, uint(y.BitLen()))
}

// strategyOf turns mutations into an engine strategy.
func strategyOf(ms []Mut, tableSize uint) eng.Strategy {
	return func(call *eng.HintCall) {
		attacked := false
		for _, m := range ms {
			if m.Call == call.Index {
				m.apply(call, tableSize)
				attacked = true
			}
		}
		if !attacked {
			carryThrough(call, tableSize)
		}
	}
}

// carryThrough answers the requests behind a forged one as a prover would who
// computes in the field: the repository's functions work on integers and give
// up on a value like 1/2, although its multiples are small.
func carryThrough(call *eng.HintCall, tableSize uint) {
	in, out := call.In, call.Out
	switch n := call.Name; {
	case strings.HasSuffix(n, "DecomposeHint") && len(in) == 4 && in[1].IsUint64() && in[1].Uint64() < 64:
		w := uint(in[1].Uint64())
		t := modz(new(big.Int).Mul(in[2], in[3]))
		if t.BitLen() > int(w)*len(out) {
			return
		}
		for j := range out {
			out[j].And(t, new(big.Int).Sub(pow2(w), one()))
			t.Rsh(t, w)
		}
	case strings.Contains(n, "DecomposeMantissa") && len(in) == 6 && len(out) == 4:
		for _, v := range in[2:] {
			if !v.IsUint64() || v.Uint64() > 250 {
				return
			}
		}
		y := new(big.Int).Mod(in[1], modp)
		if y.Sign() == 0 {
			return
		}
		p, q, r := uint(in[3].Uint64()), uint(in[4].Uint64()), uint(in[5].Uint64())
		t := new(big.Int).Mul(in[0], pow2(uint(in[2].Uint64())))
		modz(t.Mul(t, inv(y)))
		if t.BitLen() > 200 {
			return
		}
		out[0].Rsh(t, p)
		out[1].SetUint64(uint64(t.Bit(int(q))))
		out[2].SetUint64(uint64(t.Bit(int(r))))
		out[3].And(t, new(big.Int).Sub(pow2(r), one()))
	case strings.Contains(n, "NormalizeHint") && len(in) == 2 && len(out) == 1 && in[1].IsUint64():
		l := int(in[1].Uint64())
		m := new(big.Int).Mod(in[0], modp)
		if m.BitLen() <= l {
			return
		}
		for k := uint(0); k < tableSize; k++ {
			if m.BitLen() == l {
				out[0].SetUint64(uint64(k))
				return
			}
			modz(m.Lsh(m, 1))
		}
	}
}

// genMuts draws mutations of a circuit with the given advice requests: first
// the kind of request, then one of that kind.
func genMuts(r *fw.R, calls []string) []Mut {
	n := 1
	switch r.N(10) {
	case 0, 1:
		n = 2
	case 2:
		n = 3
	}
	groups := map[string][]int{}
	var order []string
	for i, c := range calls {
		if _, ok := groups[c]; !ok {
			order = append(order, c)
		}
		groups[c] = append(groups[c], i)
	}
	var ms []Mut
	for k := 0; k < n; k++ {
		g := groups[order[r.N(len(order))]]
		kind := "solve"
		if r.P(2, 5) {
			kind = "generic"
		}
		ms = append(ms, Mut{Call: g[r.N(len(g))], Kind: kind, A: fw.Hex(r.U64()), B: fw.Hex(r.U64() & 0xffff)})
	}
	return ms
}

// ACase is one float operation under attack.
type ACase struct {
	E     uint   `json:"E"`
	M     uint   `json:"M"`
	Range uint   `json:"range"`
	SCS   bool   `json:"scs,omitempty"`
	It    Item   `json:"item"`
	Muts  []Mut  `json:"muts"`
	Names string `json:"attacked,omitempty"`
}

var callCache sync.Map

// callsOf lists the advice requests of an item's circuit. Their number and
// order depend on the circuit only.
func callsOf(c ACase) []string {
	key := fmt.Sprint(c.E, c.M, c.Range, c.SCS, c.It.Op, c.It.Inx, c.It.Iny, c.It.Tol)
	if v, ok := callCache.Load(key); ok {
		return v.([]string)
	}
	e := engineFor(c.SCS, eng.WithRecord())
	e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, c.E, c.M)
		runItem(e, &ctx, c.f(), c.It)
	})
	var names []string
	for _, h := range e.Calls {
		names = append(names, h.Name)
	}
	callCache.Store(key, names)
	return names
}

func (c ACase) f() ref.Fmt { return ref.Fmt{E: c.E, M: c.M} }

// checkA: an accepted run yields the specified result.
func checkA(c ACase) string {
	f := c.f()
	d := ops[c.It.Op]
	want, accept, skip := d.want(f, c.It)
	if skip {
		return ""
	}
	e := engineFor(c.SCS, eng.WithStrategy(strategyOf(c.Muts, c.M+c.E+1)))
	var out any
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, c.E, c.M)
		out = runItem(e, &ctx, f, c.It)
	})
	if !r.Accepted {
		return ""
	}
	if !accept {
		return fmt.Sprintf("%v must be unprovable but is accepted with forged advice (%s)", c.It, c.Names)
	}
	if why := compareOut(f, d, out, want); why != "" {
		return fmt.Sprintf("%v with forged advice (%s): %s", c.It, c.Names, why)
	}
	return ""
}

func finishA(r *fw.R, c ACase) ACase {
	names := callsOf(c)
	c.Muts = genMuts(r, names)
	var s []string
	for _, m := range c.Muts {
		s = append(s, short(names[m.Call])+"/"+m.Kind)
	}
	c.Names = strings.Join(s, "+")
	return c
}

func shrinkA(c ACase) []ACase {
	var out []ACase
	if len(c.Muts) > 1 {
		for i := range c.Muts {
			d := c
			d.Muts = append(append([]Mut{}, c.Muts[:i]...), c.Muts[i+1:]...)
			d.Names = "subset of " + c.Names
			out = append(out, d)
		}
	}
	if c.SCS {
		d := c
		d.SCS = false
		out = append(out, d)
	}
	f := c.f()
	for _, v := range simpler(f, uint64(c.It.X)) {
		d := c
		d.It.X = fw.Hex(v)
		out = append(out, d)
	}
	if ops[c.It.Op].ar == 2 {
		for _, v := range simpler(f, uint64(c.It.Y)) {
			d := c
			d.It.Y = fw.Hex(v)
			out = append(out, d)
		}
	}
	return out
}

func unitsA(c ACase) []fw.Unit {
	_, _, skip := ops[c.It.Op].want(c.f(), c.It)
	k := fw.H(uint64(c.E), uint64(c.Range), fw.HS(c.It.Op), uint64(c.It.X), uint64(c.It.Y))
	for _, m := range c.Muts {
		k = fw.H(k, uint64(m.Call), uint64(m.A), uint64(m.B), fw.HS(m.Kind))
	}
	lab := ""
	if len(c.Muts) == 1 {
		lab = c.It.Op + ":" + c.Names
	} else {
		lab = c.It.Op + ":several"
	}
	return []fw.Unit{{Hash: k, NonTrivial: !skip, Label: lab}}
}

// advRange prefers narrow tables, where a run is cheap, and widths that do not
// divide the checked lengths.
func advRange(r *fw.R) uint {
	switch r.N(8) {
	case 0:
		return 8
	case 1:
		return 0
	case 2:
		return uint(r.Range(9, 12))
	}
	return uint(r.Range(2, 7))
}

func advStages(x *fw.Ctx, n int, item func(r *fw.R, f ref.Fmt) Item) {
	for _, f := range []ref.Fmt{ref.F32, ref.F64, E5M2, E4M3} {
		f := f
		k := n
		if f.M < 8 {
			k = n / 2
		}
		fw.Run(x, fw.Stage[ACase]{Name: "forge-" + f.String(), N: k, Gen: func(r *fw.R, i int) ACase {
			c := ACase{E: f.E, M: f.M, Range: advRange(r), SCS: r.P(1, 8), It: item(r, f)}
			switch r.N(8) {
			case 0:
				c.It.Inx, c.It.Iny = inConst, inDirect
			case 1:
				c.It.Inx, c.It.Iny = inWire, inWire
			default:
				c.It.Inx, c.It.Iny = inDirect, inDirect
			}
			return finishA(r, c)
		}, Check: checkA, Shrink: shrinkA, Units: unitsA})
	}
}

const ruleA = "one float operation on edge-biased operands, evaluated with the advice of one to three requests replaced: by generic perturbations (bit flips, small and power-of-two offsets, negation, field halves, random elements) and by values solved from the relation the advice must satisfy after choosing the other unknowns freely (quotient from a chosen remainder, rounding split, limb carries, table collisions); advice computed later sees the forged values; non-trivial: the specification decides the case; distinct by circuit, operands and forgery"

func S01(x *fw.Ctx) {
	std(x, ruleA)
	n := x.Scale(60000, 1500000)
	advStages(x, n, func(r *fw.R, f ref.Fmt) Item {
		op := pick(r, []string{"add", "sub", "mul", "div", "sqrt"})
		var a, b uint64
		switch op {
		case "add", "sub":
			a, b = addPair(r, f)
			if r.P(1, 6) { // exact cancellation
				b = a
				if op == "add" {
					b = f.Neg(a)
				}
			}
		case "mul":
			a, b = mulPair(r, f)
		case "div":
			a, b = divPair(r, f)
		default:
			a = sqrtArg(r, f)
		}
		return Item{Op: op, X: fw.Hex(a), Y: fw.Hex(b)}
	})
}

func S02(x *fw.Ctx) {
	std(x, ruleA)
	n := x.Scale(60000, 1500000)
	advStages(x, n, func(r *fw.R, f ref.Fmt) Item {
		names := []string{"id", "lt", "le", "gt", "ge", "trunc", "floor", "ceil", "toint", "eq", "ulp", "tol"}
		op := pick(r, names)
		if op == "tol" && f.M < 8 {
			op = "id"
		}
		it := Item{Op: op}
		switch op {
		case "trunc", "floor", "ceil":
			it.X = fw.Hex(roundArg(r, f))
			if r.P(1, 4) { // exponent zero and its neighbours
				it.X = fw.Hex(fromExp(f, r.U64()&1, int64(r.N(3)-1), frac(r, f)))
			}
		case "toint":
			it.X = fw.Hex(integral(r, f))
		case "id":
			it.X = fw.Hex(anyFloat(r, f))
		default:
			a, b := nearPair(r, f)
			it.X, it.Y = fw.Hex(a), fw.Hex(b)
			if op == "tol" {
				it.Tol = fw.Hex(f.FromFloat(1))
			}
		}
		return it
	})
	advDecode(x)
}

// advDecode attacks decoding: the operand is always decoded from a witness
// value, including values that are no bit pattern.
func advDecode(x *fw.Ctx) {
	for _, f := range []ref.Fmt{ref.F32, ref.F64, E5M2} {
		f := f
		fw.Run(x, fw.Stage[ACase]{Name: "decode-" + f.String(), N: x.Scale(30000, 600000), Gen: func(r *fw.R, i int) ACase {
			return finishA(r, ACase{E: f.E, M: f.M, Range: advRange(r), It: Item{Op: "id", X: fw.Hex(anyFloat(r, f))}})
		}, Check: checkA, Shrink: shrinkA, Units: unitsA})
		fw.Run(x, fw.Stage[ADec]{Name: "decode-outside-" + f.String(), N: x.Scale(20000, 400000), Gen: func(r *fw.R, i int) ADec {
			w := f.Width()
			v := new(big.Int)
			c := ADec{E: f.E, M: f.M, Range: advRange(r)}
			switch r.N(7) {
			case 0:
				v.Add(pow2(w), bigu(anyFloat(r, f)))
			case 1, 2: // a part that is a fraction in the field
				sg, e := r.U64()&1, small(r, f.E).Uint64()
				if r.P(1, 4) {
					e = 0
				}
				v.Mul(small(r, f.M), inv(pow2(uint(1+r.N(20)))))
				k := modz(new(big.Int).Add(v, bigu(sg<<(f.E+f.M)+e<<f.M)))
				c.V = k.String()
				names := callsOf(ACase{E: f.E, M: f.M, Range: c.Range, It: Item{Op: "id"}})
				for i, n := range names {
					if strings.Contains(n, "DecodeFloat") {
						c.Muts = append(c.Muts, Mut{Call: i, Kind: "set", A: fw.Hex(sg), B: fw.Hex(e)})
					}
				}
				if r.P(1, 4) {
					c.Muts = append(c.Muts, genMuts(r, names)...)
				}
				return c
			case 3:
				v.Neg(bigu(1 + uint64(r.N(1<<8))))
			case 4, 5:
				v.Lsh(bigu(1+uint64(r.N(1000))), w)
				v.Add(v, bigu(anyFloat(r, f)))
			default:
				v.Set(rndBits(r, 254))
			}
			modz(v)
			c.V = v.String()
			names := callsOf(ACase{E: f.E, M: f.M, Range: c.Range, It: Item{Op: "id"}})
			c.Muts = genMuts(r, names)
			return c
		}, Check: checkADec})
	}
}

// ADec offers a field element that is no bit pattern with forged advice.
type ADec struct {
	E, M  uint
	Range uint
	V     string
	Muts  []Mut
}

func checkADec(c ADec) string {
	v, _ := new(big.Int).SetString(c.V, 10)
	if v.BitLen() <= int(1+c.E+c.M) {
		return ""
	}
	e := engineFor(false, eng.WithStrategy(strategyOf(c.Muts, c.M+c.E+1)))
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, c.E, c.M)
		ctx.NewFloat(e.In(v))
	})
	if r.Accepted {
		return fmt.Sprintf("element %s is accepted as a float with forged advice", c.V)
	}
	return ""
}
