package props

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/ref"
)

// Step is one operation of a program; operands are indices of earlier values.
type Step struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b,omitempty"`
	C  int    `json:"c,omitempty"`
	D  int    `json:"d,omitempty"`
}

// Prog is a straight-line float program.
type Prog struct {
	E     uint     `json:"E"`
	M     uint     `json:"M"`
	Range uint     `json:"range"`
	SCS   bool     `json:"scs,omitempty"`
	In    []fw.Hex `json:"in"`
	Const []fw.Hex `json:"const"`
	Steps []Step   `json:"steps"`
	Lit   uint     `json:"lit,omitempty"`  // bit k: constant k is decoded like an input
	Expr  uint     `json:"expr,omitempty"` // bit k: input k is decoded from a sum of wires
}

func (c Prog) f() ref.Fmt { return ref.Fmt{E: c.E, M: c.M} }

var cmpRef = map[string]func(f ref.Fmt, x, y uint64) bool{
	"lt": ref.Fmt.Lt, "le": ref.Fmt.Le,
	"gt": func(f ref.Fmt, x, y uint64) bool { return f.Lt(y, x) },
	"ge": func(f ref.Fmt, x, y uint64) bool { return f.Le(y, x) },
}

func cmpCirc(c *float.Context, op string, x, y float.FloatVar) frontend.Variable {
	switch op {
	case "lt":
		return c.IsLt(x, y)
	case "le":
		return c.IsLe(x, y)
	case "gt":
		return c.IsGt(x, y)
	}
	return c.IsGe(x, y)
}

// native runs the program on the reference.
func (c Prog) native() []uint64 {
	f := c.f()
	var v []uint64
	for _, b := range c.In {
		v = append(v, uint64(b))
	}
	for _, b := range c.Const {
		v = append(v, uint64(b))
	}
	for _, s := range c.Steps {
		if k, ok := cmpRef[s.Op]; ok {
			if k(f, v[s.A], v[s.B]) {
				v = append(v, v[s.C])
			} else {
				v = append(v, v[s.D])
			}
			continue
		}
		w, _, _ := ops[s.Op].want(f, Item{X: fw.Hex(v[s.A]), Y: fw.Hex(v[s.B])})
		v = append(v, w.(uint64))
	}
	return v
}

// circuit runs the program in a context; in gives the inputs.
func (c Prog) circuit(ctx *float.Context, in []frontend.Variable, each func(k int, v float.FloatVar) bool) []float.FloatVar {
	var v []float.FloatVar
	for k, w := range in {
		if c.Expr>>k&1 == 1 {
			w = sumOf(ctx.Api, w)
		}
		v = append(v, ctx.NewFloat(w))
	}
	for k, b := range c.Const {
		if c.Lit>>k&1 == 1 {
			v = append(v, ctx.NewFloat(uint64(b)))
			continue
		}
		v = append(v, ctx.NewConstant(uint64(b)))
	}
	for k, s := range c.Steps {
		var o float.FloatVar
		if _, ok := cmpRef[s.Op]; ok {
			o = ctx.Select(cmpCirc(ctx, s.Op, v[s.A], v[s.B]), v[s.C], v[s.D])
		} else {
			o = ops[s.Op].run(ctx, v[s.A], v[s.B], Item{}).(float.FloatVar)
		}
		v = append(v, o)
		if each != nil && !each(k, o) {
			break
		}
	}
	return v
}

func checkProg(c Prog) string {
	f := c.f()
	want := c.native()
	n0 := len(c.In) + len(c.Const)
	e := engineFor(c.SCS)
	why := ""
	r := e.Run(func(api frontend.API) {
		ctx := float.NewContext(api, c.Range, c.E, c.M)
		var in []frontend.Variable
		for _, b := range c.In {
			in = append(in, e.In(uint64(b)))
		}
		vs := c.circuit(&ctx, in, func(k int, v float.FloatVar) bool {
			if w := mismatch(f, v, want[n0+k]); w != "" {
				s := c.Steps[k]
				why = fmt.Sprintf("step %d %s(%#x,%#x): %s", k, s.Op, want[s.A], want[s.B], w)
				return false
			}
			return true
		})
		if why != "" {
			return
		}
		// the last results can be compared with a decoded input
		for k := max(n0, len(vs)-3); k < len(vs); k++ {
			ctx.AssertIsEqual(vs[k], ctx.NewFloat(e.In(want[k])))
		}
	})
	if why != "" {
		return why
	}
	if !r.Accepted {
		return "program is unprovable: " + r.Why
	}
	return ""
}

var progOps = []string{"add", "add", "sub", "sub", "mul", "mul", "div", "div", "sqrt", "neg", "abs", "trunc", "floor", "ceil", "lt", "le", "gt", "ge"}

func genProg(r *fw.R, f ref.Fmt, nSteps int) Prog {
	c := Prog{E: f.E, M: f.M, Range: rangeSize(r), SCS: r.P(1, 4)}
	near := r.Bool() // values of similar magnitude keep the program alive
	val := func() fw.Hex {
		if near && r.P(4, 5) {
			return fw.Hex(fromExp(f, r.U64()&1, int64(r.Range(-3, 3)), frac(r, f)))
		}
		return fw.Hex(anyFloat(r, f))
	}
	for k := 1 + r.N(4); k > 0; k-- {
		c.In = append(c.In, val())
	}
	for k := r.N(3); k > 0; k-- {
		if r.P(1, 3) {
			s := specials(f)
			c.Const = append(c.Const, fw.Hex(s[r.N(len(s))]))
			continue
		}
		c.Const = append(c.Const, val())
	}
	if r.P(1, 4) {
		c.Lit = uint(r.N(1 << len(c.Const)))
	}
	if r.P(1, 4) {
		c.Expr = uint(r.N(1 << len(c.In)))
	}
	n := len(c.In) + len(c.Const)
	for k := 0; k < nSteps; k++ {
		idx := func() int {
			if r.Bool() { // recent values
				return n + k - 1 - r.N(min(n+k, 3))
			}
			return r.N(n + k)
		}
		c.Steps = append(c.Steps, Step{Op: pick(r, progOps), A: idx(), B: idx(), C: idx(), D: idx()})
	}
	return c
}

func shrinkProg(c Prog) []Prog {
	var out []Prog
	if n := len(c.Steps); n > 1 {
		for _, k := range []int{n / 2, n - 1} {
			d := c
			d.Steps = c.Steps[:k]
			out = append(out, d)
		}
	}
	// replace a step by a copy of one of its operands: turn it into abs/neg-free "id"
	for k := range c.Steps {
		if c.Steps[k].Op == "id" {
			continue
		}
		d := c
		d.Steps = append([]Step{}, c.Steps...)
		d.Steps[k] = Step{Op: "id", A: c.Steps[k].A}
		out = append(out, d)
	}
	if c.Range != 0 {
		d := c
		d.Range = 0
		out = append(out, d)
	}
	if c.SCS {
		d := c
		d.SCS = false
		out = append(out, d)
	}
	if c.Lit != 0 {
		d := c
		d.Lit = 0
		out = append(out, d)
	}
	if c.Expr != 0 {
		d := c
		d.Expr = 0
		out = append(out, d)
	}
	f := c.f()
	for i := range c.In {
		for _, v := range simpler(f, uint64(c.In[i])) {
			d := c
			d.In = append([]fw.Hex{}, c.In...)
			d.In[i] = fw.Hex(v)
			out = append(out, d)
		}
	}
	return out
}

func unitsProg(c Prog) []fw.Unit {
	f := c.f()
	vs := c.native()
	n0 := len(c.In) + len(c.Const)
	us := make([]fw.Unit, 0, len(c.Steps))
	h := fw.H(uint64(c.E), uint64(c.M))
	for _, b := range c.In {
		h = fw.H(h, uint64(b))
	}
	for _, b := range c.Const {
		h = fw.H(h, uint64(b))
	}
	for k, s := range c.Steps {
		h = fw.H(h, fw.HS(s.Op), uint64(s.A), uint64(s.B), uint64(s.C), uint64(s.D))
		a := vs[s.A]
		us = append(us, fw.Unit{Hash: h, NonTrivial: !f.IsNaN(a) && !f.IsNaN(vs[s.B]), Label: s.Op + "->" + classOf(f, vs[n0+k])})
	}
	return us
}

func F12(x *fw.Ctx) {
	std(x, "random straight-line programs of up to 16 steps over decoded inputs, constants and earlier results (arithmetic, roots, negation, absolute value, integral rounding, comparison with selection), checked at every step; one evaluation is one step; non-trivial: no NaN operand; distinct by program prefix and inputs")
	for _, f := range []ref.Fmt{ref.F32, ref.F64, E5M2, E4M3} {
		f := f
		n := x.Scale(7000, 200000)
		fw.Run(x, fw.Stage[Prog]{Name: f.String(), N: n, Gen: func(r *fw.R, i int) Prog { return genProg(r, f, 1+r.N(16)) },
			Check: checkProg, Shrink: shrinkProg, Units: unitsProg})
	}
	fw.Run(x, fw.Stage[Prog]{Name: "other-formats", N: x.Scale(7000, 200000), Gen: func(r *fw.R, i int) Prog { return genProg(r, otherFormat(r), 1+r.N(16)) },
		Check: checkProg, Shrink: shrinkProg, Units: unitsProg})
}

var _ = eng.New
