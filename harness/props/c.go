package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	"github.com/consensys/gnark/test/unsafekzg"
	"github.com/rs/zerolog"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/gadget"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/ref"
)

func init() { logger.Set(zerolog.Nop()) }

// progCircuit is a program with its inputs secret and its claimed results
// public.
type progCircuit struct {
	In    []frontend.Variable `gnark:",secret"`
	Claim []frontend.Variable `gnark:",public"`

	p     *Prog
	stats func(api frontend.API, ctx *float.Context)
}

func (c *progCircuit) Define(api frontend.API) error {
	ctx := float.NewContext(api, c.p.Range, c.p.E, c.p.M)
	vs := c.p.circuit(&ctx, c.In, nil)
	n := len(vs) - len(c.Claim)
	for k, w := range c.Claim {
		ctx.AssertIsEqual(vs[n+k], ctx.NewFloat(w))
	}
	if c.stats != nil {
		c.stats(api, &ctx)
	}
	return nil
}

var curves = []ecc.ID{ecc.BN254, ecc.BLS12_381, ecc.BLS12_377, ecc.BW6_761, ecc.BLS24_317, ecc.BLS24_315, ecc.BW6_633}

func builderOf(kind string) frontend.NewBuilder {
	if kind == "scs" {
		return scs.NewBuilder
	}
	return r1cs.NewBuilder
}

// progAssign makes the circuit with values; nil values make a placeholder.
func progAssign(p *Prog, in []fw.Hex, claim []fw.Hex) *progCircuit {
	c := &progCircuit{p: p, In: make([]frontend.Variable, len(p.In)), Claim: make([]frontend.Variable, len(claim))}
	for i := range c.In {
		if in != nil {
			c.In[i] = uint64(in[i])
		}
	}
	for i := range claim {
		if in != nil {
			c.Claim[i] = uint64(claim[i])
		}
	}
	return c
}

// guarded runs f and reports a panic as an error.
func guarded(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

func compileProg(p *Prog, nClaim int, field *big.Int, kind string) (ccs constraint.ConstraintSystem, err error) {
	err = guarded(func() (err error) {
		ccs, err = frontend.Compile(field, builderOf(kind), progAssign(p, nil, make([]fw.Hex, nClaim)))
		return
	})
	return
}

var bsb22 = solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder)

// commitOverride replaces the commitment of the proof system by a hash.
func commitOverride() solver.Option {
	return solver.OverrideHint(bsb22, func(mod *big.Int, in, out []*big.Int) error {
		h := sha256.New()
		for _, v := range in {
			h.Write(v.Bytes())
			h.Write([]byte{0xff})
		}
		out[0].SetBytes(h.Sum(nil))
		out[0].Mod(out[0], mod)
		if out[0].Sign() == 0 {
			out[0].SetUint64(1)
		}
		return nil
	})
}

// solved reports whether the system is satisfied by the assignment.
func solved(ccs constraint.ConstraintSystem, a frontend.Circuit, field *big.Int, opts ...solver.Option) error {
	w, err := frontend.NewWitness(a, field)
	if err != nil {
		return fmt.Errorf("witness: %w", err)
	}
	return guarded(func() error { return ccs.IsSolved(w, append(opts, commitOverride())...) })
}

// ---- C01

// Conf is one configuration of a program: engine or compiled.
type Conf struct {
	Kind  string `json:"kind"` // r1cs, scs
	Range uint   `json:"range"`
	Curve string `json:"curve,omitempty"` // empty: harness engine
}

type CCase struct {
	Prog  Prog     `json:"prog"`
	Claim []fw.Hex `json:"claim"` // results of the last steps
	Wrong bool     `json:"wrong,omitempty"`
	Confs []Conf   `json:"confs"`
}

func curveOf(name string) ecc.ID {
	for _, c := range curves {
		if c.String() == name {
			return c
		}
	}
	return ecc.BN254
}

// accepted tells whether claim is acceptable for the program's results.
func (c CCase) accepted() bool {
	f := c.Prog.f()
	v := c.Prog.native()
	for k, w := range c.Claim {
		if !f.Same(v[len(v)-len(c.Claim)+k], uint64(w)) {
			return false
		}
	}
	return true
}

func checkCC(c CCase) string {
	want := c.accepted()
	for _, cf := range c.Confs {
		p := c.Prog
		p.Range = cf.Range
		var err error
		if cf.Curve == "" {
			e := engineFor(cf.Kind == "scs")
			r := e.Run(func(api frontend.API) {
				ctx := float.NewContext(api, p.Range, p.E, p.M)
				var in []frontend.Variable
				for _, b := range p.In {
					in = append(in, e.In(uint64(b)))
				}
				vs := p.circuit(&ctx, in, nil)
				for k, w := range c.Claim {
					ctx.AssertIsEqual(vs[len(vs)-len(c.Claim)+k], ctx.NewFloat(e.In(uint64(w))))
				}
			})
			if !r.Accepted {
				err = fmt.Errorf("%s", r.Why)
			}
		} else {
			field := curveOf(cf.Curve).ScalarField()
			ccs, cerr := compileProg(&p, len(c.Claim), field, cf.Kind)
			if cerr != nil {
				return fmt.Sprintf("%+v: does not compile: %v", cf, cerr)
			}
			err = solved(ccs, progAssign(&p, p.In, c.Claim), field)
		}
		if (err == nil) != want {
			return fmt.Sprintf("%+v: accepted=%v, want %v (%v)", cf, err == nil, want, err)
		}
	}
	return ""
}

func genCC(r *fw.R, f ref.Fmt, compiled bool) CCase {
	c := CCase{Prog: genProg(r, f, 1+r.N(6))}
	v := c.Prog.native()
	n := min(len(c.Prog.Steps), 1+r.N(2))
	for _, b := range v[len(v)-n:] {
		c.Claim = append(c.Claim, fw.Hex(b))
	}
	if r.P(2, 5) {
		c.Wrong = true
		k := r.N(n)
		switch r.N(4) {
		case 0:
			c.Claim[k] ^= fw.Hex(uint64(1) << r.N(int(f.Width())))
		case 1:
			c.Claim[k] = fw.Hex((uint64(c.Claim[k]) + 1) & f.Mask())
		case 2:
			c.Claim[k] ^= fw.Hex(uint64(1) << (f.Width() - 1))
		default:
			c.Claim[k] = fw.Hex(anyFloat(r, f))
		}
	}
	kind := func() string { return r.PickS("r1cs", "scs") }
	if compiled {
		// the cost of a compilation is dominated by its table
		rs := uint(r.Range(2, 12))
		if r.P(1, 3) {
			rs = 0
		}
		cv := curves[r.N(len(curves))]
		if r.Bool() {
			cv = ecc.BN254
		}
		c.Confs = []Conf{{Kind: kind(), Range: rs, Curve: cv.String()}}
		return c
	}
	for w := uint(0); w <= 14; w++ {
		if w != 1 && (w < 12 || r.P(1, 4)) {
			c.Confs = append(c.Confs, Conf{Kind: kind(), Range: w})
		}
	}
	return c
}

func shrinkCC(c CCase) []CCase {
	var out []CCase
	if len(c.Confs) > 1 {
		for _, cf := range c.Confs {
			d := c
			d.Confs = []Conf{cf}
			out = append(out, d)
		}
		return out
	}
	f := c.Prog.f()
	for i := range c.Prog.In {
		for _, v := range simpler(f, uint64(c.Prog.In[i])) {
			d := c
			d.Prog.In = append([]fw.Hex{}, c.Prog.In...)
			d.Prog.In[i] = fw.Hex(v)
			if !c.Wrong { // keep the claim true
				d.Claim = nil
				vs := d.Prog.native()
				for _, b := range vs[len(vs)-len(c.Claim):] {
					d.Claim = append(d.Claim, fw.Hex(b))
				}
			}
			out = append(out, d)
		}
	}
	return out
}

func unitsCC(c CCase) []fw.Unit {
	var us []fw.Unit
	f := c.Prog.f()
	b, _ := json.Marshal(c.Prog)
	h := fw.HS(string(b))
	nt := false
	for _, w := range c.Claim {
		h = fw.H(h, uint64(w))
		nt = nt || !f.IsNaN(uint64(w))
	}
	acc := "reject"
	if c.accepted() {
		acc = "accept"
	}
	for _, cf := range c.Confs {
		lab := cf.Kind + "->" + acc
		if cf.Curve != "" {
			lab = cf.Curve + " " + lab
		}
		us = append(us, fw.Unit{Hash: fw.H(h, fw.HS(cf.Kind), uint64(cf.Range), fw.HS(cf.Curve)), NonTrivial: nt, Label: lab})
	}
	return us
}

func C01(x *fw.Ctx) {
	std(x, "random programs of 1 to 6 steps with true and false claimed results; evaluated for table widths 0 and 2..14 and both constraint-system kinds, and compiled and solved over seven scalar fields; every configuration must give the verdict of the native program; 2 to 4 programs of different formats and widths, each in its own context, share one circuit, which must be accepted exactly when all claims are true; non-trivial: some claim is not NaN; distinct by program, inputs, claim and configuration")
	for _, f := range []ref.Fmt{ref.F32, ref.F64, E5M2} {
		f := f
		fw.Run(x, fw.Stage[CCase]{Name: "widths-" + f.String(), N: x.Scale(700, 60000), Gen: func(r *fw.R, i int) CCase { return genCC(r, f, false) },
			Check: checkCC, Shrink: shrinkCC, Units: unitsCC})
	}
	for _, f := range []ref.Fmt{ref.F32, ref.F64} {
		f := f
		fw.Run(x, fw.Stage[CCase]{Name: "compiled-" + f.String(), N: x.Scale(2500, 60000), Gen: func(r *fw.R, i int) CCase { return genCC(r, f, true) },
			Check: checkCC, Shrink: shrinkCC, Units: unitsCC})
	}
	fw.Run(x, fw.Stage[MixCase]{Name: "contexts", N: x.Scale(2500, 60000), Gen: genMix, Check: checkMix, Shrink: shrinkMix, Units: unitsMix})
	for _, f := range []ref.Fmt{ref.F32, E5M2} {
		f := f
		fw.Run(x, fw.Stage[ForgeCase]{Name: "forged-" + f.String(), N: x.Scale(2500, 60000), Gen: func(r *fw.R, i int) ForgeCase { return genForge(r, f) }, Check: checkForge, Units: unitsForge})
	}
}

// MixCase is several programs in one circuit, each in its own context.
type MixCase struct {
	Parts []CCase `json:"parts"`
	Kind  string  `json:"kind"`
	Curve string  `json:"curve,omitempty"` // empty: harness engine
}

type mixCircuit struct {
	Parts []*progCircuit
	Extra frontend.Variable
}

// mix runs the parts interleaved: all contexts are made first, and the claims
// are compared after all programs have run.
func mix(api frontend.API, parts []*progCircuit, extra frontend.Variable) {
	ctxs := make([]float.Context, len(parts))
	for i, c := range parts {
		ctxs[i] = float.NewContext(api, c.p.Range, c.p.E, c.p.M)
	}
	g := gadget.New(api, parts[0].p.Range, 40)
	vs := make([][]float.FloatVar, len(parts))
	for i, c := range parts {
		vs[i] = c.p.circuit(&ctxs[i], c.In, nil)
		api.AssertIsEqual(g.Max(extra, i, 30), extra)
	}
	for i, c := range parts {
		n := len(vs[i]) - len(c.Claim)
		for k, w := range c.Claim {
			ctxs[i].AssertIsEqual(vs[i][n+k], ctxs[i].NewFloat(w))
		}
	}
}

func (c *mixCircuit) Define(api frontend.API) error {
	mix(api, c.Parts, c.Extra)
	return nil
}

const mixExtra = 1000

func (c MixCase) assign(values bool) *mixCircuit {
	m := &mixCircuit{}
	for i := range c.Parts {
		p := &c.Parts[i]
		if values {
			m.Parts = append(m.Parts, progAssign(&p.Prog, p.Prog.In, p.Claim))
		} else {
			m.Parts = append(m.Parts, progAssign(&p.Prog, nil, make([]fw.Hex, len(p.Claim))))
		}
	}
	if values {
		m.Extra = mixExtra
	}
	return m
}

func checkMix(c MixCase) string {
	want := true
	for _, p := range c.Parts {
		want = want && p.accepted()
	}
	var err error
	if c.Curve == "" {
		e := engineFor(c.Kind == "scs")
		r := e.Run(func(api frontend.API) {
			m := c.assign(true)
			for _, p := range m.Parts {
				for i := range p.In {
					p.In[i] = e.In(p.In[i].(uint64))
				}
				for i := range p.Claim {
					p.Claim[i] = e.In(p.Claim[i].(uint64))
				}
			}
			mix(api, m.Parts, e.In(uint64(mixExtra)))
		})
		if !r.Accepted {
			err = fmt.Errorf("%s", r.Why)
		}
	} else {
		field := curveOf(c.Curve).ScalarField()
		var ccs constraint.ConstraintSystem
		if cerr := guarded(func() (err error) {
			ccs, err = frontend.Compile(field, builderOf(c.Kind), c.assign(false))
			return
		}); cerr != nil {
			return "does not compile: " + cerr.Error()
		}
		err = solved(ccs, c.assign(true), field)
	}
	if (err == nil) != want {
		return fmt.Sprintf("accepted=%v, want %v (%v)", err == nil, want, err)
	}
	return ""
}

func genMix(r *fw.R, i int) MixCase {
	c := MixCase{Kind: r.PickS("r1cs", "scs")}
	if r.P(1, 4) {
		c.Curve = curves[r.N(len(curves))].String()
	}
	fs := []ref.Fmt{ref.F32, ref.F64, E5M2, ref.F32, {E: 4, M: 3}, {E: 5, M: 10}, {E: 8, M: 7}}
	wrong := r.P(1, 3)
	for n := r.Range(2, 4); n > 0; n-- {
		d := genCC(r, fs[r.N(len(fs))], true)
		if !wrong { // true claims
			v := d.Prog.native()
			for k := range d.Claim {
				d.Claim[k] = fw.Hex(v[len(v)-len(d.Claim)+k])
			}
		}
		d.Prog.Range = d.Confs[0].Range
		d.Confs = nil
		c.Parts = append(c.Parts, d)
	}
	return c
}

func shrinkMix(c MixCase) []MixCase {
	var out []MixCase
	for i := range c.Parts {
		if len(c.Parts) > 1 {
			d := c
			d.Parts = append(append([]CCase{}, c.Parts[:i]...), c.Parts[i+1:]...)
			out = append(out, d)
		}
	}
	return out
}

func unitsMix(c MixCase) []fw.Unit {
	b, _ := json.Marshal(c)
	lab := fmt.Sprintf("%d contexts ", len(c.Parts))
	acc := "accept"
	fm := map[ref.Fmt]bool{}
	for _, p := range c.Parts {
		fm[p.Prog.f()] = true
		if !p.accepted() {
			acc = "reject"
		}
	}
	return []fw.Unit{{Hash: fw.HS(string(b)), NonTrivial: len(fm) > 1, Label: lab + acc}}
}

// ---- C02

type ProofCase struct {
	Prog    Prog     `json:"prog"`
	Claim   []fw.Hex `json:"claim"`
	Backend string   `json:"backend"`
	Curve   string   `json:"curve"`
	Tamper  []Tamper `json:"tamper"`
}

// Tamper changes public value K by xor with X.
type Tamper struct {
	K int    `json:"k"`
	X fw.Hex `json:"x"`
}

// proveVerify sets up, proves and returns a verifier for other public values.
func proveVerify(backend string, ccs constraint.ConstraintSystem, field *big.Int, a frontend.Circuit, bad []frontend.Circuit) (verify func(pub frontend.Circuit) error, badErr []error, err error) {
	w, err := frontend.NewWitness(a, field)
	if err != nil {
		return nil, nil, err
	}
	if backend == "groth16" {
		pk, vk, err := groth16.Setup(ccs)
		if err != nil {
			return nil, nil, err
		}
		for _, b := range bad {
			bw, err := frontend.NewWitness(b, field)
			if err != nil {
				return nil, nil, err
			}
			_, perr := groth16.Prove(ccs, pk, bw)
			badErr = append(badErr, perr)
		}
		proof, err := groth16.Prove(ccs, pk, w)
		if err != nil {
			return nil, nil, fmt.Errorf("prove: %w", err)
		}
		return func(pub frontend.Circuit) error {
			pw, err := frontend.NewWitness(pub, field, frontend.PublicOnly())
			if err != nil {
				return err
			}
			return groth16.Verify(proof, vk, pw)
		}, badErr, nil
	}
	srs, lag, err := unsafekzg.NewSRS(ccs)
	if err != nil {
		return nil, nil, err
	}
	pk, vk, err := plonk.Setup(ccs, srs, lag)
	if err != nil {
		return nil, nil, err
	}
	for _, b := range bad {
		bw, err := frontend.NewWitness(b, field)
		if err != nil {
			return nil, nil, err
		}
		_, perr := plonk.Prove(ccs, pk, bw)
		badErr = append(badErr, perr)
	}
	proof, err := plonk.Prove(ccs, pk, w)
	if err != nil {
		return nil, nil, fmt.Errorf("prove: %w", err)
	}
	return func(pub frontend.Circuit) error {
		pw, err := frontend.NewWitness(pub, field, frontend.PublicOnly())
		if err != nil {
			return err
		}
		return plonk.Verify(proof, vk, pw)
	}, badErr, nil
}

func kindOfBackend(b string) string {
	if b == "plonk" {
		return "scs"
	}
	return "r1cs"
}

func checkProof(c ProofCase) (why string) {
	if err := guarded(func() error { why = checkProof1(c); return nil }); err != nil {
		return err.Error()
	}
	return
}

func checkProof1(c ProofCase) string {
	field := curveOf(c.Curve).ScalarField()
	ccs, err := compileProg(&c.Prog, len(c.Claim), field, kindOfBackend(c.Backend))
	if err != nil {
		return "does not compile: " + err.Error()
	}
	var bad []frontend.Circuit
	var badClaims [][]fw.Hex
	for _, t := range c.Tamper {
		cl := append([]fw.Hex{}, c.Claim...)
		cl[t.K] ^= t.X
		badClaims = append(badClaims, cl)
		bad = append(bad, progAssign(&c.Prog, c.Prog.In, cl))
	}
	good := progAssign(&c.Prog, c.Prog.In, c.Claim)
	f := c.Prog.f()
	verify, badErr, err := proveVerify(c.Backend, ccs, field, good, bad)
	if err != nil {
		return "true statement: " + err.Error()
	}
	if err := verify(good); err != nil {
		return "proof of a true statement does not verify: " + err.Error()
	}
	for i, b := range bad {
		// changed public values never verify with this proof
		if verify(b) == nil {
			return fmt.Sprintf("proof verifies for public values %v, made for %v", badClaims[i], c.Claim)
		}
		same := true
		for k := range c.Claim {
			same = same && f.Same(uint64(c.Claim[k]), uint64(badClaims[i][k]))
		}
		if !same && badErr[i] == nil {
			return fmt.Sprintf("a proof was made for the false claim %v (true: %v)", badClaims[i], c.Claim)
		}
	}
	return ""
}

func genProof(r *fw.R, f ref.Fmt, backend string) ProofCase {
	c := ProofCase{Prog: genProg(r, f, 1+r.N(3)), Backend: backend, Curve: "bn254"}
	if r.P(1, 4) {
		c.Curve = r.PickS("bls12_381", "bls12_377")
	}
	c.Prog.Range = uint(r.Range(6, 10))
	v := c.Prog.native()
	n := len(c.Prog.Steps)
	for _, b := range v[len(v)-n:] {
		c.Claim = append(c.Claim, fw.Hex(b))
	}
	for k := 0; k < n; k++ {
		c.Tamper = append(c.Tamper, Tamper{k, fw.Hex(uint64(1) << r.N(int(f.Width())))})
	}
	c.Tamper = append(c.Tamper, Tamper{r.N(n), fw.Hex(uint64(1) << (f.Width() - 1))})
	c.Tamper = append(c.Tamper, Tamper{r.N(n), 1})
	return c
}

func unitsProof(c ProofCase) []fw.Unit {
	var us []fw.Unit
	b, _ := json.Marshal(c)
	h := fw.HS(string(b))
	us = append(us, fw.Unit{Hash: h, NonTrivial: true, Label: c.Backend + " " + c.Curve + " verify"})
	for i := range c.Tamper {
		us = append(us, fw.Unit{Hash: fw.H(h, uint64(i+1)), NonTrivial: true, Label: c.Backend + " tampered"})
	}
	return us
}

// ClaimCase is a program with many claimed values of its last result.
type ClaimCase struct {
	Prog   Prog     `json:"prog"`
	Claims []fw.Hex `json:"claims"`
	SCS    bool     `json:"scs,omitempty"`
}

func genClaims(r *fw.R, f ref.Fmt) ClaimCase {
	c := ClaimCase{Prog: genProg(r, f, 1+r.N(3)), SCS: r.Bool()}
	c.Prog.Range = uint(r.Range(2, 12))
	if r.P(1, 5) {
		// few distinct magnitudes: exact cancellations, infinities, NaNs
		pool := []uint64{f.Zero(0), f.Zero(1), f.Inf(0), f.Inf(1), f.NaN(), anyFloat(r, f), anyFloat(r, f)}
		for i := range c.Prog.In {
			c.Prog.In[i] = fw.Hex(pool[r.N(len(pool))])
		}
	}
	v := c.Prog.native()
	t := v[len(v)-1]
	add := func(b uint64) { c.Claims = append(c.Claims, fw.Hex(b&f.Mask())) }
	add(t)
	for k := uint(0); k < f.Width(); k++ {
		add(t ^ 1<<k)
	}
	add(t + 1)
	add(t - 1)
	add(t + 2)
	add(t - 2)
	for s := uint64(0); s < 2; s++ {
		add(f.Zero(s))
		add(f.Inf(s))
		add(f.NaN() ^ s<<(f.Width()-1))
		add(f.Zero(s) | 1)
		add(f.Inf(s) - 1)
		add(f.Inf(s) + 1)
	}
	for k := 0; k < 8; k++ {
		add(anyFloat(r, f))
	}
	// results of the other steps and inputs
	for k := len(v) - 2; k >= 0 && k > len(v)-6; k-- {
		add(v[k])
		add(v[k] ^ 1<<(f.Width()-1))
	}
	return c
}

func checkClaims(c ClaimCase) string {
	for _, w := range c.Claims {
		d := CCase{Prog: c.Prog, Claim: []fw.Hex{w}, Confs: []Conf{{Kind: "r1cs", Range: c.Prog.Range}}}
		if c.SCS {
			d.Confs[0].Kind = "scs"
		}
		if s := checkCC(d); s != "" {
			return fmt.Sprintf("claim %#x: %s", uint64(w), s)
		}
	}
	return ""
}

func shrinkClaims(c ClaimCase) []ClaimCase {
	var out []ClaimCase
	if len(c.Claims) > 1 {
		for i := range c.Claims {
			d := c
			d.Claims = c.Claims[i : i+1]
			out = append(out, d)
		}
		return out
	}
	for _, p := range shrinkProg(c.Prog) {
		d := c
		d.Prog = p
		out = append(out, d)
	}
	return out
}

func unitsClaims(c ClaimCase) []fw.Unit {
	f := c.Prog.f()
	b, _ := json.Marshal(c.Prog)
	h := fw.HS(string(b))
	v := c.Prog.native()
	t := v[len(v)-1]
	var us []fw.Unit
	for _, w := range c.Claims {
		lab := "false claim"
		if f.Same(t, uint64(w)) {
			lab = "true claim"
		}
		if f.IsNaN(t) {
			lab += " of NaN"
		}
		us = append(us, fw.Unit{Hash: fw.H(h, uint64(w)), NonTrivial: true, Label: lab})
	}
	return us
}

func C02(x *fw.Ctx) {
	std(x, "random programs with public results and location statements, proved with Groth16 and PLONK on three curves; the proof must verify, must not verify for any altered public value, and no proof may exist for a false result; and, on the constraints alone, programs with some 60 to 100 claimed results each (every single-bit change, neighbours, special values, other values of the program): exactly the true one is accepted; distinct by statement and alteration")
	for _, f := range []ref.Fmt{ref.F32, ref.F64, E5M2} {
		f := f
		fw.Run(x, fw.Stage[ClaimCase]{Name: "claims-" + f.String(), N: x.Scale(600, 60000), Gen: func(r *fw.R, i int) ClaimCase { return genClaims(r, f) },
			Check: checkClaims, Shrink: shrinkClaims, Units: unitsClaims})
	}
	for _, b := range []string{"groth16", "plonk"} {
		b := b
		fw.Run(x, fw.Stage[ProofCase]{Name: b, N: x.Scale(12, 400), Gen: func(r *fw.R, i int) ProofCase {
			f := ref.F32
			if r.P(1, 3) {
				f = ref.F64
			}
			return genProof(r, f, b)
		}, Check: checkProof, Units: unitsProof, Serial: true})
	}
	locProofs(x)
}

// ---- C03

// HistCase is a history of compilations.
type HistCase struct {
	Progs []Prog `json:"progs"`
	Kinds []string
	Curve string
	Other bool `json:"other,omitempty"` // also compile in another process
	// location circuits compiled along with the programs
	Loc []bool `json:"loc,omitempty"` // 64-bit or 32-bit
}

// csHash serialises and hashes a constraint system.
func csHash(ccs constraint.ConstraintSystem) (string, error) {
	h := sha256.New()
	if _, err := ccs.(io.WriterTo).WriteTo(h); err != nil {
		return "", err
	}
	return fmt.Sprintf("%x", h.Sum(nil)), nil
}

// compileHash compiles with the given placeholder values.
func compileHash(p *Prog, kind string, field *big.Int, place uint64, set bool) (h string, err error) {
	err = guarded(func() error {
		n := min(2, len(p.Steps))
		var c *progCircuit
		if set {
			in := make([]fw.Hex, len(p.In))
			cl := make([]fw.Hex, n)
			for i := range in {
				in[i] = fw.Hex(place * uint64(i+1))
			}
			for i := range cl {
				cl[i] = fw.Hex(place + uint64(i))
			}
			c = progAssign(p, in, cl)
		} else {
			c = progAssign(p, nil, make([]fw.Hex, n))
		}
		ccs, err := frontend.Compile(field, builderOf(kind), c)
		if err != nil {
			return err
		}
		h, err = csHash(ccs)
		return err
	})
	return
}

// CompileHashes is the entry point of the other process.
func CompileHashes(in []byte) (string, error) {
	var c HistCase
	if err := json.Unmarshal(in, &c); err != nil {
		return "", err
	}
	var out []string
	for i := len(c.Progs) - 1; i >= 0; i-- { // reverse order on purpose
		h, err := compileHash(&c.Progs[i], c.Kinds[i], curveOf(c.Curve).ScalarField(), 1, true)
		if err != nil {
			return "", err
		}
		out = append([]string{h}, out...)
	}
	for i := range c.Loc {
		h, err := locHash(c, i, uint64(i)*77+1)
		if err != nil {
			return "", err
		}
		out = append(out, h)
	}
	return strings.Join(out, " "), nil
}

func checkRepro(c HistCase) string {
	field := curveOf(c.Curve).ScalarField()
	want := make([]string, len(c.Progs))
	for i := range c.Progs {
		h, err := compileHash(&c.Progs[i], c.Kinds[i], field, 0, false)
		if err != nil {
			return "does not compile: " + err.Error()
		}
		want[i] = h
	}
	n := len(c.Progs)
	for i := range c.Loc {
		h, err := locHash(c, i, 0)
		if err != nil {
			return "location circuit does not compile: " + err.Error()
		}
		want = append(want, h)
	}
	// again, concurrently, interleaved and with values in the placeholders
	var wg sync.WaitGroup
	got := make([]string, 3*len(want))
	for k := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			i := k % len(want)
			var h string
			var err error
			if i < n {
				h, err = compileHash(&c.Progs[i], c.Kinds[i], field, uint64(k)*0x3f800001, k%2 == 1)
			} else {
				h, err = locHash(c, i-n, uint64(k)*0x3f800001)
			}
			if err != nil {
				h = err.Error()
			}
			got[k] = h
		}()
	}
	wg.Wait()
	for k := range got {
		if i := k % len(want); got[k] != want[i] {
			return fmt.Sprintf("compilation %d of program %d differs: %s, first %s", k, i, got[k], want[i])
		}
	}
	if c.Other {
		exe, err := os.Executable()
		if err != nil {
			fw.Fatal("%v", err)
		}
		b, _ := json.Marshal(c)
		cmd := exec.Command(exe, "compile-hashes")
		cmd.Stdin = bytes.NewReader(b)
		cmd.Stderr = os.Stderr
		o, err := cmd.Output()
		if err != nil {
			return "other process: " + err.Error()
		}
		if s := strings.TrimSpace(string(o)); s != strings.Join(want, " ") {
			return fmt.Sprintf("another process compiles %s, this one %s", s, strings.Join(want, " "))
		}
	}
	return ""
}

func genRepro(r *fw.R, i int) HistCase {
	c := HistCase{Curve: curves[r.N(len(curves))].String(), Other: i%4 == 0}
	for k := 1 + r.N(3); k > 0; k-- {
		f := ref.F32
		if r.P(1, 3) {
			f = ref.F64
		} else if r.P(1, 4) {
			f = E5M2
		}
		p := genProg(r, f, 1+r.N(5))
		p.Range = uint(r.Range(2, 10))
		if r.P(2, 3) {
			p.Range = 0
		}
		c.Progs = append(c.Progs, p)
		c.Kinds = append(c.Kinds, r.PickS("r1cs", "scs"))
	}
	return c
}

func C03(x *fw.Ctx) {
	std(x, "histories of 1 to 3 random circuits (formats, table widths, both system kinds, seven curves) compiled once, then again concurrently and interleaved with other values in the placeholders, and for a quarter of them in another process in reverse order; all serialisations must be identical; distinct by history")
	fw.Run(x, fw.Stage[HistCase]{Name: "repeat", N: x.Scale(100, 5000), Gen: genRepro, Check: checkRepro})
	locRepro(x)
}

// ---- G04

func checkCost(c Prog) string {
	var native, lookup int
	pc := progAssign(&c, nil, make([]fw.Hex, min(1, len(c.Steps))))
	pc.stats = func(api frontend.API, ctx *float.Context) {
		native = api.(frontend.Builder).GetNbConstraints()
		lookup = int(ctx.Gadget.LookupQueryConstraints() + ctx.Gadget.LookupEntryConstraints() + ctx.Gadget.LookupFinalizeConstraints())
	}
	var ccs constraint.ConstraintSystem
	if err := guarded(func() (err error) {
		ccs, err = frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, pc, frontend.WithCompressThreshold(0))
		return
	}); err != nil {
		return "does not compile: " + err.Error()
	}
	if got := ccs.GetNbConstraints(); got != native+lookup {
		return fmt.Sprintf("%d constraints compiled, %d emitted + %d reported for lookups", got, native, lookup)
	}
	return ""
}

func unitsCost(c Prog) []fw.Unit {
	b, _ := json.Marshal(c)
	return []fw.Unit{{Hash: fw.HS(string(b)), NonTrivial: len(c.Steps) > 0, Label: fmt.Sprintf("width%d", c.Range)}}
}

// GadgetStep is one gadget call on values 0..n-1 made so far.
type GadgetStep struct {
	Op  string `json:"op"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	Len uint   `json:"len"`
}

type GProg struct {
	Range uint         `json:"range"`
	Size  uint         `json:"size"`
	Bare  bool         `json:"bare,omitempty"` // no lookup besides those of the steps
	Const []int64      `json:"const,omitempty"`
	Steps []GadgetStep `json:"steps"`
}

type gprogCircuit struct {
	In    []frontend.Variable `gnark:",secret"`
	p     *GProg
	stats func(api frontend.API, lookup int)
}

func (c *gprogCircuit) Define(api frontend.API) error {
	g := gadget.New(api, c.p.Range, c.p.Size)
	v := append([]frontend.Variable{}, c.In...)
	for _, k := range c.p.Const {
		v = append(v, k)
	}
	if !c.p.Bare {
		v = append(v, g.QueryPowerOf2(c.In[0]))
		g.AssertBitLength(c.In[1], 5, modes[0])
	}
	for _, s := range c.p.Steps {
		a, b := v[s.A%len(v)], v[s.B%len(v)]
		switch s.Op {
		case "pow":
			v = append(v, g.QueryPowerOf2(a))
		case "loose", "tight", "unknown":
			g.AssertBitLength(a, s.Len, modes[map[string]int{"loose": 0, "tight": 1, "unknown": 2}[s.Op]])
		case "abs":
			x, y := g.Abs(a, s.Len)
			v = append(v, x, y)
		case "pos":
			v = append(v, g.IsPositive(a, s.Len))
		case "max":
			v = append(v, g.Max(a, b, s.Len))
		case "min":
			v = append(v, g.Min(a, b, s.Len))
		case "eq":
			v = append(v, g.IsEq(a, b))
		case "mul":
			v = append(v, api.Mul(a, b))
		}
	}
	c.stats(api, int(g.LookupQueryConstraints()+g.LookupEntryConstraints()+g.LookupFinalizeConstraints()))
	return nil
}

func checkGCost(p GProg) string {
	var native, lookup int
	c := &gprogCircuit{p: &p, In: make([]frontend.Variable, 4), stats: func(api frontend.API, l int) {
		native, lookup = api.(frontend.Builder).GetNbConstraints(), l
	}}
	var ccs constraint.ConstraintSystem
	if err := guarded(func() (err error) {
		ccs, err = frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, c, frontend.WithCompressThreshold(0))
		return
	}); err != nil {
		return "does not compile: " + err.Error()
	}
	if got := ccs.GetNbConstraints(); got != native+lookup {
		return fmt.Sprintf("%d constraints compiled, %d emitted + %d reported for lookups", got, native, lookup)
	}
	return ""
}

func G04(x *fw.Ctx) {
	std(x, "random float programs (1 to 16 steps) and random gadget programs compiled to R1CS for fixed table widths 2..12; non-trivial: at least one step; distinct by program and width")
	for _, f := range []ref.Fmt{ref.F32, ref.F64, E5M2} {
		f := f
		fw.Run(x, fw.Stage[Prog]{Name: f.String(), N: x.Scale(250, 6000), Gen: func(r *fw.R, i int) Prog {
			c := genProg(r, f, 1+r.N(16))
			c.Range = costWidth(r)
			return c
		}, Check: checkCost, Shrink: shrinkCost, Units: unitsCost})
	}
	fw.Run(x, fw.Stage[GProg]{Name: "gadgets", N: x.Scale(2000, 40000), Gen: func(r *fw.R, i int) GProg {
		p := GProg{Range: costWidth(r), Size: uint(r.Range(2, 76)), Bare: r.P(1, 3)}
		for r.P(1, 4) {
			p.Const = append(p.Const, int64(r.Range(-3, 40)))
		}
		k := 1 + r.N(12)
		if r.P(1, 50) {
			k = 20 + r.N(600)
		}
		for ; k > 0; k-- {
			p.Steps = append(p.Steps, GadgetStep{r.PickS("pow", "loose", "tight", "unknown", "abs", "pos", "max", "min", "eq", "mul"), r.N(20), r.N(20), uint(1 + r.N(80))})
		}
		return p
	}, Check: checkGCost, Shrink: func(p GProg) []GProg {
		var out []GProg
		if n := len(p.Steps) / 2; n > 8 {
			q, r := p, p
			q.Steps, r.Steps = p.Steps[:n], p.Steps[n:]
			out = append(out, q, r)
		}
		for k := range p.Steps {
			q := p
			q.Steps = append(append([]GadgetStep{}, p.Steps[:k]...), p.Steps[k+1:]...)
			out = append(out, q)
		}
		return out
	}})
}

// costWidth: compiling without compression is quadratic in the table size.
func costWidth(r *fw.R) uint {
	if r.P(1, 60) {
		return uint(r.Range(11, 12))
	}
	return uint(r.Range(2, 10))
}

func shrinkCost(c Prog) []Prog {
	var out []Prog
	for _, d := range shrinkProg(c) {
		if d.Range != 0 {
			out = append(out, d)
		}
	}
	return out
}

var _ = eng.New

// ---- C01: dishonest advice gives the same verdict in the harness engine and
// in the compiled system (this ties the engine to the real constraints).

type ForgeCase struct {
	Prog  Prog     `json:"prog"`
	Claim []fw.Hex `json:"claim"`
	Kind  string   `json:"kind"`
	Salt  fw.Hex   `json:"salt"`
	Rate  uint64   `json:"rate"`
}

// forgeCall changes one request in Rate, as a pure function of the request.
func (c ForgeCase) forgeCall(call *eng.HintCall) bool {
	h := fw.H(uint64(c.Salt), fw.HS(call.Name))
	for _, v := range call.In {
		h = fw.H(h, fw.HS(v.String()))
	}
	if h%c.Rate != 0 {
		return false
	}
	r := fw.NewR(h, "forge", 0)
	if r.Bool() && solveMut(r, call, c.Prog.E+c.Prog.M+1) {
		return true
	}
	genericMut(r, call)
	return true
}

// forgeRun evaluates the case on the engine.
func (c ForgeCase) forgeRun() (eng.Result, int) {
	p := c.Prog
	n := 0
	e := engineFor(c.Kind == "scs", eng.WithStrategy(func(call *eng.HintCall) {
		if c.forgeCall(call) {
			n++
		}
	}))
	r := e.Run(func(api frontend.API) {
		ctx := float.NewContext(api, p.Range, p.E, p.M)
		var in []frontend.Variable
		for _, b := range p.In {
			in = append(in, e.In(uint64(b)))
		}
		vs := p.circuit(&ctx, in, nil)
		for k, w := range c.Claim {
			ctx.AssertIsEqual(vs[len(vs)-len(c.Claim)+k], ctx.NewFloat(e.In(uint64(w))))
		}
	})
	return r, n
}

func unitsForge(c ForgeCase) []fw.Unit {
	r, n := c.forgeRun()
	b, _ := json.Marshal(c)
	lab := "reject"
	if r.Accepted {
		lab = "accept"
	}
	if n == 0 {
		lab = "unchanged"
	}
	return []fw.Unit{{Hash: fw.HS(string(b)), NonTrivial: n > 0, Label: lab}}
}

func checkForge(c ForgeCase) string {
	field := ecc.BN254.ScalarField()
	p := c.Prog
	r, _ := c.forgeRun()
	if r.Crash {
		return ""
	}
	ccs, err := compileProg(&p, len(c.Claim), field, c.Kind)
	if err != nil {
		return "does not compile: " + err.Error()
	}
	var opts []solver.Option
	for _, h := range solver.GetRegisteredHints() {
		name := solver.GetHintName(h)
		if strings.HasPrefix(name, "github.com/consensys/gnark") {
			continue
		}
		hint := h
		opts = append(opts, solver.OverrideHint(solver.GetHintID(h), func(mod *big.Int, in, out []*big.Int) error {
			keep := make([]*big.Int, len(in))
			for i := range in {
				keep[i] = new(big.Int).Set(in[i])
			}
			herr := eng.CallHint(hint, name, in, out)
			for i := range out {
				out[i].Mod(out[i], mod)
			}
			c.forgeCall(&eng.HintCall{Name: name, In: keep, Out: out, Failed: herr != nil})
			return nil
		}))
	}
	err = solved(ccs, progAssign(&p, p.In, c.Claim), field, opts...)
	if (err == nil) != r.Accepted {
		return fmt.Sprintf("compiled accepts=%v (%v), engine accepts=%v (%s)", err == nil, err, r.Accepted, r.Why)
	}
	return ""
}

func genForge(r *fw.R, f ref.Fmt) ForgeCase {
	c := ForgeCase{Prog: genProg(r, f, 1+r.N(3)), Kind: r.PickS("r1cs", "scs"), Salt: fw.Hex(r.U64()), Rate: uint64(r.Pick(5, 20, 50, 100))}
	c.Prog.Range = uint(r.Range(2, 9))
	v := c.Prog.native()
	c.Claim = []fw.Hex{fw.Hex(v[len(v)-1])}
	return c
}
