package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"

	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test/unsafekzg"

	"verif/harness/fw"
	"verif/harness/locshim"
	"verif/harness/ref"
)

// ---- C05

// StoreCase is circuits that one process compiles and others use.
type StoreCase struct {
	Sides  []Side  `json:"sides"`
	Mangle []int   `json:"mangle,omitempty"` // order in which the circuits are used
	Fresh  bool    `json:"fresh,omitempty"`  // the other processes are new
	Prove  bool    `json:"prove,omitempty"`
	Loc    []KCase `json:"loc,omitempty"`
}

// Job is what the other process is given: nothing but stored bytes.
type Job struct {
	Do    string   `json:"do"` // solve, prove, verify
	Curve string   `json:"curve"`
	Kind  string   `json:"kind"`
	CS    []byte   `json:"cs,omitempty"`
	PK    []byte   `json:"pk,omitempty"`
	VK    []byte   `json:"vk,omitempty"`
	Proof [][]byte `json:"proof,omitempty"`
	Wit   [][]byte `json:"wit"`
}

// Done is what it answers for each witness.
type Done struct {
	Err []string `json:"err"` // empty: solved, proved, verified
	Out [][]byte `json:"out"` // digest of the solution, proof
}

func stored(v any) []byte {
	var b bytes.Buffer
	if _, err := v.(io.WriterTo).WriteTo(&b); err != nil {
		fw.Fatal("%v", err)
	}
	return b.Bytes()
}

func restore(v any, b []byte) error {
	_, err := v.(io.ReaderFrom).ReadFrom(bytes.NewReader(b))
	return err
}

// solution digests everything a solver finds.
func solution(ccs constraint.ConstraintSystem, w witness.Witness) (out []byte, err error) {
	err = guarded(func() error {
		s, err := ccs.Solve(w, commitOverride())
		if err != nil {
			return err
		}
		h := sha256.New()
		if _, err := s.(io.WriterTo).WriteTo(h); err != nil {
			return err
		}
		out = h.Sum(nil)
		return nil
	})
	return
}

func (j Job) run() (d Done) {
	id := curveOf(j.Curve)
	fail := func(err error) Done {
		for range j.Wit {
			d.Err = append(d.Err, err.Error())
			d.Out = append(d.Out, nil)
		}
		return d
	}
	var ccs constraint.ConstraintSystem
	if j.Do != "verify" {
		ccs = groth16.NewCS(id)
		if j.Kind == "scs" {
			ccs = plonk.NewCS(id)
		}
		if err := restore(ccs, j.CS); err != nil {
			return fail(fmt.Errorf("circuit: %w", err))
		}
	}
	var one func(k int, w witness.Witness) ([]byte, error)
	switch j.Do + " " + j.Kind {
	case "solve r1cs", "solve scs":
		one = func(k int, w witness.Witness) ([]byte, error) { return solution(ccs, w) }
	case "prove r1cs":
		pk := groth16.NewProvingKey(id)
		if err := restore(pk, j.PK); err != nil {
			return fail(fmt.Errorf("proving key: %w", err))
		}
		one = func(k int, w witness.Witness) ([]byte, error) {
			p, err := groth16.Prove(ccs, pk, w)
			if err != nil {
				return nil, err
			}
			return stored(p), nil
		}
	case "prove scs":
		pk := plonk.NewProvingKey(id)
		if err := restore(pk, j.PK); err != nil {
			return fail(fmt.Errorf("proving key: %w", err))
		}
		one = func(k int, w witness.Witness) ([]byte, error) {
			p, err := plonk.Prove(ccs, pk, w)
			if err != nil {
				return nil, err
			}
			return stored(p), nil
		}
	case "verify r1cs":
		vk := groth16.NewVerifyingKey(id)
		if err := restore(vk, j.VK); err != nil {
			return fail(fmt.Errorf("verifying key: %w", err))
		}
		one = func(k int, w witness.Witness) ([]byte, error) {
			p := groth16.NewProof(id)
			if err := restore(p, j.Proof[k]); err != nil {
				return nil, err
			}
			return nil, groth16.Verify(p, vk, w)
		}
	case "verify scs":
		vk := plonk.NewVerifyingKey(id)
		if err := restore(vk, j.VK); err != nil {
			return fail(fmt.Errorf("verifying key: %w", err))
		}
		one = func(k int, w witness.Witness) ([]byte, error) {
			p := plonk.NewProof(id)
			if err := restore(p, j.Proof[k]); err != nil {
				return nil, err
			}
			return nil, plonk.Verify(p, vk, w)
		}
	}
	for k := range j.Wit {
		w, err := witness.New(id.ScalarField())
		if err == nil {
			err = w.UnmarshalBinary(j.Wit[k])
		}
		var out []byte
		if err == nil {
			err = guarded(func() (err error) { out, err = one(k, w); return })
		}
		msg := ""
		if err != nil {
			msg = "refused: " + err.Error()
		}
		d.Err = append(d.Err, msg)
		d.Out = append(d.Out, out)
	}
	return d
}

// StoreChild is the entry point of the other process of C05. It never compiles.
func StoreChild() { serveLines(Job.run) }

var storeChildren = &children{"store-child", selfExe, make(chan *child, 16)}

// storedCircuit is a compiled circuit and statements about it.
type storedCircuit struct {
	name        string
	kind, curve string
	ccs         constraint.ConstraintSystem
	assign      []frontend.Circuit
	truth       []bool
	bad         []frontend.Circuit // other public values for each statement
}

func (c StoreCase) circuits() (cs []storedCircuit, why string) {
	for i, s := range c.Sides {
		ccs, err := compileProg(&s.Prog, len(s.Claims[0]), curveOf(s.Curve).ScalarField(), s.Kind)
		if err != nil {
			return nil, fmt.Sprintf("circuit %d does not compile: %v", i, err)
		}
		o := storedCircuit{name: fmt.Sprintf("circuit %d", i), kind: s.Kind, curve: s.Curve, ccs: ccs}
		for k := range s.In {
			o.assign = append(o.assign, progAssign(&s.Prog, s.In[k], s.Claims[k]))
			o.truth = append(o.truth, s.truth(k))
			b := append([]fw.Hex{}, s.Claims[k]...)
			b[k%len(b)] ^= 1
			o.bad = append(o.bad, progAssign(&s.Prog, s.In[k], b))
		}
		cs = append(cs, o)
	}
	for i, l := range c.Loc {
		o := storedCircuit{name: fmt.Sprintf("location circuit %d", i), kind: l.Kind, curve: l.Curve}
		var err error
		if o.ccs, err = frontend.Compile(curveOf(l.Curve).ScalarField(), builderOf(l.Kind), locshim.Of(l.F64).Circuit(0, 0, 0, 0, 0, 0)); err != nil {
			return nil, "location circuit does not compile: " + err.Error()
		}
		for k, loc := range l.Locs {
			claim, bad := locClaim(LCase{F64: l.F64, SCS: l.Kind == "scs", Loc: loc})
			if bad != "" {
				return nil, "location: " + bad
			}
			wrong := claim
			wrong[k%3] += l.Off[k]
			o.assign = append(o.assign, l.assign(loc, claim), l.assign(loc, wrong))
			o.truth = append(o.truth, true, false)
			o.bad = append(o.bad, l.assign(loc, wrong), l.assign(loc, claim))
		}
		cs = append(cs, o)
	}
	return cs, ""
}

func packWitness(a frontend.Circuit, curve string, opts ...frontend.WitnessOption) (witness.Witness, []byte) {
	w, err := frontend.NewWitness(a, curveOf(curve).ScalarField(), opts...)
	if err != nil {
		fw.Fatal("%v", err)
	}
	b, err := w.MarshalBinary()
	if err != nil {
		fw.Fatal("%v", err)
	}
	return w, b
}

func checkStore(c StoreCase) (why string) {
	if err := guarded(func() error { why = checkStore1(c); return nil }); err != nil {
		return err.Error()
	}
	return
}

func checkStore1(c StoreCase) string {
	cs, why := c.circuits()
	if why != "" {
		return why
	}
	for _, i := range c.Mangle {
		if i >= len(cs) {
			continue
		}
		o := cs[i]
		j := Job{Do: "solve", Curve: o.curve, Kind: o.kind, CS: stored(o.ccs)}
		var ws []witness.Witness
		for _, a := range o.assign {
			w, b := packWitness(a, o.curve)
			ws = append(ws, w)
			j.Wit = append(j.Wit, b)
		}
		var d Done
		if bad := storeChildren.ask(j, &d, c.Fresh); bad != "" {
			return o.name + " in another process: " + bad
		}
		for k := range o.assign {
			if (d.Err[k] == "") != o.truth[k] {
				return fmt.Sprintf("%s, statement %d, in another process: accepted=%v, want %v (%s)", o.name, k, d.Err[k] == "", o.truth[k], d.Err[k])
			}
			here, err := solution(o.ccs, ws[k])
			if (err == nil) != o.truth[k] {
				return fmt.Sprintf("%s, statement %d, where it was compiled: accepted=%v, want %v (%v)", o.name, k, err == nil, o.truth[k], err)
			}
			if !bytes.Equal(here, d.Out[k]) {
				return fmt.Sprintf("%s, statement %d: another process finds a different solution", o.name, k)
			}
		}
		if c.Prove {
			if why := proveElsewhere(c, o, j); why != "" {
				return o.name + ": " + why
			}
		}
	}
	return ""
}

// proveElsewhere sets up here, proves in a second and verifies in a third process.
func proveElsewhere(c StoreCase, o storedCircuit, j Job) string {
	v := Job{Do: "verify", Curve: o.curve, Kind: o.kind}
	j.Do = "prove"
	if o.kind == "scs" {
		srs, lag, err := unsafekzg.NewSRS(o.ccs)
		if err != nil {
			fw.Fatal("%v", err)
		}
		pk, vk, err := plonk.Setup(o.ccs, srs, lag)
		if err != nil {
			return "setup: " + err.Error()
		}
		j.PK, v.VK = stored(pk), stored(vk)
	} else {
		pk, vk, err := groth16.Setup(o.ccs)
		if err != nil {
			return "setup: " + err.Error()
		}
		j.PK, v.VK = stored(pk), stored(vk)
	}
	var d, e Done
	if bad := storeChildren.ask(j, &d, c.Fresh); bad != "" {
		return "prover: " + bad
	}
	var want []bool
	for k := range o.assign {
		if (d.Err[k] == "") != o.truth[k] {
			return fmt.Sprintf("statement %d, prover: accepted=%v, want %v (%s)", k, d.Err[k] == "", o.truth[k], d.Err[k])
		}
		if d.Err[k] != "" {
			continue
		}
		for _, a := range []frontend.Circuit{o.assign[k], o.bad[k]} {
			_, b := packWitness(a, o.curve, frontend.PublicOnly())
			v.Wit = append(v.Wit, b)
			v.Proof = append(v.Proof, d.Out[k])
		}
		want = append(want, true, false)
	}
	if len(want) == 0 {
		return ""
	}
	if bad := storeChildren.ask(v, &e, c.Fresh); bad != "" {
		return "verifier: " + bad
	}
	for k := range want {
		if (e.Err[k] == "") != want[k] {
			return fmt.Sprintf("proof %d, verifier: accepted=%v, want %v (%s)", k, e.Err[k] == "", want[k], e.Err[k])
		}
	}
	return ""
}

// genSide draws a circuit with statements.
func genSide(r *fw.R, f ref.Fmt, steps, statements int) Side {
	s := Side{Prog: genProg(r, f, 1+r.N(steps)), Kind: r.PickS("r1cs", "scs"), Curve: "bn254"}
	s.Prog.Range = uint(r.Range(2, 8))
	if r.P(1, 4) {
		s.Prog.Range = 0
	}
	for k := r.Range(1, statements); k > 0; k-- {
		p := s.Prog
		if k > 1 {
			p.In = make([]fw.Hex, len(s.Prog.In))
			for j := range p.In {
				p.In[j] = fw.Hex(anyFloat(r, f))
			}
		}
		v := p.native()
		n := min(2, len(p.Steps))
		var cl []fw.Hex
		for _, b := range v[len(v)-n:] {
			cl = append(cl, fw.Hex(b))
		}
		if r.P(1, 3) {
			cl[r.N(n)] ^= fw.Hex(uint64(1) << r.N(int(f.Width())))
		}
		s.In = append(s.In, p.In)
		s.Claims = append(s.Claims, cl)
	}
	return s
}

func genStore(r *fw.R, i int) StoreCase {
	c := StoreCase{Fresh: r.P(1, 2), Prove: i%4 == 3}
	n := r.Range(1, 3)
	if c.Prove {
		n = 1
	}
	for k := 0; k < n; k++ {
		f := []ref.Fmt{ref.F32, ref.F32, ref.F64, E5M2, otherFormat(r)}[r.N(5)]
		s := genSide(r, f, 5, 4)
		switch {
		case c.Prove && r.P(1, 4):
			s.Curve = r.PickS("bls12_381", "bls12_377")
		case !c.Prove && r.P(1, 3):
			s.Curve = curves[r.N(len(curves))].String()
		}
		c.Sides = append(c.Sides, s)
		c.Mangle = append(c.Mangle, k)
	}
	for k := range c.Mangle {
		j := r.N(k + 1)
		c.Mangle[k], c.Mangle[j] = c.Mangle[j], c.Mangle[k]
	}
	return c
}

func shrinkStore(c StoreCase) []StoreCase {
	var out []StoreCase
	if len(c.Mangle) > 1 {
		for i := range c.Mangle {
			d := c
			d.Mangle = append(append([]int{}, c.Mangle[:i]...), c.Mangle[i+1:]...)
			out = append(out, d)
		}
	}
	if c.Prove {
		d := c
		d.Prove = false
		out = append(out, d)
	}
	if last := len(c.Sides) - 1; last > 0 && len(c.Mangle) == 1 && c.Mangle[0] != last {
		d := c
		d.Sides = c.Sides[:last]
		out = append(out, d)
	}
	for i, s := range c.Sides {
		if len(s.In) > 1 {
			d := c
			d.Sides = append([]Side{}, c.Sides...)
			d.Sides[i].In, d.Sides[i].Claims = s.In[:1], s.Claims[:1]
			out = append(out, d)
		}
	}
	return out
}

func unitsStore(c StoreCase) []fw.Unit {
	var us []fw.Unit
	b, _ := json.Marshal(c)
	lab := "solved"
	if c.Prove {
		lab = "proved and verified"
	}
	if len(c.Loc) > 0 {
		lab += ", locations"
	}
	if c.Fresh {
		lab += ", new process"
	}
	h := fw.HS(string(b))
	for i, s := range c.Sides {
		for k := range s.In {
			us = append(us, fw.Unit{Hash: fw.H(h, uint64(i), uint64(k)), NonTrivial: s.truth(k), Label: lab})
		}
	}
	for i, l := range c.Loc {
		for k := range l.Locs {
			us = append(us, fw.Unit{Hash: fw.H(h, 1<<20, uint64(i), uint64(k)), NonTrivial: true, Label: lab})
		}
	}
	return us
}

func C05(x *fw.Ctx) {
	std(x, "one to three random circuits (formats, table widths, both system kinds, seven curves) with up to four true or false statements each: compiled here, written out, read back by another process that never compiles anything (a new one in half of the cases) and solved there in another order; verdicts must be true and every wire must have the value found where the circuit was compiled; for a quarter of the cases the keys are made here, stored, used by a second process to prove and by a third to verify right and changed public values; the location circuits likewise; one evaluation is one statement; non-trivial: the statement is true; distinct by case and statement")
	fw.Run(x, fw.Stage[StoreCase]{Name: "stored", N: x.Scale(400, 10000), Gen: genStore, Check: checkStore, Shrink: shrinkStore, Units: unitsStore})
	if locshim.Of(false).Circuit == nil || locshim.Of(true).Circuit == nil {
		return
	}
	fw.Run(x, fw.Stage[StoreCase]{Name: "stored-locations", N: x.Scale(6, 120), Gen: func(r *fw.R, i int) StoreCase {
		c := StoreCase{Fresh: i%2 == 0, Mangle: []int{1, 0}}
		for k := 0; k < 2; k++ {
			l := genCompiled((i+k)%2 == 1, 2, false)(r, r.N(2))
			c.Loc = append(c.Loc, l)
		}
		return c
	}, Check: checkStore, Shrink: shrinkStore, Units: unitsStore})
}
