package props

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"

	"verif/harness/fw"
	"verif/harness/locshim"
)

// The location circuits in compiled form.

// KCase solves a compiled location circuit for several locations.
type KCase struct {
	F64   bool    `json:"f64"`
	Kind  string  `json:"kind"`
	Curve string  `json:"curve"`
	Locs  []Loc   `json:"locs"`
	Off   []int64 `json:"off"` // added to one claimed coordinate
	Prove bool    `json:"prove,omitempty"`
}

func locClaim(c LCase) ([3]int64, string) {
	r, got, bad, _ := runLoc(c, nil, false)
	if !r.Accepted {
		return [3]int64{}, clipWhy(r.Why)
	}
	return got, bad
}

func (c KCase) assign(l Loc, claim [3]int64) frontend.Circuit {
	v := func(x int64) frontend.Variable { return big.NewInt(x) }
	return locshim.Of(c.F64).Circuit(bigu(uint64(l.Lat)), bigu(uint64(l.Lng)), l.Res, v(claim[0]), v(claim[1]), v(claim[2]))
}

func checkCompiled(c KCase) (why string) {
	if err := guarded(func() error { why = checkCompiled1(c); return nil }); err != nil {
		return err.Error()
	}
	return
}

func checkCompiled1(c KCase) string {
	field := curveOf(c.Curve).ScalarField()
	ccs, err := frontend.Compile(field, builderOf(c.Kind), locshim.Of(c.F64).Circuit(0, 0, 0, 0, 0, 0))
	if err != nil {
		return "location circuit does not compile: " + err.Error()
	}
	f := fmtBits(c.F64)
	backend := "groth16"
	if c.Kind == "scs" {
		backend = "plonk"
	}
	for i, l := range c.Locs {
		lat, lng := l.at(f)
		claim, bad := locClaim(LCase{F64: c.F64, SCS: c.Kind == "scs", Loc: l})
		if bad != "" {
			return fmt.Sprintf("location (%v, %v) at resolution %d: %s", lat, lng, l.Res, bad)
		}
		wrong := claim
		wrong[i%3] += c.Off[i]
		if !c.Prove {
			if err := solved(ccs, c.assign(l, claim), field); err != nil {
				return fmt.Sprintf("compiled (%s, %s): claim %v for (%v, %v) at resolution %d is refused: %v", c.Kind, c.Curve, claim, lat, lng, l.Res, err)
			}
			if err := solved(ccs, c.assign(l, wrong), field); err == nil {
				return fmt.Sprintf("compiled (%s, %s): wrong claim %v for (%v, %v) at resolution %d is accepted", c.Kind, c.Curve, wrong, lat, lng, l.Res)
			}
			continue
		}
		good, no := c.assign(l, claim), c.assign(l, wrong)
		res := l
		res.Res = (l.Res + 1) % 16
		verify, badErr, err := proveVerify(backend, ccs, field, good, []frontend.Circuit{no})
		if err != nil {
			return fmt.Sprintf("%s: location (%v, %v) at resolution %d, cell %v: %v", backend, lat, lng, l.Res, claim, err)
		}
		if err := verify(good); err != nil {
			return fmt.Sprintf("%s: proof for (%v, %v) at resolution %d does not verify: %v", backend, lat, lng, l.Res, err)
		}
		if badErr[0] == nil {
			return fmt.Sprintf("%s: a proof was made for the wrong cell %v of (%v, %v) at resolution %d", backend, wrong, lat, lng, l.Res)
		}
		if verify(no) == nil {
			return fmt.Sprintf("%s: the proof for cell %v verifies for %v", backend, claim, wrong)
		}
		if verify(c.assign(res, claim)) == nil {
			return fmt.Sprintf("%s: the proof for resolution %d verifies for %d", backend, l.Res, res.Res)
		}
		// the location is secret: it does not take part in verification
		other := l
		other.Lat, other.Lng = 0, 0
		if err := verify(c.assign(other, claim)); err != nil {
			return fmt.Sprintf("%s: verification depends on the secret location: %v", backend, err)
		}
	}
	return ""
}

func genCompiled(b bool, n int, prove bool) func(r *fw.R, i int) KCase {
	f := fmtBits(b)
	return func(r *fw.R, i int) KCase {
		c := KCase{F64: b, Kind: "r1cs", Curve: "bn254", Prove: prove}
		if i%2 == 1 {
			c.Kind = "scs"
		}
		if !prove || r.P(1, 4) {
			if r.P(1, 2) {
				c.Curve = r.PickS("bls12_381", "bls12_377", "bw6_761")
			}
		}
		if prove && c.Curve == "bw6_761" {
			c.Curve = "bls12_381"
		}
		for k := 0; k < n; k++ {
			c.Locs = append(c.Locs, genLoc(r, f))
			c.Off = append(c.Off, []int64{1, -1, 2, 1 << 31}[r.N(4)])
		}
		return c
	}
}

func unitsK(c KCase) []fw.Unit {
	var us []fw.Unit
	for i, l := range c.Locs {
		us = append(us, fw.Unit{Hash: fw.H(l.hash(), fw.HS(c.Kind+c.Curve), uint64(i)), NonTrivial: true, Label: c.Kind + " " + c.Curve})
	}
	return us
}

func shrinkK(c KCase) []KCase {
	if len(c.Locs) == 1 {
		return nil
	}
	var out []KCase
	for i := range c.Locs {
		d := c
		d.Locs, d.Off = c.Locs[i:i+1], c.Off[i:i+1]
		out = append(out, d)
	}
	return out
}

// compiledStage compares the compiled circuits with the evaluated ones.
func compiledStage(x *fw.Ctx, b bool) {
	if locshim.Of(b).Circuit == nil {
		return
	}
	fw.Run(x, fw.Stage[KCase]{Name: "compiled", N: x.Scale(24, 800), Gen: genCompiled(b, 6, false), Check: checkCompiled, Shrink: shrinkK, Units: unitsK})
}

func locProofs(x *fw.Ctx) {
	for _, b := range []bool{false, true} {
		if noCircuit(x, b) {
			continue
		}
		fw.Run(x, fw.Stage[KCase]{Name: "location-" + fmtBits(b).String(), N: x.Scale(2, 60), Gen: genCompiled(b, 1, true), Check: checkCompiled, Units: unitsK, Serial: true})
	}
}

// locHash compiles the i-th location circuit of a history.
func locHash(c HistCase, i int, place uint64) (h string, err error) {
	v := func(k uint64) frontend.Variable {
		if place == 0 {
			return 0
		}
		return bigu(place * k)
	}
	err = guarded(func() error {
		kind := "r1cs"
		if i%2 == 1 {
			kind = "scs"
		}
		ccs, err := frontend.Compile(curveOf(c.Curve).ScalarField(), builderOf(kind), locshim.Of(c.Loc[i]).Circuit(v(1), v(2), v(3), v(4), v(5), v(6)))
		if err != nil {
			return err
		}
		h, err = csHash(ccs)
		return err
	})
	return
}

func locRepro(x *fw.Ctx) {
	if noCircuit(x, false) || noCircuit(x, true) {
		return
	}
	fw.Run(x, fw.Stage[HistCase]{Name: "location", N: x.Scale(6, 200), Gen: func(r *fw.R, i int) HistCase {
		c := genRepro(r, i)
		c.Other = i%2 == 0
		b := r.Bool()
		c.Loc = []bool{b, !b, !b}
		return c
	}, Check: checkRepro})
}
