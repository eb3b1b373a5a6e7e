package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync/atomic"

	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/hint"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/geo"
	"verif/harness/h3ref"
	"verif/harness/locshim"
	"verif/harness/ref"
)

// ---- L08

// DCase is an out-of-domain statement.
type DCase struct {
	F64  bool   `json:"f64"`
	SCS  bool   `json:"scs,omitempty"`
	Kind string `json:"kind"`
	Lat  string `json:"lat"` // field elements
	Lng  string `json:"lng"`
	Res  string `json:"res"`
	// advice for another angle, when set
	TrigLat *fw.Hex `json:"triglat,omitempty"`
	TrigLng *fw.Hex `json:"triglng,omitempty"`
	Mut     []Mut   `json:"mut,omitempty"`
}

// trigAdvice computes the trigonometric advice for an angle.
func trigAdvice(f64 bool, v uint64, out []*big.Int) error {
	f := fmtBits(f64)
	fn := hint.PrecomputeHint32
	if f64 {
		fn = hint.PrecomputeHint64
	}
	return fn(eng.Modulus(), []*big.Int{bigu(v), big.NewInt(int64(f.E)), big.NewInt(int64(f.M))}, out)
}

func isTrig(call *eng.HintCall) bool { return strings.Contains(call.Name, "PrecomputeHint") }

func (c DCase) strategy() eng.Strategy {
	n := 0
	inner := strategyOf(c.Mut, 8)
	return func(call *eng.HintCall) {
		if isTrig(call) {
			t := c.TrigLat
			if n == 1 {
				t = c.TrigLng
			}
			n++
			if t != nil {
				trigAdvice(c.F64, uint64(*t), call.Out)
			}
		}
		inner(call)
	}
}

func (c DCase) run(record bool) (eng.Result, h3ref.IJK, *eng.Engine) {
	opts := []eng.Option{eng.WithStrategy(c.strategy())}
	if record {
		opts = append(opts, eng.WithRecord())
	}
	e := engineFor(c.SCS, opts...)
	a, b, d := e.Free(), e.Free(), e.Free()
	circ := locshim.Of(c.F64).Circuit(e.In(dec(c.Lat)), e.In(dec(c.Lng)), e.In(dec(c.Res)), a, b, d)
	r := eng.Guard(func() {
		if err := circ.Define(e); err != nil {
			panic(eng.Reject{Why: err.Error()})
		}
		e.Finish()
	})
	var got h3ref.IJK
	for i, w := range []*eng.W{a, b, d} {
		got[i], _ = eng.Signed(w)
	}
	return r, got, e
}

func checkDomain(c DCase) string {
	r, got, _ := c.run(false)
	if r.Accepted {
		return fmt.Sprintf("out-of-domain statement (%s) lat=%s lng=%s res=%s is provable, with cell %v", c.Kind, c.Lat, c.Lng, c.Res, got)
	}
	return ""
}

// above draws a float larger in magnitude than the format's constant for lim.
func above(r *fw.R, f ref.Fmt, lim float64) uint64 {
	b := f.FromFloat(lim)
	switch r.N(5) {
	case 0:
		return b + 1 + uint64(r.N(3))
	case 1:
		return b + 1 + uint64(r.N(1<<uint(r.N(int(f.M)))))
	case 2:
		return f.Make(0, f.BExp(b)+1+uint64(r.N(6)), r.U64()&(1<<f.M-1))
	case 3:
		return f.Inf(0) - 1 - uint64(r.N(1000))
	}
	return f.FromFloat(lim * (1 + unit(r)*3))
}

func genDomain(b bool) func(r *fw.R, i int) DCase {
	f := fmtBits(b)
	return func(r *fw.R, i int) DCase {
		l := genLoc(r, f)
		lat, lng, res := uint64(l.Lat), uint64(l.Lng), fmt.Sprint(l.Res)
		c := DCase{F64: b, SCS: r.P(1, 4)}
		nan := func() uint64 { return f.Inf(r.U64()&1) | 1 + uint64(r.N(1<<f.M-1)) }
		var over *big.Int
		switch r.N(14) {
		case 0, 1, 2:
			c.Kind, lat = "lat-above", above(r, f, math.Pi/2)
		case 3, 4, 5:
			c.Kind, lng = "lng-above", above(r, f, math.Pi)
		case 6:
			c.Kind = "lat-above"
			lat = f.Inf(0)
		case 7:
			c.Kind = "lng-above"
			lng = f.Inf(0)
		case 8:
			c.Kind, lat = "lat-below", f.Neg(above(r, f, math.Pi/2))
		case 9:
			c.Kind, lng = "lng-below", f.Neg(above(r, f, math.Pi))
		case 10:
			c.Kind = "nan"
			if r.Bool() {
				lat = nan()
			} else {
				lng = nan()
			}
		case 11:
			c.Kind = "minus-infinity"
			if r.Bool() {
				lat = f.Inf(1)
			} else {
				lng = f.Inf(1)
			}
		case 12:
			c.Kind = "not-a-float"
			over = new(big.Int).Lsh(big.NewInt(int64(1+r.N(1000))), f.Width()+uint(r.N(150)))
		default:
			c.Kind, res = "res-out", outRes(r)
		}
		c.Lat, c.Lng, c.Res = bigu(lat).String(), bigu(lng).String(), res
		if over != nil {
			if r.Bool() {
				c.Lat = over.Add(over, bigu(lat)).String()
			} else {
				c.Lng = over.Add(over, bigu(lng)).String()
			}
		}
		// a dishonest prover supplies the advice of some valid location
		if r.P(3, 4) {
			v := fw.Hex(l.Lat)
			w := fw.Hex(l.Lng)
			c.TrigLat, c.TrigLng = &v, &w
		}
		if r.P(1, 2) {
			n := 2600
			for k := 1 + r.N(3); k > 0; k-- {
				at := r.N(n)
				if r.P(1, 2) { // the decoding and the bound checks come first
					at = r.N(60)
				}
				c.Mut = append(c.Mut, Mut{Call: at, Kind: r.PickS("solve", "solve", "generic"), A: fw.Hex(r.U64()), B: fw.Hex(r.U64() & 0xffff)})
			}
		}
		return c
	}
}

func domainFinding(c DCase, why string) string {
	switch c.Kind {
	case "lat-below", "lng-below", "minus-infinity":
		return "no-lower-bound"
	case "nan":
		return "nan-location"
	}
	return ""
}

func shrinkD(c DCase) []DCase {
	var out []DCase
	for i := range c.Mut {
		d := c
		d.Mut = append(append([]Mut{}, c.Mut[:i]...), c.Mut[i+1:]...)
		out = append(out, d)
	}
	if c.TrigLat != nil {
		d := c
		d.TrigLat, d.TrigLng = nil, nil
		out = append(out, d)
	}
	if c.SCS {
		d := c
		d.SCS = false
		out = append(out, d)
	}
	for _, z := range []string{"0"} {
		if c.Lat != z && !strings.HasPrefix(c.Kind, "lat") && !strings.HasPrefix(c.Kind, "n") && !strings.HasPrefix(c.Kind, "m") {
			d := c
			d.Lat = z
			out = append(out, d)
		}
		if c.Lng != z && !strings.HasPrefix(c.Kind, "lng") && !strings.HasPrefix(c.Kind, "n") && !strings.HasPrefix(c.Kind, "m") {
			d := c
			d.Lng = z
			out = append(out, d)
		}
		if c.Res != z && c.Kind != "res-out" {
			d := c
			d.Res = z
			out = append(out, d)
		}
	}
	return out
}

func noCircuit(x *fw.Ctx, b bool) bool {
	if locshim.Of(b).Circuit == nil {
		x.Extra("circuit", "the location circuit could not be reached in this tree")
		return true
	}
	return false
}

func L08(x *fw.Ctx) {
	std(x, "latitudes and longitudes just above, just below and far beyond the limits, infinities, NaN, words that are no float, resolutions that are no number in 0..15, each with open claims, honest advice or the advice of a valid location, and altered arithmetic advice; none may be accepted; distinct by statement and advice")
	for _, b := range []bool{false, true} {
		if noCircuit(x, b) {
			continue
		}
		fw.Run(x, fw.Stage[DCase]{Name: fmtBits(b).String(), N: x.Scale(4000, 120000), Gen: genDomain(b), Check: checkDomain, Shrink: shrinkD, Finding: domainFinding,
			Units: func(c DCase) []fw.Unit {
				return []fw.Unit{{Hash: fw.HS(fmt.Sprint(c.Lat, c.Lng, c.Res, c.Kind, c.Mut, c.TrigLat != nil)), NonTrivial: true, Label: c.Kind}}
			}})
	}
}

// ---- L09

var locCalls [2]atomic.Pointer[[]string]

// callsOfLoc lists the advice requests of the location circuit; their order
// does not depend on the location.
func callsOfLoc(f64, scs bool) []string {
	k := 0
	if f64 {
		k = 1
	}
	if p := locCalls[k].Load(); p != nil {
		return *p
	}
	_, _, _, e := runLoc(LCase{F64: f64, Loc: Loc{Lat: fw.Hex(fmtBits(f64).FromFloat(0.3)), Lng: fw.Hex(fmtBits(f64).FromFloat(0.7)), Res: 3}}, nil, true)
	names := namesOf(e)
	locCalls[k].Store(&names)
	return names
}

var advAccepted, advRejected atomic.Int64

func checkLocAdvice(c LCase) string {
	r, got, bad, _ := runLoc(c, strategyFor(c), false)
	if !r.Accepted {
		advRejected.Add(1)
		return ""
	}
	advAccepted.Add(1)
	if bad != "" {
		return fmt.Sprintf("altered advice %v: %s", c.Mut, bad)
	}
	if w := contains(c, got); w != "" {
		return fmt.Sprintf("altered advice %v is accepted: %s", c.Mut, w)
	}
	return ""
}

// TCase replaces the trigonometric advice of one or both angles.
type TCase struct {
	C   LCase     `json:"c"`
	Lat []string  `json:"lat,omitempty"` // 16 components, empty: honest
	Lng []string  `json:"lng,omitempty"`
	Ang [2]fw.Hex `json:"ang"`
	By  string    `json:"by"`
}

func (c TCase) strategy() eng.Strategy {
	n := 0
	return func(call *eng.HintCall) {
		if !isTrig(call) || len(call.Out) != 16 {
			return
		}
		v := c.Lat
		if n == 1 {
			v = c.Lng
		}
		n++
		for i, s := range v {
			call.Out[i].Set(dec(s))
		}
	}
}

func checkTrig(c TCase) string {
	r, got, bad, _ := runLoc(c.C, c.strategy(), false)
	if !r.Accepted {
		return ""
	}
	if bad != "" {
		return fmt.Sprintf("trigonometric advice (%s): %s", c.By, bad)
	}
	if w := contains(c.C, got); w != "" {
		return fmt.Sprintf("trigonometric advice (%s) is accepted: %s", c.By, w)
	}
	return ""
}

// floatsOf reads the four floats of trigonometric advice; ok when all are
// canonical finite floats.
func floatsOf(f ref.Fmt, v []string) (b [4]uint64, ok bool) {
	e := eng.New()
	for i := range b {
		k, bad := compOf(float.FloatVar{Sign: e.In(dec(v[4*i])), Exponent: e.In(dec(v[4*i+1])), Mantissa: e.In(dec(v[4*i+2])), IsAbnormal: e.In(dec(v[4*i+3]))})
		if bad != "" || k.Abn != 0 || !canonical(f, k) {
			return b, false
		}
		if b[i], ok = f.FromComp(k); !ok {
			return b, false
		}
	}
	return b, true
}

// relationsHold evaluates the identity checks of the location circuit on
// canonical advice in the reference arithmetic.
func relationsHold(f ref.Fmt, b [4]uint64, lng bool) bool {
	al, be, ga, de := b[0], b[1], b[2], b[3]
	one, two := f.FromFloat(1), f.FromFloat(2)
	tol := func(x, y uint64, t float64) bool {
		if f.Sign(x) != f.Sign(y) {
			return false
		}
		return math.Abs(f.Float(f.Sub(x, y))) <= t
	}
	near := func(x, y uint64) bool { return f.Sign(x) == f.Sign(y) && (x == y || x+1 == y || y+1 == x) }
	p, q, s := f.Mul(al, de), f.Mul(two, f.Mul(ga, de)), f.Add(f.Mul(ga, ga), f.Mul(de, de))
	if f.M == 23 {
		return tol(s, one, 1) && tol(p, ga, 1) && tol(q, be, 1)
	}
	if !tol(s, one, 2) || !near(q, be) {
		return false
	}
	if lng {
		return near(p, ga)
	}
	return tol(p, ga, 2)
}

// trigFinding: the advice is tied to itself only, not to the angle. Advice that
// is well-formed and satisfies the circuit's identity checks is the known
// weakness, and so is advice whose components are no float at all, which
// nothing checks. Anything else that is accepted is new.
func trigFinding(c TCase, why string) string {
	f := c.C.f()
	for i, v := range [][]string{c.Lat, c.Lng} {
		if len(v) == 0 {
			continue
		}
		b, ok := floatsOf(f, v)
		if !ok {
			return "trig-advice-malformed"
		}
		if !relationsHold(f, b, i == 1) {
			return ""
		}
	}
	return "trig-advice"
}

func genTrig(b bool) func(r *fw.R, i int) TCase {
	f := fmtBits(b)
	return func(r *fw.R, i int) TCase {
		c := TCase{C: LCase{F64: b, SCS: r.P(1, 4), Loc: genLoc(r, f)}}
		other := genLoc(r, f)
		mk := func(ang uint64) []string {
			out := make([]*big.Int, 16)
			for i := range out {
				out[i] = new(big.Int)
			}
			if trigAdvice(b, ang, out) != nil {
				return nil
			}
			c.By = "another angle"
			switch r.N(4) {
			case 0: // scaled floats
				c.By = "altered floats"
				for n := 1 + r.N(3); n > 0; n-- {
					q := r.N(4)
					v := new(big.Int).Add(out[4*q+1], big.NewInt(int64(r.Range(-2, 2))))
					if r.Bool() {
						out[4*q].Sub(one(), out[4*q])
					}
					if r.Bool() {
						out[4*q+1].Set(v)
					}
					if r.Bool() && out[4*q+2].Sign() > 0 {
						out[4*q+2].SetUint64(1<<f.M | r.U64()&(1<<f.M-1))
					}
				}
			case 1: // arbitrary components
				c.By = "altered components"
				for n := 1 + r.N(3); n > 0; n-- {
					genericMut(r, &eng.HintCall{Out: out})
				}
			}
			s := make([]string, 16)
			for i := range s {
				s[i] = modz(out[i]).String()
			}
			return s
		}
		w := r.N(3)
		if w != 1 {
			a := uint64(other.Lat)
			if r.P(1, 3) {
				a = uint64(c.C.Loc.Lat)
			}
			c.Lat = mk(a)
		}
		if w != 0 {
			a := uint64(other.Lng)
			if r.P(1, 3) {
				a = uint64(c.C.Loc.Lng)
			}
			c.Lng = mk(a)
		}
		return c
	}
}

func L09(x *fw.Ctx) {
	std(x, "random locations and resolutions with one to three advice values of the arithmetic replaced (chosen to satisfy the relation they enter where possible), or the trigonometric advice replaced by that of another angle, by other floats, or by arbitrary components; whatever is accepted must be the cell of the location; distinct by location and advice")
	for _, b := range []bool{false, true} {
		b := b
		if noCircuit(x, b) {
			continue
		}
		gen := genL(b)
		name := fmtBits(b).String()
		fw.Run(x, fw.Stage[LCase]{Name: name + "-arithmetic", N: x.Scale(5000, 200000), Gen: func(r *fw.R, i int) LCase {
			c := gen(r, i)
			names := append([]string{}, callsOfLoc(b, c.SCS)...)
			for {
				ms := genMuts(r, names)
				trig := false
				for _, m := range ms {
					trig = trig || strings.Contains(names[m.Call], "Precompute")
				}
				if !trig {
					c.Mut = ms
					return c
				}
			}
		}, Check: checkLocAdvice, Shrink: shrinkL, Units: unitsL})
		fw.Run(x, fw.Stage[TCase]{Name: name + "-trigonometric", N: x.Scale(1200, 40000), Gen: genTrig(b), Check: checkTrig, Finding: trigFinding,
			Units: func(c TCase) []fw.Unit {
				return []fw.Unit{{Hash: fw.HS(fmt.Sprint(c)), NonTrivial: true, Label: c.By}}
			}})
	}
	x.Extra("altered_advice_accepted", advAccepted.Load())
	x.Extra("altered_advice_rejected", advRejected.Load())
}

// ---- L10

// TabCase is a pair of faces in one precision.
type TabCase struct {
	F64 bool `json:"f64"`
	I   int  `json:"i"`
	J   int  `json:"j"`
}

func checkTab(c TabCase) string {
	t, u := &locshim.T64, 4e-16
	if !c.F64 {
		t, u = &locshim.T32, 1.3e-7
	}
	near := func(what string, got, want, tol float64) string {
		if !(math.Abs(got-want) <= tol) {
			return fmt.Sprintf("%s of face %d (precision of %d bits) is %v, want %v", what, c.I, t.M, got, want)
		}
		return ""
	}
	dot := func(a, b [3]float64) float64 { return geo.V3(a).Dot(geo.V3(b)) }
	var w []string
	add := func(s string) { w = append(w, s) }
	i, j := c.I, c.J
	if i == j {
		la, lo, az := geo.FaceLatLng[i][0], geo.FaceLatLng[i][1], geo.FaceAz[i]
		v := geo.Vec(la, lo)
		for k := range v {
			add(near(fmt.Sprintf("coordinate %d of the centre", k), t.Point[i][k], v[k], u))
			add(near("coordinate of the centre, from the tables,", t.Point[i][k], [3]float64{t.Cos[i] * math.Cos(t.Lng[i]), t.Cos[i] * math.Sin(t.Lng[i]), t.Sin[i]}[k], 2*u))
		}
		add(near("length of the centre", dot(t.Point[i], t.Point[i]), 1, 4*u))
		add(near("longitude", t.Lng[i], lo, 2*u))
		add(near("cosine of the latitude", t.Cos[i], math.Cos(la), u))
		add(near("sine of the latitude", t.Sin[i], math.Sin(la), u))
		add(near("azimuth", t.Az[i], az, 4*u))
		// the axis points to a corner of the face
		s0, c0 := t.Sin[i], t.Cos[i]
		sl, cl := math.Sincos(t.Lng[i])
		sa, ca := math.Sincos(t.Az[i])
		dir := geo.V3{-s0*cl*ca - sl*sa, -s0*sl*ca + cl*sa, c0 * ca}
		best := math.Inf(1)
		for _, p := range geo.Vertices {
			if geo.Centres[i].Dot(p) > 0.7 {
				q := p.Add(geo.Centres[i].Mul(-geo.Centres[i].Dot(p))).Norm()
				best = math.Min(best, math.Sqrt(q.SqDist(dir)))
			}
		}
		add(near("direction of the axis, distance from a corner,", best, 0, 16*u))
		if i == 0 {
			add(near("sin 60 degrees", t.Sin60, math.Sqrt(3)/2, u))
			add(near("square root of 7", t.Sqrt7, math.Sqrt(7), 3*u))
			add(near("resolution constant", t.ResConst, (3-math.Sqrt(5))/2, u))
			add(near("resolution constant of H3", t.ResConst, geo.Res0U, u/4))
			add(near("class III rotation", t.Rot, math.Asin(math.Sqrt(3.0/28)), u))
			f := fmtBits(c.F64)
			if t.E != f.E || t.M != f.M {
				add(fmt.Sprintf("format is (%d, %d), want (%d, %d)", t.E, t.M, f.E, f.M))
			}
			if eng.Big(eng.New().In(locshim.MaxRes)).Cmp(big.NewInt(15)) != 0 {
				add(fmt.Sprintf("largest resolution is %v, want 15", locshim.MaxRes))
			}
		}
		if !c.F64 {
			s := &locshim.T64
			same := func(what string, a, b float64) {
				if a != float64(float32(b)) {
					add(fmt.Sprintf("32-bit %s of face %d is %v, the rounded 64-bit value is %v", what, i, a, float64(float32(b))))
				}
			}
			same("longitude", t.Lng[i], s.Lng[i])
			same("cosine", t.Cos[i], s.Cos[i])
			same("sine", t.Sin[i], s.Sin[i])
			same("azimuth", t.Az[i], s.Az[i])
			for k := range t.Point[i] {
				same("centre", t.Point[i][k], s.Point[i][k])
			}
			same("sin 60", t.Sin60, s.Sin60)
			same("sqrt 7", t.Sqrt7, s.Sqrt7)
			same("resolution constant", t.ResConst, s.ResConst)
			same("rotation", t.Rot, s.Rot)
		}
	} else {
		d := dot(t.Point[i], t.Point[j])
		r5 := math.Sqrt(5) / 3
		best := math.Inf(1)
		for _, q := range []float64{r5, 1.0 / 3, -1.0 / 3, -r5, -1} {
			best = math.Min(best, math.Abs(d-q))
		}
		add(near(fmt.Sprintf("angle with face %d, deviation from a regular icosahedron,", j), best, 0, 4*u))
	}
	for _, s := range w {
		if s != "" {
			return s
		}
	}
	return ""
}

func L10(x *fw.Ctx) {
	std(x, "all ordered pairs of faces in both precisions, exhaustively: each face alone against H3's centre and azimuth and against the corner its axis points to, each pair against the angles of a regular icosahedron, the scale constants, and the 32-bit tables against the rounded 64-bit ones")
	if !locshim.HaveTables {
		x.Extra("tables", "the tables could not be reached in this tree; the face selection was checked instead")
		L01(x)
		return
	}
	var all []TabCase
	for _, b := range []bool{true, false} {
		for i := 0; i < 20; i++ {
			for j := 0; j < 20; j++ {
				all = append(all, TabCase{b, i, j})
			}
		}
	}
	fw.Run(x, fw.Stage[TabCase]{Name: "tables", N: len(all), Gen: func(r *fw.R, i int) TabCase { return all[i] }, Check: checkTab})
	x.Exhaustive()
}
