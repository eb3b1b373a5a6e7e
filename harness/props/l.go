package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"verif/harness/eng"
	"verif/harness/fw"
	"verif/harness/geo"
	"verif/harness/h3ref"
	"verif/harness/locshim"
	"verif/harness/ref"
)

// Error units: results are compared with the real-number reference, within a
// multiple of the format's unit 2^-M. The multiples are at least three times
// the largest deviation measured on the pinned tree (see DESIGN.md).
const (
	kFace  = 8  // squared distances and table values
	kR     = 24 // relative error of the radius
	kPlane = 16 // planar coordinates, per grid scale, given exact inputs
	kTotal = 40 // planar coordinates for the whole pipeline
	kHex   = 8  // distance outside the hexagon, relative to the coordinates
)

func ulp(f ref.Fmt) float64 { return math.Ldexp(1, -int(f.M)) }

// ---- locations

// Loc is a location and resolution.
type Loc struct {
	Lat fw.Hex `json:"lat"`
	Lng fw.Hex `json:"lng"`
	Res int    `json:"res"`
}

func (l Loc) at(f ref.Fmt) (lat, lng float64) { return f.Float(uint64(l.Lat)), f.Float(uint64(l.Lng)) }

// clampTo rounds v into the format without leaving [-lim, lim], where lim is
// rounded to the format like the circuit's constant.
func clampTo(f ref.Fmt, v, lim float64) uint64 {
	b := f.FromFloat(v)
	l := f.FromFloat(lim)
	if !f.Finite(b) || f.Abs(b) > l {
		b = l | f.Sign(b)<<(f.E+f.M)
	}
	return b
}

func unit(r *fw.R) float64 { return float64(r.U64()>>11) / (1 << 53) }

// logSmall is a signed number of log-uniform size in [10^lo, 10^hi].
func logSmall(r *fw.R, lo, hi float64) float64 {
	v := math.Pow(10, lo+(hi-lo)*unit(r))
	if r.Bool() {
		v = -v
	}
	return v
}

func genLatLng(r *fw.R, res int) (lat, lng float64) {
	jitter := func(p geo.V3) (float64, float64) {
		lo := -9.0
		if r.P(1, 4) {
			lo = -18
		}
		q := geo.V3{logSmall(r, lo, -1), logSmall(r, lo, -1), logSmall(r, lo, -1)}
		return p.Add(q).Norm().LatLng()
	}
	switch r.N(12) {
	case 0: // near a face centre
		return jitter(geo.Centres[r.N(20)])
	case 1: // near an edge
		i := r.N(20)
		j := geo.Neighbours[i][r.N(3)]
		m := geo.Centres[i].Add(geo.Centres[j]).Norm()
		k := geo.Neighbours[i][r.N(3)]
		if k != j && r.Bool() { // along the edge: towards the vertex of i, j, k
			v := geo.Centres[i].Add(geo.Centres[j]).Add(geo.Centres[k]).Norm()
			m = m.Add(v.Mul(unit(r))).Norm()
		}
		return jitter(m)
	case 2: // near a vertex
		return jitter(geo.Vertices[r.N(len(geo.Vertices))])
	case 3: // near a pole
		lat = math.Pi/2 - math.Abs(logSmall(r, -18, -1))
		if r.Bool() {
			lat = -lat
		}
		return lat, (2*unit(r) - 1) * math.Pi
	case 4: // near the date line, the zero meridian or the equator
		lat = math.Asin(2*unit(r) - 1)
		lng = math.Pi - math.Abs(logSmall(r, -18, -1))
		if r.Bool() {
			lng = -lng
		}
		switch r.N(3) {
		case 0:
			lng = logSmall(r, -18, -1)
		case 1:
			lat = logSmall(r, -18, -1)
		}
		return
	case 5: // special values
		v := []float64{0, math.Copysign(0, -1), math.Pi / 2, -math.Pi / 2, math.Pi / 4, -math.Pi / 4, 1e-30, -1e-40, math.Pi / 3, -math.Pi / 6}
		w := append([]float64{math.Pi, -math.Pi, 2 * math.Pi / 3, -1, 3}, v...)
		return v[r.N(len(v))], w[r.N(len(w))]
	case 6, 7, 8: // near the boundary of a cell
		f := r.N(20)
		lat, lng = math.Asin(2*unit(r)-1), (2*unit(r)-1)*math.Pi
		fs, _ := geo.Nearest(lat, lng, 0)
		f = fs[0]
		x, y := geo.Project(f, lat, lng, res)
		cx, cy := geo.Centre(geo.Hexagon(x, y))
		k := float64(r.N(6))
		s, c := math.Sincos(k * math.Pi / 3)
		t := 2*unit(r) - 1
		if r.P(1, 3) { // at a corner
			t = float64(1 - 2*r.N(2))
		}
		bx, by := 0.5*c-t*s*math.Sqrt(3)/6, 0.5*s+t*c*math.Sqrt(3)/6
		q := 1 + logSmall(r, -12, -1)
		return geo.Unproject(f, cx+bx*q, cy+by*q, res)
	case 9: // near one of the axes of a face plane
		f := r.N(20)
		d := unit(r) * 0.6
		a := float64(r.N(12)) * math.Pi / 6
		s, c := math.Sincos(a)
		e := logSmall(r, -16, -2)
		return geo.Unproject(f, (d*c-e*s)*geo.Scale(res), (d*s+e*c)*geo.Scale(res), res)
	}
	return math.Asin(2*unit(r) - 1), (2*unit(r) - 1) * math.Pi
}

func genLoc(r *fw.R, f ref.Fmt) Loc {
	res := r.N(16)
	lat, lng := genLatLng(r, res)
	if r.P(1, 16) { // the floats at or next to a special point of the icosahedron
		i := r.N(20)
		p := geo.Centres[i]
		switch r.N(6) {
		case 0, 1:
			p = geo.Vertices[r.N(len(geo.Vertices))]
		case 2:
			p = p.Add(geo.Centres[geo.Neighbours[i][r.N(3)]]).Norm()
		}
		lat, lng = p.LatLng()
		step := func(v, lim float64) fw.Hex {
			b := clampTo(f, v, lim)
			if r.Bool() {
				b += uint64(r.N(7)) - 3
			}
			return fw.Hex(clampTo(f, f.Float(b), lim))
		}
		return Loc{step(lat, math.Pi/2), step(lng, math.Pi), res}
	}
	return Loc{fw.Hex(clampTo(f, lat, math.Pi/2)), fw.Hex(clampTo(f, lng, math.Pi)), res}
}

func shrinkLoc(f ref.Fmt, l Loc) []Loc {
	var out []Loc
	for _, v := range []int{0, 1, l.Res / 2, l.Res - 1} {
		if v >= 0 && v < l.Res {
			d := l
			d.Res = v
			out = append(out, d)
		}
	}
	for _, v := range simpler(f, uint64(l.Lat)) {
		if f.Finite(v) && math.Abs(f.Float(v)) <= math.Pi/2 {
			d := l
			d.Lat = fw.Hex(v)
			out = append(out, d)
		}
	}
	for _, v := range simpler(f, uint64(l.Lng)) {
		if f.Finite(v) && math.Abs(f.Float(v)) <= math.Pi {
			d := l
			d.Lng = fw.Hex(v)
			out = append(out, d)
		}
	}
	return out
}

func (l Loc) hash() uint64 { return fw.H(uint64(l.Lat), uint64(l.Lng), uint64(l.Res)) }

// ---- helpers for stages

// LCase is one evaluation of a stage or of the whole circuit.
type LCase struct {
	F64 bool `json:"f64"`
	SCS bool `json:"scs,omitempty"`
	Loc Loc  `json:"loc"`
	// width of the lookup table, for the stages
	Range uint `json:"range,omitempty"`
	// stage inputs other than the location
	In   []fw.Hex `json:"in,omitempty"`
	ResX string   `json:"resx,omitempty"` // resolution as a field element, when out of range
	Mut  []Mut    `json:"mut,omitempty"`
	Want []int64  `json:"want,omitempty"` // wrong claim offset
	// the face parameters come from the circuit's own choice of a face
	Joint bool `json:"joint,omitempty"`
}

func (c LCase) f() ref.Fmt { return fmtBits(c.F64) }

func (c LCase) res(e *eng.Engine) *eng.W {
	if c.ResX != "" {
		return e.In(dec(c.ResX))
	}
	return e.In(c.Loc.Res)
}

func runStage(c LCase, strat eng.Strategy, body func(e *eng.Engine, ctx *float.Context) error) (eng.Result, string) {
	var opts []eng.Option
	if strat != nil {
		opts = append(opts, eng.WithStrategy(strat))
	}
	f := c.f()
	e := engineFor(c.SCS, opts...)
	bad := ""
	r := e.Run(func(api frontend.API) {
		ctx := newCtx(e, api, c.Range, f.E, f.M)
		if err := body(e, &ctx); err != nil {
			bad = err.Error()
		}
	})
	return r, bad
}

// fl reads a result as a real number; it must be a finite well-formed float.
func fl(f ref.Fmt, v float.FloatVar) (float64, error) {
	k, bad := compOf(v)
	if bad != "" {
		return 0, fmt.Errorf("%s", bad)
	}
	if k.Abn != 0 {
		return 0, fmt.Errorf("not finite")
	}
	return valueOf(f, k), nil
}

func stageMissing(x *fw.Ctx, ok bool) bool {
	if !ok {
		x.Extra("stage", "the stage functions could not be reached in this tree; the whole circuit was checked instead")
	}
	return !ok
}

// ---- L01

func faceParams(i int) [8]float64 {
	la, lo, az := geo.FaceLatLng[i][0], geo.FaceLatLng[i][1], geo.FaceAz[i]
	return [8]float64{math.Sin(la), math.Cos(la), math.Sin(lo), math.Cos(lo), math.Sin(az), math.Cos(az), math.Sin(az - geo.Ap7Rot), math.Cos(az - geo.Ap7Rot)}
}

func checkFace(c LCase) string {
	f := c.f()
	st := locshim.Of(c.F64)
	lat, lng := c.Loc.at(f)
	p := geo.Vec(lat, lng)
	u := ulp(f)
	var got [9]float64
	r, bad := runStage(c, nil, func(e *eng.Engine, ctx *float.Context) error {
		in := func(v float64) float.FloatVar { return ctx.NewFloat(e.In(f.FromFloat(v))) }
		out := st.Face(ctx, in(p[0]), in(p[1]), in(p[2]), ctx.NewFloat(e.In(uint64(c.Loc.Lng))))
		for i, v := range out {
			g, err := fl(f, v)
			if err != nil {
				return fmt.Errorf("output %d: %v", i, err)
			}
			got[i] = g
		}
		return nil
	})
	if !r.Accepted {
		return fmt.Sprintf("face selection for (%v, %v) is unprovable: %s", lat, lng, r.Why)
	}
	if bad != "" {
		return fmt.Sprintf("face selection for (%v, %v): %s", lat, lng, bad)
	}
	faces, best := geo.Nearest(lat, lng, 2*kFace*u)
	noteErr("sqdist "+f.String(), math.Abs(got[0]-best)/u)
	if !(math.Abs(got[0]-best) <= kFace*u) {
		return fmt.Sprintf("squared distance of (%v, %v) to the nearest face is %v, want %v", lat, lng, got[0], best)
	}
	for _, i := range faces {
		w := faceParams(i)
		ok := true
		for k := range w {
			d := math.Abs(got[1+k] - w[k])
			if !(d <= kFace*u) {
				ok = false
			}
		}
		if ok {
			return ""
		}
	}
	return fmt.Sprintf("parameters selected for (%v, %v) are %v, want those of face %v: %v", lat, lng, got[1:], faces, faceParams(faces[0]))
}

func unitsL(c LCase) []fw.Unit {
	h := fw.H(c.Loc.hash(), fw.HS(fmt.Sprint(c.In, c.ResX, c.Mut, c.Want)))
	lab := fmt.Sprintf("res%02d", c.Loc.Res)
	if c.ResX != "" {
		lab = "res-out"
	}
	return []fw.Unit{{Hash: h, NonTrivial: true, Label: lab}}
}

func shrinkL(c LCase) []LCase {
	var out []LCase
	for _, l := range shrinkLoc(c.f(), c.Loc) {
		d := c
		d.Loc = l
		out = append(out, d)
	}
	for i := range c.Mut {
		d := c
		d.Mut = append(append([]Mut{}, c.Mut[:i]...), c.Mut[i+1:]...)
		out = append(out, d)
	}
	if c.SCS {
		d := c
		d.SCS = false
		out = append(out, d)
	}
	if c.Range != 0 {
		d := c
		d.Range = 0
		out = append(out, d)
	}
	return out
}

func genL(f64 bool) func(r *fw.R, i int) LCase {
	return func(r *fw.R, i int) LCase {
		return LCase{F64: f64, SCS: r.P(1, 4), Loc: genLoc(r, fmtBits(f64)), Range: rangeSize(r)}
	}
}

func L01(x *fw.Ctx) {
	std(x, "locations near face centres, edges and vertices of the icosahedron, poles, date line, axes, cell boundaries and uniform on the sphere, both precisions; the distance must be that of a nearest face and the parameters those of one (nearly) nearest face; distinct by location")
	for _, b := range []bool{false, true} {
		if stageMissing(x, locshim.Of(b).Face != nil) {
			wholeStage(x, b)
			continue
		}
		fw.Run(x, fw.Stage[LCase]{Name: fmtBits(b).String(), N: x.Scale(2200, 60000), Gen: genL(b), Check: checkFace, Shrink: shrinkL, Units: unitsL})
	}
	x.Extra("largest_error_in_units", errReport())
}

// ---- L02

func checkR(c LCase) string {
	f := c.f()
	st := locshim.Of(c.F64)
	s := f.Float(uint64(c.In[0]))
	var got float64
	r, bad := runStage(c, strategyFor(c), func(e *eng.Engine, ctx *float.Context) error {
		v, err := fl(f, st.R(ctx, ctx.NewFloat(e.In(uint64(c.In[0]))), c.res(e)))
		got = v
		return err
	})
	if c.ResX != "" {
		if r.Accepted {
			return fmt.Sprintf("radius for squared distance %v is provable at resolution %s", s, c.ResX)
		}
		return ""
	}
	if !r.Accepted {
		if len(c.Mut) > 0 {
			return ""
		}
		return fmt.Sprintf("radius for squared distance %v at resolution %d is unprovable: %s", s, c.Loc.Res, r.Why)
	}
	if bad != "" {
		return fmt.Sprintf("radius for squared distance %v at resolution %d: %s", s, c.Loc.Res, bad)
	}
	// tan(acos(1 - s/2))
	want := math.Sqrt((4-s)*s) / (2 - s) * geo.Scale(c.Loc.Res)
	tol := kR * ulp(f) * want
	if f.BExp(f.FromFloat(want)) == 0 || s < math.Ldexp(1, int(f.ENorm())+4) { // subnormal intermediate results
		tol += math.Ldexp(1, int(f.ENorm())/2-int(f.M)/2+8) * geo.Scale(c.Loc.Res)
	} else if want > 0 {
		noteErr("radius "+f.String(), math.Abs(got-want)/want/ulp(f))
	}
	if !(math.Abs(got-want) <= tol) {
		return fmt.Sprintf("radius for squared distance %v at resolution %d is %v, want %v", s, c.Loc.Res, got, want)
	}
	return ""
}

// strategyFor applies the case's advice changes.
func strategyFor(c LCase) eng.Strategy {
	if len(c.Mut) == 0 {
		return nil
	}
	return strategyOf(c.Mut, 8)
}

// outRes draws a resolution above 15, as a field element.
func outRes(r *fw.R) string {
	switch r.N(5) {
	case 0:
		return fmt.Sprint(16 + r.N(16))
	case 1:
		return pow2(uint(r.Range(4, 253))).String()
	case 2:
		return modz(big.NewInt(-int64(1 + r.N(40)))).String()
	case 3:
		return modz(new(big.Int).Mul(big.NewInt(int64(1+2*r.N(8))), inv(big.NewInt(2)))).String()
	}
	v := rndBits(r, uint(r.Range(5, 253)))
	if v.Cmp(big.NewInt(15)) <= 0 {
		v.SetInt64(17)
	}
	return v.String()
}

const maxSq = 0.42 // the farthest a point can be from its nearest face centre is 0.411

func genR(b bool) func(r *fw.R, i int) LCase {
	f := fmtBits(b)
	return func(r *fw.R, i int) LCase {
		c := LCase{F64: b, SCS: r.P(1, 4), Loc: Loc{Res: r.N(16)}, Range: rangeSize(r)}
		var s float64
		switch r.N(8) {
		case 0:
			s = 0
		case 1, 2:
			s = math.Abs(logSmall(r, -30, math.Log10(maxSq)))
		case 3:
			s = math.Ldexp(1, -r.N(60)-2)
		case 4:
			s = maxSq - math.Abs(logSmall(r, -9, -2))
		default:
			s = unit(r) * maxSq
		}
		c.In = []fw.Hex{fw.Hex(f.FromFloat(s))}
		if r.P(1, 8) {
			c.ResX = outRes(r)
			if r.Bool() {
				c.Mut = genMuts(r, make([]string, 120))
			}
		}
		return c
	}
}

func L02(x *fw.Ctx) {
	std(x, "squared distances from 0 to the largest a face can have (uniform, log-uniform, powers of two), resolutions 0 to 15; one case in eight has a resolution outside that range, half of those with altered advice, and must be unprovable; distinct by distance and resolution")
	for _, b := range []bool{false, true} {
		if stageMissing(x, locshim.Of(b).R != nil) {
			wholeStage(x, b)
			continue
		}
		fw.Run(x, fw.Stage[LCase]{Name: fmtBits(b).String(), N: x.Scale(15000, 400000), Gen: genR(b), Check: checkR, Units: unitsL})
	}
	x.Extra("largest_error_in_units", errReport())
}

// ---- L03

func checkPlane(c LCase) string {
	f := c.f()
	st := locshim.Of(c.F64)
	lat, lng := c.Loc.at(f)
	faces, s := geo.Nearest(lat, lng, 0)
	face := faces[0]
	joint := c.Joint && st.Face != nil
	if joint {
		if near, _ := geo.Nearest(lat, lng, 2*kFace*ulp(f)); len(near) > 1 {
			joint = false
		}
	}
	x, y := geo.Project(face, lat, lng, c.Loc.Res)
	var gx, gy float64
	r, bad := runStage(c, nil, func(e *eng.Engine, ctx *float.Context) error {
		in := func(v float64) float.FloatVar { return ctx.NewFloat(e.In(f.FromFloat(v))) }
		w := faceParams(face)
		rad := math.Sqrt((4-s)*s) / (2 - s) * geo.Scale(c.Loc.Res)
		var q [8]float.FloatVar
		for i := range q {
			q[i] = in(w[i])
		}
		if joint {
			p := geo.Vec(lat, lng)
			out := st.Face(ctx, in(p[0]), in(p[1]), in(p[2]), ctx.NewFloat(e.In(uint64(c.Loc.Lng))))
			copy(q[:], out[1:])
		}
		out := st.Hex2d(ctx, in(math.Sin(lat)), in(math.Cos(lat)), in(math.Sin(lng)), in(math.Cos(lng)),
			q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], in(rad), c.res(e))
		var err error
		if gx, err = fl(f, out[0]); err != nil {
			return err
		}
		gy, err = fl(f, out[1])
		return err
	})
	if c.ResX != "" {
		if r.Accepted {
			return fmt.Sprintf("projection of (%v, %v) is provable at resolution %s", lat, lng, c.ResX)
		}
		return ""
	}
	if !r.Accepted {
		return fmt.Sprintf("projection of (%v, %v) at resolution %d is unprovable: %s", lat, lng, c.Loc.Res, r.Why)
	}
	if bad != "" {
		return fmt.Sprintf("projection of (%v, %v) at resolution %d: %s", lat, lng, c.Loc.Res, bad)
	}
	d := math.Hypot(gx-x, gy-y)
	unitErr := ulp(f) * geo.Scale(c.Loc.Res)
	noteErr("plane "+f.String(), d/unitErr)
	if !(d <= kPlane*unitErr) {
		return fmt.Sprintf("projection of (%v, %v) on face %d at resolution %d is (%v, %v), want (%v, %v)", lat, lng, face, c.Loc.Res, gx, gy, x, y)
	}
	return ""
}

func L03(x *fw.Ctx) {
	std(x, "the locations of L01 with resolutions 0 to 15, given exact sines, cosines, radius and face parameters (in one case in five those of the face the circuit itself picks); one case in twelve has an out-of-range resolution and must be unprovable; distinct by location and resolution")
	for _, b := range []bool{false, true} {
		b := b
		if stageMissing(x, locshim.Of(b).Hex2d != nil) {
			wholeStage(x, b)
			continue
		}
		gen := genL(b)
		fw.Run(x, fw.Stage[LCase]{Name: fmtBits(b).String(), N: x.Scale(8000, 250000), Gen: func(r *fw.R, i int) LCase {
			c := gen(r, i)
			c.Joint = r.P(1, 5)
			if r.P(1, 12) {
				c.ResX = outRes(r)
			}
			return c
		}, Check: checkPlane, Shrink: shrinkL, Units: unitsL})
	}
	x.Extra("largest_error_in_units", errReport())
}

// ---- L04

func checkHexagon(c LCase) string {
	f := c.f()
	st := locshim.Of(c.F64)
	x, y := f.Float(uint64(c.In[0])), f.Float(uint64(c.In[1]))
	var got h3ref.IJK
	r, bad := runStage(c, strategyFor(c), func(e *eng.Engine, ctx *float.Context) error {
		out := st.IJK(ctx, ctx.NewFloat(e.In(uint64(c.In[0]))), ctx.NewFloat(e.In(uint64(c.In[1]))))
		for i, v := range out {
			n, ok := eng.Signed(v)
			if !ok {
				return fmt.Errorf("coordinate %d is not a small integer", i)
			}
			got[i] = n
		}
		return nil
	})
	if !r.Accepted {
		if len(c.Mut) > 0 {
			return ""
		}
		return fmt.Sprintf("hexagon of (%v, %v) is unprovable: %s", x, y, r.Why)
	}
	if bad != "" {
		return fmt.Sprintf("hexagon of (%v, %v): %s", x, y, bad)
	}
	if !geo.Canonical(got) {
		return fmt.Sprintf("hexagon of (%v, %v) is %v, which is not normalised", x, y, got)
	}
	size := math.Max(1, math.Hypot(x, y))
	out := geo.Outside(got, x, y)
	noteErr("hexagon "+f.String(), out/ulp(f)/size)
	if !(out <= kHex*ulp(f)*size) {
		return fmt.Sprintf("hexagon of (%v, %v) is %v, want %v (outside by %g)", x, y, got, geo.Hexagon(x, y), out)
	}
	if math.Abs(x) < 1e9 && math.Abs(y) < 1e9 {
		h := h3ref.HexToIJK(x, y)
		if h != got && geo.Outside(h, x, y) < -kHex*ulp(f)*size {
			return fmt.Sprintf("hexagon of (%v, %v) is %v, H3 says %v", x, y, got, h)
		}
	}
	return ""
}

func genHexagon(b bool) func(r *fw.R, i int) LCase {
	f := fmtBits(b)
	return func(r *fw.R, i int) LCase {
		c := LCase{F64: b, SCS: r.P(1, 4), Range: rangeSize(r)}
		// the largest radius is 0.77 * scale: about 4.5 million
		var x, y float64
		size := math.Pow(10, unit(r)*6.6)
		switch r.N(9) {
		case 0, 1:
			x, y = (2*unit(r)-1)*size, (2*unit(r)-1)*size
		case 2, 3: // on or near a cell boundary
			h := geo.Hexagon((2*unit(r)-1)*size, (2*unit(r)-1)*size)
			cx, cy := geo.Centre(h)
			s, co := math.Sincos(float64(r.N(6)) * math.Pi / 3)
			t := 2*unit(r) - 1
			if r.P(1, 3) {
				t = float64(1 - 2*r.N(2))
			}
			q := 1.0
			if r.P(3, 4) {
				q += logSmall(r, -14, -1)
			}
			x, y = cx+q*(0.5*co-t*s*math.Sqrt(3)/6), cy+q*(0.5*s+t*co*math.Sqrt(3)/6)
		case 4: // an axis
			x, y = logSmall(r, -20, 6.6), 0
			if r.Bool() {
				y = logSmall(r, -20, -3)
			}
			if r.Bool() {
				x, y = y, x
			}
		case 5: // centres
			x, y = geo.Centre(h3ref.IJK{int64(r.N(2001)) - 1000, int64(r.N(2001)) - 1000, 0})
		case 6: // near the origin
			x, y = logSmall(r, -12, 0.6), logSmall(r, -12, 0.6)
		case 7: // multiples of a half, a third and a sixth
			x = float64(r.N(4001)-2000) / float64(r.Pick(2, 3, 6))
			y = float64(r.N(4001)-2000) / float64(r.Pick(2, 3, 6)) * math.Sqrt(3) / 2
		default:
			x, y = logSmall(r, -6, 6.6), logSmall(r, -6, 6.6)
		}
		bx, by := f.FromFloat(x), f.FromFloat(y)
		if r.P(1, 40) {
			bx = f.Zero(r.U64() & 1)
		}
		if r.P(1, 40) {
			by = f.Zero(r.U64() & 1)
		}
		if r.P(1, 3) {
			bx = bx + uint64(r.N(5)) - 2
			if !f.Finite(bx) || math.Abs(f.Float(bx)) > 5e6 {
				bx = 0
			}
		}
		c.In = []fw.Hex{fw.Hex(bx & f.Mask()), fw.Hex(by & f.Mask())}
		return c
	}
}

func shrinkIn(c LCase) []LCase {
	var out []LCase
	f := c.f()
	for i := range c.In {
		for _, v := range simpler(f, uint64(c.In[i])) {
			if !f.Finite(v) || math.Abs(f.Float(v)) > 5e6 {
				continue
			}
			d := c
			d.In = append([]fw.Hex{}, c.In...)
			d.In[i] = fw.Hex(v)
			out = append(out, d)
		}
	}
	for i := range c.Mut {
		d := c
		d.Mut = append(append([]Mut{}, c.Mut[:i]...), c.Mut[i+1:]...)
		out = append(out, d)
	}
	return out
}

// callNames lists the advice requests of a case run honestly.
func callNames(c LCase, run func(e *eng.Engine)) []string {
	e := engineFor(c.SCS, eng.WithRecord())
	eng.Guard(func() { run(e); e.Finish() })
	return namesOf(e)
}

func L04(x *fw.Ctx) {
	std(x, "planar points up to the largest grid extent: on and near cell boundaries and corners, axes, centres, sixths and thirds, signed zeros, uniform and log-uniform, all quadrants, both precisions; a second stage alters advice, and any accepted result must still be the hexagon containing the point; distinct by point and alterations")
	for _, b := range []bool{false, true} {
		b := b
		if stageMissing(x, locshim.Of(b).IJK != nil) {
			wholeStage(x, b)
			continue
		}
		gen := genHexagon(b)
		fw.Run(x, fw.Stage[LCase]{Name: fmtBits(b).String(), N: x.Scale(12000, 400000), Gen: gen, Check: checkHexagon, Shrink: shrinkIn, Units: unitsL})
		fw.Run(x, fw.Stage[LCase]{Name: fmtBits(b).String() + "-advice", N: x.Scale(8000, 300000), Gen: func(r *fw.R, i int) LCase {
			c := gen(r, i)
			c.Mut = genMuts(r, callNames(c, func(e *eng.Engine) {
				ctx := newCtx(e, e, c.Range, c.f().E, c.f().M)
				locshim.Of(b).IJK(&ctx, ctx.NewFloat(e.In(uint64(c.In[0]))), ctx.NewFloat(e.In(uint64(c.In[1]))))
			}))
			return c
		}, Check: checkHexagon, Shrink: shrinkIn, Units: unitsL})
	}
	x.Extra("largest_error_in_units", errReport())
}

// ---- L05

// NCase is a signed triple with the sign its zeros carry.
type NCase struct {
	F64   bool     `json:"f64"`
	Range uint     `json:"range,omitempty"`
	C     [3]int64 `json:"c"`
	Zero  [3]bool  `json:"zero"` // a zero is flagged negative
	Mut   []Mut    `json:"mut,omitempty"`
}

func (c NCase) run(e *eng.Engine, out *h3ref.IJK) error {
	f := fmtBits(c.F64)
	ctx := newCtx(e, e, c.Range, f.E, f.M)
	var sg, mg [3]*eng.W
	for i, v := range c.C {
		neg := 0
		if v < 0 || v == 0 && c.Zero[i] {
			neg = 1
		}
		if v < 0 {
			v = -v
		}
		sg[i], mg[i] = e.In(neg), e.In(v)
		e.MarkBoolean(sg[i])
	}
	res := locshim.Of(c.F64).Norm(&ctx, sg[0], mg[0], sg[1], mg[1], sg[2], mg[2])
	for i, v := range res {
		n, ok := eng.Signed(v)
		if !ok {
			return fmt.Errorf("coordinate %d is not a small integer", i)
		}
		out[i] = n
	}
	return nil
}

func checkNorm(c NCase) string {
	var opts []eng.Option
	if len(c.Mut) > 0 {
		opts = append(opts, eng.WithStrategy(strategyOf(c.Mut, 8)))
	}
	e := eng.New(opts...)
	var got h3ref.IJK
	var err error
	r := eng.Guard(func() { err = c.run(e, &got); e.Finish() })
	want := geo.Normalize(h3ref.IJK(c.C))
	if !r.Accepted {
		if len(c.Mut) > 0 {
			return ""
		}
		return fmt.Sprintf("normalising %v is unprovable: %s", c.C, r.Why)
	}
	if err != nil {
		return fmt.Sprintf("normalising %v: %v", c.C, err)
	}
	if got != want {
		return fmt.Sprintf("normalising %v (zeros flagged %v) gives %v, want %v", c.C, c.Zero, got, want)
	}
	return ""
}

func unitsNorm(c NCase) []fw.Unit {
	h := fw.HS(fmt.Sprint(c))
	n := 0
	for _, v := range c.C {
		if v < 0 {
			n++
		}
	}
	return []fw.Unit{{Hash: h, NonTrivial: geo.Normalize(h3ref.IJK(c.C)) != h3ref.IJK(c.C) || c.Zero != [3]bool{}, Label: fmt.Sprintf("negatives%d", n)}}
}

func shrinkNorm(c NCase) []NCase {
	var out []NCase
	for i := range c.C {
		for _, v := range []int64{0, c.C[i] / 2, c.C[i] - 1, c.C[i] + 1} {
			if v*v < c.C[i]*c.C[i] {
				d := c
				d.C[i] = v
				out = append(out, d)
			}
		}
		if c.Zero[i] {
			d := c
			d.Zero[i] = false
			out = append(out, d)
		}
	}
	for i := range c.Mut {
		d := c
		d.Mut = append(append([]Mut{}, c.Mut[:i]...), c.Mut[i+1:]...)
		out = append(out, d)
	}
	return out
}

func L05(x *fw.Ctx) {
	std(x, "all triples in [-n, n]^3 with all sign flags of zeros, random triples up to 2^30, both packages, then altered advice; non-trivial: the triple is not normalised already or a zero is flagged; distinct by triple and flags")
	n := x.Scale(4, 9)
	for _, b := range []bool{false, true} {
		b := b
		if stageMissing(x, locshim.Of(b).Norm != nil) {
			wholeStage(x, b)
			continue
		}
		var all []NCase
		for i := -n; i <= n; i++ {
			for j := -n; j <= n; j++ {
				for k := -n; k <= n; k++ {
					t := [3]int64{int64(i), int64(j), int64(k)}
					for z := 0; z < 8; z++ {
						fl := [3]bool{z&1 == 1, z&2 == 2, z&4 == 4}
						ok := true
						for q := range fl {
							if fl[q] && t[q] != 0 {
								ok = false
							}
						}
						if ok {
							all = append(all, NCase{F64: b, C: t, Zero: fl})
						}
					}
				}
			}
		}
		name := fmtBits(b).String()
		fw.Run(x, fw.Stage[NCase]{Name: name + "-small", N: len(all), Gen: func(r *fw.R, i int) NCase { return all[i] }, Check: checkNorm, Shrink: shrinkNorm, Units: unitsNorm})
		gen := func(r *fw.R, i int) NCase {
			c := NCase{F64: b, Range: rangeSize(r)}
			bits := uint(r.Range(1, 30))
			base := int64(r.U64() >> 1 & (1<<bits - 1))
			for q := range c.C {
				switch r.N(5) {
				case 0:
					c.C[q] = 0
				case 1:
					c.C[q] = base + int64(r.N(5)) - 2
				default:
					c.C[q] = int64(r.U64() >> 1 & (1<<bits - 1))
				}
				if r.Bool() {
					c.C[q] = -c.C[q]
				}
				c.Zero[q] = c.C[q] == 0 && r.Bool()
			}
			return c
		}
		fw.Run(x, fw.Stage[NCase]{Name: name + "-large", N: x.Scale(8000, 300000), Gen: gen, Check: checkNorm, Shrink: shrinkNorm, Units: unitsNorm})
		fw.Run(x, fw.Stage[NCase]{Name: name + "-advice", N: x.Scale(8000, 300000), Gen: func(r *fw.R, i int) NCase {
			c := gen(r, i)
			c.Mut = genMuts(r, callNames(LCase{}, func(e *eng.Engine) { var o h3ref.IJK; c.run(e, &o) }))
			return c
		}, Check: checkNorm, Shrink: shrinkNorm, Units: unitsNorm})
	}
}

// ---- L06, L07: the whole circuit

// runLoc evaluates the location circuit with free claims and returns the claim
// it accepts.
func runLoc(c LCase, strat eng.Strategy, record bool) (eng.Result, h3ref.IJK, string, *eng.Engine) {
	var opts []eng.Option
	if strat != nil {
		opts = append(opts, eng.WithStrategy(strat))
	}
	if record {
		opts = append(opts, eng.WithRecord())
	}
	e := engineFor(c.SCS, opts...)
	cl := [3]*eng.W{e.Free(), e.Free(), e.Free()}
	if c.Want != nil {
		e = engineFor(c.SCS, opts...)
		for i := range cl {
			cl[i] = e.In(modz(big.NewInt(c.Want[i])))
		}
	}
	circ := locshim.Of(c.F64).Circuit(e.In(uint64(c.Loc.Lat)), e.In(uint64(c.Loc.Lng)), c.res(e), cl[0], cl[1], cl[2])
	var got h3ref.IJK
	bad := ""
	r := e.Run(func(api frontend.API) {
		if err := circ.Define(api); err != nil {
			panic(eng.Reject{Why: "define: " + err.Error()})
		}
	})
	if r.Accepted {
		for i, w := range cl {
			n, ok := eng.Signed(w)
			if !ok {
				bad = fmt.Sprintf("coordinate %d is not a small integer", i)
			}
			got[i] = n
		}
		if e.Pending() > 0 {
			bad = "a public coordinate is not constrained"
		}
	}
	return r, got, bad, e
}

// contains reports why the cell is not one containing the location, "" if it is.
func contains(c LCase, got h3ref.IJK) string {
	f := c.f()
	lat, lng := c.Loc.at(f)
	u := ulp(f)
	if !geo.Canonical(got) {
		return fmt.Sprintf("cell %v of (%v, %v) at resolution %d is not normalised", got, lat, lng, c.Loc.Res)
	}
	faces, _ := geo.Nearest(lat, lng, 4*kFace*u)
	tol := kTotal * u * geo.Scale(c.Loc.Res)
	best := math.Inf(1)
	for _, face := range faces {
		x, y := geo.Project(face, lat, lng, c.Loc.Res)
		best = math.Min(best, geo.Outside(got, x, y))
	}
	noteErr("total "+f.String(), best/u/geo.Scale(c.Loc.Res))
	if !(best <= tol) {
		x, y := geo.Project(faces[0], lat, lng, c.Loc.Res)
		return fmt.Sprintf("cell of (%v, %v) at resolution %d is %v, want %v (point (%v, %v) of face %d; outside by %g, allowed %g)", lat, lng, c.Loc.Res, got, geo.Hexagon(x, y), x, y, faces[0], best, tol)
	}
	hf, h := h3ref.FaceIJK(lat, lng, c.Loc.Res)
	if h != got && len(faces) == 1 && faces[0] == hf {
		x, y := geo.Project(hf, lat, lng, c.Loc.Res)
		// H3 itself loses accuracy near face centres; its answer is binding
		// when the point is clearly inside the cell it names
		if geo.Outside(h, x, y) < -tol {
			return fmt.Sprintf("cell of (%v, %v) at resolution %d is %v, H3 says %v", lat, lng, c.Loc.Res, got, h)
		}
	}
	return ""
}

func checkWhole(c LCase) string {
	f := c.f()
	lat, lng := c.Loc.at(f)
	r, got, bad, _ := runLoc(c, nil, false)
	if !r.Accepted {
		return fmt.Sprintf("location (%v, %v) at resolution %d is unprovable: %s", lat, lng, c.Loc.Res, clipWhy(r.Why))
	}
	if bad != "" {
		return fmt.Sprintf("location (%v, %v) at resolution %d: %s", lat, lng, c.Loc.Res, bad)
	}
	if w := contains(c, got); w != "" {
		return w
	}
	// the claim is needed: other claims are rejected, this one is accepted
	if h := c.Loc.hash(); h%8 == 0 {
		d := c
		d.Want = []int64{got[0], got[1], got[2]}
		if r, _, _, _ := runLoc(d, nil, false); !r.Accepted {
			return fmt.Sprintf("location (%v, %v) at resolution %d: claim %v is refused: %s", lat, lng, c.Loc.Res, got, clipWhy(r.Why))
		}
		q := h / 8 % 3
		d.Want[q] += []int64{1, -1, 2, 1 << 20}[h/64%4]
		if r, _, _, _ := runLoc(d, nil, false); r.Accepted {
			return fmt.Sprintf("location (%v, %v) at resolution %d: wrong claim %v is provable", lat, lng, c.Loc.Res, d.Want)
		}
	}
	return ""
}

func clipWhy(s string) string {
	if i := strings.IndexByte(s, '\n'); i > 0 && len(s) > 300 {
		return s[:300]
	}
	return s
}

func wholeStage(x *fw.Ctx, b bool) {
	if locshim.Of(b).Circuit == nil {
		x.Extra("circuit", "the location circuit could not be reached in this tree")
		return
	}
	fw.Run(x, fw.Stage[LCase]{Name: "circuit-" + fmtBits(b).String(), N: x.Scale(3500, 120000), Gen: genL(b), Check: checkWhole, Shrink: shrinkL, Units: unitsL})
}

func wholeProp(x *fw.Ctx, b bool) {
	std(x, "the locations of L01 with resolutions 0 to 15; the circuit is run with open claims and the cell it accepts must be the hexagon containing the location on a (nearly) nearest face and H3's cell whenever the location is clearly inside that; one case in eight also tries the right and a wrong claim; distinct by location and resolution")
	wholeStage(x, b)
	compiledStage(x, b)
	x.Extra("largest_error_in_units", errReport())
}

func L06(x *fw.Ctx) { wholeProp(x, false) }
func L07(x *fw.Ctx) { wholeProp(x, true) }
