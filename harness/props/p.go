package props

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"verif/harness/fw"
	"verif/harness/ref"
	"verif/harness/rpc"
)

const earthR = 6371000.0

// centralAngle is the angle between two points given in degrees, from
// high-precision arithmetic, and one minus its haversine.
func centralAngle(lat1, lng1, lat2, lng2 float64) (c, om float64) {
	nf := func() *big.Float { return new(big.Float).SetPrec(300) }
	rad := func(a *big.Float) *big.Float { return nf().Quo(nf().Mul(a, piBig), nf().SetInt64(180)) }
	sc := func(a *big.Float) (s, c *big.Float) { return sincosBigF(a) }
	a1, a2 := nf().SetFloat64(lat1), nf().SetFloat64(lat2)
	two := nf().SetInt64(2)
	s1, _ := sc(nf().Quo(rad(nf().Sub(a2, a1)), two))
	s2, _ := sc(nf().Quo(rad(nf().Sub(nf().SetFloat64(lng2), nf().SetFloat64(lng1))), two))
	_, c1 := sc(rad(a1))
	_, c2 := sc(rad(a2))
	h := nf().Mul(s1, s1)
	h.Add(h, nf().Mul(nf().Mul(c1, c2), nf().Mul(s2, s2)))
	o := nf().Sub(nf().SetInt64(1), h)
	if h.Sign() < 0 {
		h.SetInt64(0)
	}
	if o.Sign() < 0 {
		o.SetInt64(0)
	}
	hs, _ := nf().Sqrt(h).Float64()
	os, _ := nf().Sqrt(o).Float64()
	om, _ = o.Float64()
	return 2 * math.Atan2(hs, os), om
}

// distTol bounds what double arithmetic may lose in the haversine formula.
func distTol(c, om float64) float64 {
	const e = 2.3e-16
	t := 2 * math.Sqrt(32*e)
	if om > 0 {
		t = math.Min(t, 32*e/math.Sqrt(om))
	}
	return earthR * (32*e*c + t + 6e-15)
}

// Geo3 is a triple of points in degrees.
type Geo3 struct{ P [6]float64 }

func genGeoPoint(r *fw.R) (float64, float64) {
	la := math.Asin(2*r.Float64()-1) * 180 / math.Pi
	ln := 360*r.Float64() - 180
	switch r.N(10) {
	case 0:
		la = float64(r.Pick(-90, 90, 0))
	case 1:
		ln = float64(r.Pick(-180, 180, 0, 90))
	case 2:
		la, ln = math.Trunc(la), math.Trunc(ln)
	case 3:
		ln = math.Copysign(180-math.Pow(10, -float64(r.N(12))), ln)
	case 4:
		la = math.Copysign(90-math.Pow(10, -float64(r.N(12))), la)
	case 5:
		la, ln = float64(float32(la)), float64(float32(ln))
	}
	return la, ln
}

func genGeo3(r *fw.R, _ int) Geo3 {
	var g Geo3
	for i := 0; i < 3; i++ {
		la, ln := genGeoPoint(r)
		if i > 0 {
			pla, pln := g.P[2*i-2], g.P[2*i-1]
			d := math.Pow(10, -float64(r.N(14)))
			switch r.N(6) {
			case 0: // near the previous point
				la, ln = pla+d*(r.Float64()-0.5), pln+d*(r.Float64()-0.5)
			case 1, 2: // at or near its antipode
				la, ln = -pla, pln+180
				if ln > 180 {
					ln -= 360
				}
				if r.Bool() {
					la, ln = la+d*(r.Float64()-0.5), ln+d*(r.Float64()-0.5)
				}
			case 3:
				la, ln = pla, pln
			}
			la = math.Max(-90, math.Min(90, la))
			ln = math.Max(-180, math.Min(180, ln))
		}
		g.P[2*i], g.P[2*i+1] = la, ln
	}
	return g
}

type GeoBatch struct{ G []Geo3 }

func (e *extEnv) checkGeo(b GeoBatch) string {
	var args []string
	pairs := [][2]int{{0, 1}, {1, 0}, {1, 2}, {0, 2}, {0, 0}}
	for _, g := range b.G {
		for _, p := range pairs {
			args = append(args, rpc.H(g.P[2*p[0]]), rpc.H(g.P[2*p[0]+1]), rpc.H(g.P[2*p[1]]), rpc.H(g.P[2*p[1]+1]))
		}
	}
	r, crash, err := e.prox.Call(rpc.Query{Fn: "distance", Args: args})
	if err != nil {
		fw.Fatal("%v", err)
	}
	if crash != "" {
		return "distance: " + crash
	}
	half := math.Pi * earthR
	for i, g := range b.G {
		var d, tol [5]float64
		for k, p := range pairs {
			d[k] = rpc.F(r.Res[i*len(pairs)+k])
			q := []float64{g.P[2*p[0]], g.P[2*p[0]+1], g.P[2*p[1]], g.P[2*p[1]+1]}
			c, om := centralAngle(q[0], q[1], q[2], q[3])
			tol[k] = distTol(c, om)
			if !(math.Abs(d[k]-earthR*c) <= tol[k]) {
				return fmt.Sprintf("distance from (%v, %v) to (%v, %v) is %v m; the great circle is %v m", q[0], q[1], q[2], q[3], d[k], earthR*c)
			}
			if !(d[k] >= 0 && d[k] <= half*(1+1e-15)) {
				return fmt.Sprintf("distance from (%v, %v) to (%v, %v) is %v m, outside 0 to half the circumference", q[0], q[1], q[2], q[3], d[k])
			}
		}
		if math.Abs(d[0]-d[1]) > 2*(32*2.3e-16*d[0]+1e-9)+tol[0] {
			return fmt.Sprintf("distance is not symmetric: %v and %v m for %v", d[0], d[1], g.P[:4])
		}
		if d[4] > 1e-7 {
			return fmt.Sprintf("distance of (%v, %v) to itself is %v m", g.P[0], g.P[1], d[4])
		}
		if d[3] > d[0]+d[2]+tol[0]+tol[2]+tol[3] {
			return fmt.Sprintf("triangle inequality: %v > %v + %v m for %v", d[3], d[0], d[2], g.P)
		}
	}
	return ""
}

// CellsCase is a list of cells to export.
type CellsCase struct {
	F32   bool
	C     []fw.Hex // latitude, longitude of each cell
	Exist string   `json:",omitempty"` // content the file had before
	Bad   bool     `json:",omitempty"` // the directory does not exist
	Full  bool     `json:",omitempty"` // there is no space left
}

func (e *extEnv) checkCells(c CellsCase) string {
	root, work, _ := e.caseDir()
	defer os.RemoveAll(root)
	name := filepath.Join(work, "cells.txt")
	if c.Bad {
		name = filepath.Join(work, "nowhere", "cells.txt")
	}
	if c.Full {
		if err := os.Symlink("/dev/full", name); err != nil {
			fw.Fatal("%v", err)
		}
	}
	q := rpc.Query{Fn: "write", Dir: work, Args: []string{name, "64"}}
	if c.F32 {
		q.Args[1] = "32"
	}
	if c.Exist != "" {
		q.Files = []rpc.File{{P: filepath.Join(work, "cells.txt"), C: c.Exist, M: 0o644}}
	}
	for _, v := range c.C {
		q.Args = append(q.Args, strconv.FormatUint(uint64(v), 16))
	}
	r, crash, err := e.prox.Call(q)
	if err != nil {
		fw.Fatal("%v", err)
	}
	if crash != "" {
		return "exporting cells: " + crash
	}
	if c.Bad {
		if r.Err == "" {
			return "exporting cells into a directory that does not exist reports no error"
		}
		return ""
	}
	if st, err := os.Lstat(name); c.Full && err == nil && st.Mode()&os.ModeSymlink != 0 {
		if r.Err == "" && len(c.C) > 0 {
			return "exporting cells to a full device reports no error"
		}
		return ""
	}
	if r.Err != "" {
		return "exporting cells: error " + r.Err
	}
	b, err := os.ReadFile(name)
	if err != nil {
		return "exporting cells: " + err.Error()
	}
	var lines []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	if len(lines) != len(c.C)/2 {
		return fmt.Sprintf("%d cells were exported as %d lines: %q", len(c.C)/2, len(lines), clipS(string(b), 300))
	}
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) != 2 {
			return fmt.Sprintf("line %d of the export is %q", i, l)
		}
		for k := 0; k < 2; k++ {
			v := math.Float64frombits(uint64(c.C[2*i+k]))
			if c.F32 {
				v = float64(float32(v))
			}
			u, err := strconv.ParseUint(f[k], 16, 64)
			if err != nil {
				return fmt.Sprintf("line %d of the export is %q: %v", i, l, err)
			}
			g := math.Float64frombits(u)
			if math.IsNaN(v) && math.IsNaN(g) {
				continue
			}
			if u != math.Float64bits(v) {
				return fmt.Sprintf("line %d of the export is %q: field %d decodes to %v instead of %v (32-bit %v)", i, l, k, g, v, c.F32)
			}
		}
	}
	return ""
}

// NearCase is one run of the tool with a generated boundary.
type NearCase struct {
	Index  string
	Bound  []string // latitude, longitude, ...
	FailAt string   `json:",omitempty"` // the program that fails
}

const userLat, userLng = 40.689167, 72.044444

var closestRe = regexp.MustCompile(`(?i)closest distance[^\n]*?:\s*(\S+)\s*kilometers`)

func (e *extEnv) checkNear(c NearCase, tool string) string {
	root, work, bin := e.caseDir()
	defer os.RemoveAll(root)
	var out strings.Builder
	for i := 0; i+1 < len(c.Bound); i += 2 {
		out.WriteString("   " + c.Bound[i] + " " + c.Bound[i+1] + "\n")
	}
	code := map[string]int{c.FailAt: 1}
	q := rpc.Query{Fn: "run", Dir: work, Args: []string{tool}, Files: []rpc.File{
		{P: filepath.Join(bin, "latLngToCell"), C: fakeProgram("I: 1, J: 2, K: 0\n--- "+c.Index+"\n", "", "", code["latLngToCell"]), M: 0o755},
		{P: filepath.Join(bin, "cellToBoundary"), C: fakeProgram("{\n"+out.String()+"}\n", "", "", code["cellToBoundary"]), M: 0o755},
	}}
	r, crash, err := e.util.Call(q)
	if err != nil || crash != "" {
		fw.Fatal("running the tool: %v %s", err, crash)
	}
	so := r.Res[0]
	m := closestRe.FindStringSubmatch(so)
	if c.FailAt != "" {
		if m != nil {
			return fmt.Sprintf("%s fails, but the tool reports a distance: %q", c.FailAt, m[0])
		}
		return ""
	}
	if r.Err != "" {
		return fmt.Sprintf("the tool failed: %s: %s", r.Err, clipS(r.Res[1], 300))
	}
	if m == nil {
		return fmt.Sprintf("the tool reports no distance: %q", clipS(so, 400))
	}
	got, perr := strconv.ParseFloat(m[1], 64)
	if perr != nil {
		return fmt.Sprintf("the tool reports %q", m[0])
	}
	if why := checkArgs(filepath.Join(bin, "cellToBoundary.args"), map[string]any{"--index": c.Index}); why != "" {
		return why
	}
	best, tol := math.Inf(1), 0.0
	for i := 0; i+1 < len(c.Bound); i += 2 {
		la, _ := strconv.ParseFloat(c.Bound[i], 64)
		ln, _ := strconv.ParseFloat(c.Bound[i+1], 64)
		a, om := centralAngle(userLat, userLng, la, ln)
		if d := a * earthR; d < best {
			best, tol = d, distTol(a, om)
		}
	}
	if !(math.Abs(got*1000-best) <= 5.001+tol) {
		return fmt.Sprintf("the tool reports %v km; the nearest boundary point of %v is %.5f km away", got, c.Bound, best/1000)
	}
	return ""
}

func genNear(r *fw.R, _ int) NearCase {
	c := NearCase{Index: fmt.Sprintf("8%x%s", r.N(16), strconv.FormatUint(r.U64()|1<<60, 16)[:13])}
	n := r.Range(5, 8)
	la, ln := genGeoPoint(r)
	w := math.Pow(10, 1.5-4*r.Float64())
	if r.P(1, 3) {
		la, ln = userLat+w*(r.Float64()-0.5)*4, userLng+w*(r.Float64()-0.5)*4
	}
	for i := 0; i < n; i++ {
		a, b := la+w*(r.Float64()-0.5), ln+w*(r.Float64()-0.5)
		a = math.Max(-90, math.Min(90, a))
		if b > 180 {
			b -= 360
		} else if b < -180 {
			b += 360
		}
		c.Bound = append(c.Bound, strconv.FormatFloat(a, 'f', 10, 64), strconv.FormatFloat(b, 'f', 10, 64))
	}
	if r.P(1, 12) {
		c.FailAt = r.PickS("latLngToCell", "cellToBoundary")
	}
	return c
}

func P01(x *fw.Ctx) {
	x.Rule = "triples of points on the globe biased to poles, date line, coinciding, close and antipodal points; lists of cells with arbitrary coordinates; runs of the tool with generated boundaries; a case is non-trivial when its points differ or its list is not empty; distinct by content"
	x.Assume = []string{"reference distance: haversine formula in 300-bit arithmetic on a sphere of 6371 km; tolerances allow what double arithmetic loses in that formula, which is largest for antipodal points",
		"the external grid programs are replaced by generated shell scripts"}
	e := newExtEnv(x)
	defer e.close()
	if e.has("num") {
		fw.Run(x, fw.Stage[GeoBatch]{Name: "distance", N: x.Scale(2500, 120000), Gen: func(r *fw.R, i int) GeoBatch {
			var b GeoBatch
			for k := 0; k < 16; k++ {
				b.G = append(b.G, genGeo3(r, i))
			}
			return b
		}, Check: e.checkGeo,
			Units: func(b GeoBatch) (out []fw.Unit) {
				for _, g := range b.G {
					var h []uint64
					for _, v := range g.P {
						h = append(h, math.Float64bits(v))
					}
					out = append(out, fw.Unit{Hash: fw.H(h...), NonTrivial: g.P[0] != g.P[2] || g.P[1] != g.P[3]})
				}
				return
			},
			Shrink: func(b GeoBatch) (out []GeoBatch) {
				if len(b.G) > 1 {
					for _, g := range b.G {
						out = append(out, GeoBatch{[]Geo3{g}})
					}
					return
				}
				for i := range b.G[0].P {
					for _, v := range []float64{0, math.Trunc(b.G[0].P[i]), float64(float32(b.G[0].P[i]))} {
						if v != b.G[0].P[i] {
							g := b.G[0]
							g.P[i] = v
							out = append(out, GeoBatch{[]Geo3{g}})
						}
					}
				}
				return
			}})
		fw.Run(x, fw.Stage[CellsCase]{Name: "export", N: x.Scale(6000, 200000), Gen: func(r *fw.R, i int) CellsCase {
			c := CellsCase{F32: r.Bool(), Bad: r.P(1, 30)}
			n := r.Pick(0, 1, 1, 2, 3, 7, 20)
			for k := 0; k < 2*n; k++ {
				v := math.Float64bits((2*r.Float64() - 1) * 180)
				if r.P(1, 4) {
					v = anyFloat(r, ref.F64)
				} else if r.P(1, 6) {
					f := math.Float32frombits(uint32(anyFloat(r, ref.F32)))
					v = math.Float64bits(float64(f))
				}
				c.C = append(c.C, fw.Hex(v))
			}
			if !c.Bad && r.P(1, 30) {
				c.Full = true
				return c
			}
			if r.P(1, 4) {
				c.Exist = strings.Repeat("4044582ff3f0d9b6 c0528312f2f8a9a1\n", r.Range(1, 40))
			}
			return c
		}, Check: e.checkCells,
			Units: func(c CellsCase) []fw.Unit {
				var h []uint64
				for _, v := range c.C {
					h = append(h, uint64(v))
				}
				return []fw.Unit{{Hash: fw.H(h...), NonTrivial: len(c.C) > 0, Label: fmt.Sprintf("32-bit=%v", c.F32)}}
			},
			Shrink: func(c CellsCase) (out []CellsCase) {
				for i := 0; i+1 < len(c.C); i += 2 {
					d := c
					d.C = append(append([]fw.Hex{}, c.C[:i]...), c.C[i+2:]...)
					out = append(out, d)
				}
				if c.Exist != "" {
					d := c
					d.Exist = ""
					out = append(out, d)
				}
				return
			}})
	}
	tool := filepath.Join(x.Root, ".build/proxmain")
	fw.Run(x, fw.Stage[NearCase]{Name: "tool", N: x.Scale(700, 20000), Gen: genNear, Check: func(c NearCase) string { return e.checkNear(c, tool) },
		Units: func(c NearCase) []fw.Unit {
			l := "distance"
			if c.FailAt != "" {
				l = "failing " + c.FailAt
			}
			return []fw.Unit{{Hash: fw.HS(c.Index + strings.Join(c.Bound, " ")), NonTrivial: true, Label: l}}
		},
		Shrink: func(c NearCase) (out []NearCase) {
			for i := 0; i+1 < len(c.Bound) && len(c.Bound) > 2; i += 2 {
				d := c
				d.Bound = append(append([]string{}, c.Bound[:i]...), c.Bound[i+2:]...)
				out = append(out, d)
			}
			return
		}})
}
