package props

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verif/harness/fw"
)

// The repository's Python programs run unchanged, as copies in a scratch
// directory laid out like the repository.

const repoDir = "/repo"

var pyPath = func() string {
	for _, p := range []string{"python3-vt", "/opt/veriftools/pyvenv/bin/python", "python3"} {
		if q, err := exec.LookPath(p); err == nil {
			return q
		}
	}
	return ""
}()

type pyEnv struct {
	scratch string
	seq     atomic.Int64
}

func newPyEnv() *pyEnv {
	d, err := os.MkdirTemp("", "verif-py-")
	if err != nil {
		fw.Fatal("%v", err)
	}
	if out, err := exec.Command(pyPath, "-c", "import numpy, mpmath").CombinedOutput(); err != nil {
		fw.Fatal("no usable Python: %v %s", err, out)
	}
	return &pyEnv{scratch: d}
}

func (e *pyEnv) close() {
	if strings.Contains(e.scratch, "/verif-py-") {
		os.RemoveAll(e.scratch)
	}
}

// dir makes the scratch layout of one case.
func (e *pyEnv) dir(sub ...string) string {
	root := filepath.Join(e.scratch, strconv.FormatInt(e.seq.Add(1), 10))
	for _, s := range sub {
		if err := os.MkdirAll(filepath.Join(root, s), 0o755); err != nil {
			fw.Fatal("%v", err)
		}
	}
	return root
}

func put(root, name, text string, mode os.FileMode) {
	if err := os.WriteFile(filepath.Join(root, name), []byte(text), mode); err != nil {
		fw.Fatal("%v", err)
	}
}

// run runs a program of the repository in the layout at root, with the random
// generators seeded.
func (e *pyEnv) run(root, dir, name string, seed uint64) (out string, err error) {
	src, rerr := os.ReadFile(filepath.Join(repoDir, dir, name))
	if rerr != nil {
		fw.Fatal("%v", rerr)
	}
	put(root, filepath.Join(dir, name), string(src), 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, pyPath, "-W", "ignore", "-B", "-c",
		"import random,runpy,sys\nrandom.seed(int(sys.argv[1]))\nrunpy.run_path(sys.argv[2],run_name='__main__')", fmt.Sprint(seed), name)
	c.Dir = filepath.Join(root, dir)
	c.Env = append(os.Environ(), "OPENBLAS_NUM_THREADS=1", "OMP_NUM_THREADS=1")
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	err = c.Run()
	if err != nil {
		err = fmt.Errorf("%w: %s", err, clipS(lastLines(se.String()), 300))
	}
	return so.String(), err
}

func lastLines(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return strings.Join(l[max(0, len(l)-2):], " / ")
}

// ---- reference functions

const refPrec = 900

func rf() *big.Float { return new(big.Float).SetPrec(refPrec) }

// piRef is pi by Machin's formula.
var piRef = func() *big.Float {
	at := func(n int64) *big.Float { // atan(1/n)
		s, t := rf(), rf().Quo(rf().SetInt64(1), rf().SetInt64(n))
		q := rf().SetInt64(n * n)
		for k := int64(1); t.Sign() != 0 && t.MantExp(nil) > -refPrec-20; k += 2 {
			u := rf().Quo(t, rf().SetInt64(k))
			if k%4 == 1 {
				s.Add(s, u)
			} else {
				s.Sub(s, u)
			}
			t.Quo(t, q)
		}
		return s
	}
	p := rf().Sub(rf().Mul(rf().SetInt64(4), at(5)), at(239))
	return p.Mul(p, rf().SetInt64(4))
}()

// sinRef is the sine of any double.
func sinRef(x float64) *big.Float {
	v := rf().SetFloat64(x)
	if math.Abs(x) > 3 {
		two := rf().Mul(piRef, rf().SetInt64(2))
		k, _ := rf().Add(rf().Quo(v, two), rf().SetFloat64(math.Copysign(0.5, x))).Int(nil)
		v.Sub(v, two.Mul(two, rf().SetInt(k)))
	}
	s, _ := sincosBigF(v)
	return s
}

// atanRef is the arctangent of any double: the double result, corrected by the
// small angle that is left.
func atanRef(x float64) *big.Float {
	y := math.Atan(x)
	s, c := sincosBigF(rf().SetFloat64(y))
	v := rf().SetFloat64(x)
	d := rf().Quo(rf().Sub(rf().Mul(v, c), s), rf().Add(c, rf().Mul(v, s)))
	d3 := rf().Mul(d, rf().Mul(d, d))
	d.Sub(d, d3.Quo(d3, rf().SetInt64(3)))
	return d.Add(d, rf().SetFloat64(y))
}

// polyRef is a polynomial, and the sum of its terms' magnitudes.
func polyRef(a []int64) func(x float64) (*big.Float, float64) {
	return func(x float64) (*big.Float, float64) {
		v, s := rf(), 0.0
		for i := len(a) - 1; i >= 0; i-- {
			v.Add(v.Mul(v, rf().SetFloat64(x)), rf().SetInt64(a[i]))
			s = s*math.Abs(x) + math.Abs(float64(a[i]))
		}
		return v, s
	}
}

func plain(f func(float64) *big.Float) func(float64) (*big.Float, float64) {
	return func(x float64) (*big.Float, float64) { v := f(x); m, _ := v.Float64(); return v, math.Abs(m) }
}

// ---- D01: rows of the function generators

// RowsCase is one run of a generator with a seed.
type RowsCase struct {
	Prog string
	Seed uint64
}

type rowFile struct {
	name  string
	f     func(x float64) (*big.Float, float64)
	round bool // rows carry the neighbouring floats
}

var rowProgs = map[string][]rowFile{
	"generate_test_math.py": {{"atan_ulp", plain(atanRef), true}, {"sin_ulp", plain(sinRef), true}},
	"generate_test_polynomial.py": {{"poly_cubic", polyRef([]int64{5, 1, 2, 3}), false},
		{"poly_degree10", polyRef([]int64{1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1}), false}},
}

const unrounded = "argument not rounded: "

// checkRow checks one row; known is the finding that the value belongs to an
// argument that has not been rounded to 32 bits yet.
func checkRow(t rowFile, f32 bool, cols []uint64) (why string, known bool) {
	dec := func(b uint64) float64 {
		if f32 {
			return float64(math.Float32frombits(uint32(b)))
		}
		return math.Float64frombits(b)
	}
	x, y := dec(cols[0]), dec(cols[1])
	if math.IsNaN(x) || math.IsInf(x, 0) || math.IsNaN(y) || math.IsInf(y, 0) {
		return fmt.Sprintf("%v -> %v", x, y), false
	}
	ulp := func(v float64) float64 {
		if f32 {
			a := float32(math.Abs(v))
			return float64(math.Nextafter32(a, math.MaxFloat32)) - float64(a)
		}
		a := math.Abs(v)
		return math.Nextafter(a, math.MaxFloat64) - a
	}
	want, sum := t.f(x)
	w, _ := want.Float64()
	d, _ := rf().Sub(want, rf().SetFloat64(y)).Float64()
	d = math.Abs(d)
	tol := 24*sum*0x1p-53 + math.SmallestNonzeroFloat64
	if t.round {
		tol = math.Abs(w)*0x1p-52 + math.SmallestNonzeroFloat64
	}
	tol += 0.5 * ulp(y)
	if d > tol {
		why = fmt.Sprintf("%s: the value at %v (%#x) is given as %v, it is %v", t.name, x, cols[0], y, w)
		if f32 {
			// the value for an argument that rounds to this one
			lo, hi := math.Inf(1), math.Inf(-1)
			a := float32(x)
			l := float64(math.Nextafter32(a, -math.MaxFloat32))/2 + x/2
			h := float64(math.Nextafter32(a, math.MaxFloat32))/2 + x/2
			const n = 16
			slack := 0.0
			prev := 0.0
			for i := 0; i <= n; i++ {
				vv, _ := t.f(l + (h-l)*float64(i)/n)
				v, _ := vv.Float64()
				lo, hi = math.Min(lo, v), math.Max(hi, v)
				if i > 0 {
					slack = math.Max(slack, math.Abs(v-prev))
				}
				prev = v
			}
			if h-l > 0.1 && t.name == "sin_ulp" {
				lo, hi = -1, 1
			}
			if y >= lo-slack-tol && y <= hi+slack+tol {
				return why, true
			}
		}
		return why, false
	}
	if !t.round {
		return "", false
	}
	lo, hi := dec(cols[2]), dec(cols[3])
	wl, wh := math.Nextafter(y, math.Inf(-1)), math.Nextafter(y, math.Inf(1))
	if f32 {
		inf := float32(math.Inf(1))
		wl, wh = float64(math.Nextafter32(float32(y), -inf)), float64(math.Nextafter32(float32(y), inf))
	}
	if lo != wl || hi != wh {
		return fmt.Sprintf("%s: the neighbours of %v (%#x) are given as %v and %v, they are %v and %v", t.name, y, cols[1], lo, hi, wl, wh), false
	}
	return "", false
}

func (e *pyEnv) checkRows(c RowsCase) string {
	root := e.dir("data/f32", "data/f64")
	defer os.RemoveAll(root)
	if _, err := e.run(root, "data", c.Prog, c.Seed); err != nil {
		return fmt.Sprintf("%s fails: %v", c.Prog, err)
	}
	finding := ""
	for _, t := range rowProgs[c.Prog] {
		for _, bits := range []int{32, 64} {
			b, err := os.ReadFile(filepath.Join(root, "data", fmt.Sprintf("f%d", bits), t.name))
			if err != nil {
				return fmt.Sprintf("%s writes no f%d/%s", c.Prog, bits, t.name)
			}
			lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
			if len(lines) < 2 {
				return fmt.Sprintf("f%d/%s has %d rows", bits, t.name, len(lines))
			}
			n := 2
			if t.round {
				n = 4
			}
			for i, l := range lines {
				f := strings.Fields(l)
				if len(f) != n {
					return fmt.Sprintf("f%d/%s: row %d is %q", bits, t.name, i, l)
				}
				cols := make([]uint64, n)
				for k := range f {
					v, err := strconv.ParseUint(f[k], 16, bits)
					if err != nil || len(f[k]) != bits/4 {
						return fmt.Sprintf("f%d/%s: row %d is %q", bits, t.name, i, l)
					}
					cols[k] = v
				}
				why, known := checkRow(t, bits == 32, cols)
				if why != "" && !known {
					return fmt.Sprintf("seed %d, f%d, row %d: %s", c.Seed, bits, i, why)
				}
				if known {
					finding = unrounded + why
				}
			}
		}
	}
	return finding
}

// ---- D01: rows of the location generator

// PointsCase is what the grid programs answer, per resolution.
type PointsCase struct {
	Centre [][2]string   // as printed
	Bound  [][][2]string // as printed
	IJK    [][3]int      // answers for the points, in turn
	Fail   string        `json:",omitempty"` // the program that fails
	FailAt int           `json:",omitempty"` // in its nth call
}

const (
	pointsPerRes = 9
	userPointLat = 40.689167
	userPointLng = 33.044444
	unsigned     = "minus sign dropped: "
)

// gridProgram answers its nth call with the nth answer file.
const gridProgram = `#!/bin/sh
n=$(cat "$0.n" 2>/dev/null || echo 0)
echo $((n+1)) >"$0.n"
for a in "$@"; do printf '%s\n' "$a"; done >"$0.args.$n"
if [ -e "$0.fail.$n" ]; then echo broken >&2; exit 3; fi
cat "$0.ans.$n"
`

func cellName(res int) string { return fmt.Sprintf("8%x2c3abcdeffff%x", res, res) }

// ask is one call of latLngToCell: the user's point, or a point of the row
// that is written for it.
type ask struct {
	res      int
	lat, lng float64
	ijk      [3]int
	row      bool
	target   [2]float64
}

func num(s string) float64 { v, _ := strconv.ParseFloat(s, 64); return v }

func (c PointsCase) boundary(res int) string {
	var b strings.Builder
	b.WriteString("{\n")
	for _, p := range c.Bound[res] {
		b.WriteString("   " + p[0] + " " + p[1] + "\n")
	}
	return b.String() + "}\n"
}

var blindRe = regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)

// plan is what is asked for, with the first boundary point as it is printed
// or as it is read without regard to signs.
func (c PointsCase) plan(blind bool) (asks []ask) {
	k := 0
	for res := range c.Centre {
		asks = append(asks, ask{res: res, lat: userPointLat, lng: userPointLng})
		t := c.Bound[res][0]
		if blind {
			m := blindRe.FindStringSubmatch(c.boundary(res))
			if m == nil {
				continue
			}
			t = [2]string{m[1], m[2]}
		}
		tla, tln := num(t[0]), num(t[1])
		for i := 0; i < pointsPerRes; i++ {
			f := math.Log(float64(i+2)) / math.Log(20)
			cla, cln := num(c.Centre[res][0]), num(c.Centre[res][1])
			asks = append(asks, ask{res, cla + (tla-cla)*f, cln + (tln-cln)*f, c.IJK[k%len(c.IJK)], true, [2]float64{tla, tln}})
			k++
		}
	}
	return
}

func (e *pyEnv) checkPoints(c PointsCase) string {
	asks := c.plan(false)
	why := e.checkPointsPlan(c, asks)
	if why == "" || c.Fail != "" {
		return why
	}
	if b := c.plan(true); e.checkPointsPlan(c, b) == "" {
		return unsigned + why
	}
	return why
}

func (e *pyEnv) checkPointsPlan(c PointsCase, asks []ask) string {
	root := e.dir("data/f32", "data/f64", "h3-master/build/bin")
	defer os.RemoveAll(root)
	const bin = "h3-master/build/bin/"
	const out = "data/f64/loc2index64.txt"
	put(root, out, "earlier content\n", 0o644)
	for _, p := range []string{"latLngToCell", "cellToLatLng", "cellToBoundary"} {
		put(root, bin+p, gridProgram, 0o755)
	}
	for res := range c.Centre {
		put(root, fmt.Sprintf("%scellToLatLng.ans.%d", bin, res), c.Centre[res][0]+" "+c.Centre[res][1]+"\n", 0o644)
		put(root, fmt.Sprintf("%scellToBoundary.ans.%d", bin, res), c.boundary(res), 0o644)
	}
	rows := 0
	for k, a := range asks {
		if a.row {
			rows++
		} else {
			a.ijk = [3]int{1, 0, 2}
		}
		put(root, fmt.Sprintf("%slatLngToCell.ans.%d", bin, k), fmt.Sprintf("I: %d, J: %d, K: %d\n--- %s\n", a.ijk[0], a.ijk[1], a.ijk[2], cellName(a.res)), 0o644)
	}
	if c.Fail != "" {
		put(root, fmt.Sprintf("%s%s.fail.%d", bin, c.Fail, c.FailAt), "", 0o644)
	}
	so, err := e.run(root, "data", "generate_test_loc2index.py", 1)
	got, _ := os.ReadFile(filepath.Join(root, out))
	if c.Fail != "" {
		if string(got) != "earlier content\n" {
			return fmt.Sprintf("%s fails in call %d, but rows are written", c.Fail, c.FailAt)
		}
		if err == nil && !strings.Contains(so, "Error") {
			return fmt.Sprintf("%s fails in call %d, but no error is reported", c.Fail, c.FailAt)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("generate_test_loc2index.py fails: %v", err)
	}
	lines := strings.Split(strings.TrimSuffix(string(got), "\n"), "\n")
	if len(lines) != rows {
		return fmt.Sprintf("%d rows for %d points; output ends %q", len(lines), rows, clipS(lastLines(so), 200))
	}
	for i, a := range asks {
		b, err := os.ReadFile(filepath.Join(root, fmt.Sprintf("%slatLngToCell.args.%d", bin, i)))
		if err != nil {
			return fmt.Sprintf("point %d was not asked for", i)
		}
		arg := map[string]string{}
		w := strings.Split(strings.TrimSpace(string(b)), "\n")
		for j := 0; j+1 < len(w); j += 2 {
			arg[w[j]] = w[j+1]
		}
		la, e1 := strconv.ParseFloat(arg["--latitude"], 64)
		ln, e2 := strconv.ParseFloat(arg["--longitude"], 64)
		if e1 != nil || e2 != nil || arg["--resolution"] != fmt.Sprint(a.res) || math.Abs(la-a.lat) > 1e-11 || math.Abs(ln-a.lng) > 1e-11 {
			return fmt.Sprintf("the grid program is asked for %q, the point is (%v, %v) at resolution %d", w, a.lat, a.lng, a.res)
		}
	}
	j := 0
	for _, a := range asks {
		if !a.row {
			continue
		}
		f := strings.Fields(lines[j])
		why := fmt.Sprintf("row %d is %q for the point (%v, %v), resolution %d, cell %v", j, lines[j], a.lat, a.lng, a.res, a.ijk)
		j++
		if len(f) != 6 || len(f[0]) != 16 || len(f[1]) != 16 {
			return why
		}
		for x, w := range []float64{a.lat, a.lng} {
			u, err := strconv.ParseUint(f[x], 16, 64)
			if v := math.Float64frombits(u); err != nil || !(math.Abs(v-w*math.Pi/180) <= 4e-15) {
				return why
			}
		}
		for x, w := range []int{a.res, a.ijk[0], a.ijk[1], a.ijk[2]} {
			if u, err := strconv.ParseInt(f[2+x], 16, 64); err != nil || int(u) != w {
				return why
			}
		}
	}
	// the printed distances
	j = 0
	ds := distRe.FindAllStringSubmatch(so, -1)
	if len(ds) != rows {
		return fmt.Sprintf("%d distances printed for %d points", len(ds), rows)
	}
	for _, a := range asks {
		if !a.row {
			continue
		}
		d := num(ds[j][1])
		j++
		p := a.target
		x, om := centralAngle(a.lat, a.lng, p[0], p[1])
		if !(math.Abs(d-x*earthR) <= 0.0051+distTol(x, om)+1e-9*x*earthR) {
			return fmt.Sprintf("the distance of (%v, %v) to %v is printed as %v m, it is %v m", a.lat, a.lng, p, d, x*earthR)
		}
	}
	return ""
}

var distRe = regexp.MustCompile(`(?i)distance[^\n]*?:\s*(\S+)\s*meters`)

func genPoints(r *fw.R, _ int) PointsCase {
	var c PointsCase
	if r.P(1, 6) {
		c.Fail = r.PickS("latLngToCell", "cellToLatLng", "cellToBoundary")
		c.FailAt = r.N(16)
		if c.Fail == "latLngToCell" {
			c.FailAt = r.N(160)
		}
	}
	neg := c.Fail == "" && r.P(1, 3) // southern and western cells
	for res := 0; res < 16; res++ {
		la, ln := genGeoPoint(r)
		w := 20 * math.Pow(7, -float64(res)/2)
		if !neg {
			la, ln = math.Min(89, math.Abs(la)+w+1), math.Min(179, math.Abs(ln)+w+1)
		}
		pr := func(v float64) string { return strconv.FormatFloat(v, 'f', 10, 64) }
		c.Centre = append(c.Centre, [2]string{pr(la), pr(ln)})
		var b [][2]string
		for k := r.Range(5, 7); k > 0; k-- {
			b = append(b, [2]string{pr(math.Max(-90, math.Min(90, la+w*(r.Float64()-0.5)))), pr(math.Max(-180, math.Min(180, ln+w*(r.Float64()-0.5))))})
		}
		c.Bound = append(c.Bound, b)
	}
	for k := r.Range(1, 150); k > 0; k-- {
		m := 1 << r.N(25)
		c.IJK = append(c.IJK, [3]int{r.N(m), r.N(m), r.N(m)})
	}
	return c
}

func D01(x *fw.Ctx) {
	x.Rule = "runs of the generators of test data with different seeds, every row checked; runs of the location generator with generated answers of the grid programs (centres and boundaries anywhere on the globe, cell coordinates up to 2^24) and with failing programs; every run is non-trivial; distinct by seed or answers"
	x.Assume = []string{"reference values from power series in 900-bit arithmetic", "the external grid programs are replaced by generated shell scripts", "polynomial values may lose what evaluation in double arithmetic loses"}
	e := newPyEnv()
	defer e.close()
	fw.Run(x, fw.Stage[RowsCase]{Name: "functions", N: x.Scale(48, 1500), Gen: func(r *fw.R, i int) RowsCase {
		return RowsCase{[]string{"generate_test_math.py", "generate_test_polynomial.py"}[i%2], r.U64() >> 12}
	}, Check: e.checkRows, Finding: func(c RowsCase, why string) string {
		if strings.HasPrefix(why, unrounded) {
			return "unrounded-argument"
		}
		return ""
	}, Units: func(c RowsCase) []fw.Unit {
		return []fw.Unit{{Hash: fw.H(fw.HS(c.Prog), c.Seed), NonTrivial: true, Label: c.Prog}}
	}})
	fw.Run(x, fw.Stage[PointsCase]{Name: "locations", N: x.Scale(200, 6000), Gen: genPoints, Check: e.checkPoints, Finding: func(c PointsCase, why string) string {
		if strings.HasPrefix(why, unsigned) {
			return "boundary-sign"
		}
		return ""
	}, Units: func(c PointsCase) []fw.Unit {
		lab := "north-east"
		if strings.HasPrefix(c.Centre[0][0]+c.Centre[0][1], "-") {
			lab = "any sign"
		}
		if c.Fail != "" {
			lab = "failing program"
		}
		return []fw.Unit{{Hash: fw.H(fw.HS(fmt.Sprint(c))), NonTrivial: true, Label: lab}}
	}})
}

// ---- D02

// TableCase is the outcome of the recorded tests, a row of 144 per log.
type TableCase struct{ Fail map[string][]int }

var tableLogs = []struct{ label, file, test string }{
	{"P6", "loc2index_P6_G16_BN254.txt", "TestLoc2IndexFromFile"},
	{"P12", "loc2index_P12_G16_BN254.txt", "TestLoc2IndexFromFile"},
	{"F32", "loc2index32_g16_bn254.txt", "TestLoc2Index32"},
	{"F64", "loc2index64_g16_bn254.txt", "TestLoc2Index64"},
}

var cellRe = regexp.MustCompile(`cellcolor\{(\w+?)(?:!\d+)?\}`)

func (e *pyEnv) checkTable(c TableCase) string {
	root := e.dir("scripts", "data/f32", "data/f64", "benchmarks/tests")
	defer os.RemoveAll(root)
	var rows strings.Builder
	for res := 0; res < 16; res++ {
		for k := 0; k < 9; k++ {
			fmt.Fprintf(&rows, "3F3120%02X 3F35A99C %X 1 0 1\n", res*9+k, res)
		}
	}
	put(root, "data/f32/loc2index32.txt", rows.String(), 0o644)
	put(root, "data/f64/loc2index64.txt", rows.String(), 0o644)
	for _, t := range tableLogs {
		bad := map[int]bool{}
		for _, k := range c.Fail[t.label] {
			bad[k] = true
		}
		var l, run strings.Builder
		name := func(k int) string {
			if k == 0 {
				return t.test + "/bn254"
			}
			return fmt.Sprintf("%s/bn254#%02d", t.test, k)
		}
		for k := 0; k < 144; k++ {
			n := name(k)
			fmt.Fprintf(&run, "lat: 0.691891, lng: 0.709619\n=== RUN   %s\n", n)
			if bad[k] {
				fmt.Fprintf(&l, "    --- FAIL: %s (0.00s)\n", n)
				continue
			}
			fmt.Fprintf(&run, "=== RUN   %s/groth16\n=== RUN   %s/groth16/valid_witness\n", n, n)
			fmt.Fprintf(&l, "    --- PASS: %s (0.20s)\n        --- PASS: %s/groth16 (0.17s)\n            --- PASS: %s/groth16/valid_witness (0.01s)\n", n, n, n)
		}
		all, end := "PASS", "ok  \tpkg\t29.1s\n"
		if len(bad) > 0 {
			all, end = "FAIL", "FAIL\nexit status 1\n"
		}
		put(root, "benchmarks/tests/"+t.file, "=== RUN   "+t.test+"\n"+run.String()+"--- "+all+": "+t.test+" (26.53s)\n"+l.String()+all+"\n"+end, 0o644)
	}
	so, err := e.run(root, "scripts", "generate_latex_table_tests.py", 1)
	if err != nil {
		return fmt.Sprintf("generate_latex_table_tests.py fails: %v", err)
	}
	got := map[string][]string{}
	for _, l := range strings.Split(so, "\n") {
		for _, t := range tableLogs {
			if strings.HasPrefix(strings.TrimSpace(l), `\textbf{`+t.label+`}`) {
				for _, m := range cellRe.FindAllStringSubmatch(l, -1) {
					got[t.label] = append(got[t.label], m[1])
				}
			}
		}
	}
	finding := ""
	for _, t := range tableLogs {
		g := got[t.label]
		if len(g) != 135 { // resolutions 1 to 15
			return fmt.Sprintf("row %s has %d cells", t.label, len(g))
		}
		want := make([]string, 135)
		for k := range want {
			want[k] = "green"
		}
		for _, k := range c.Fail[t.label] {
			if k >= 9 {
				want[k-9] = "red"
			}
		}
		red := 0
		why := ""
		for k := range want {
			if g[k] == "red" {
				red++
			}
			if g[k] != want[k] && why == "" {
				why = fmt.Sprintf("row %s, resolution %d, test %d is %s, it is %s in the log", t.label, k/9+1, k%9, g[k], want[k])
			}
		}
		if why != "" {
			if t.label != "F64" || red > 0 {
				return why
			}
			finding = allGreen + why
		}
	}
	return finding
}

const allGreen = "row is all green: "

func genTable(r *fw.R, _ int) TableCase {
	c := TableCase{map[string][]int{}}
	for _, t := range tableLogs {
		switch r.N(4) {
		case 0:
			continue
		case 1: // the finest resolutions
			for k := r.Range(80, 143); k < 144; k++ {
				if !r.P(1, 8) {
					c.Fail[t.label] = append(c.Fail[t.label], k)
				}
			}
			continue
		}
		p := r.Range(1, 60)
		for k := 0; k < 144; k++ {
			if r.P(p, 60) {
				c.Fail[t.label] = append(c.Fail[t.label], k)
			}
		}
	}
	return c
}

// CoefCase is an argument for the printed polynomial.
type CoefCase struct{ X fw.Hex }

var numRe = regexp.MustCompile(`-?\d+(?:\.\d*)?(?:e[-+]?\d+)?`)

// coefficients runs the generator and reads what it prints.
func (e *pyEnv) coefficients() (a []float64, bound float64, why string) {
	root := e.dir("scripts")
	defer os.RemoveAll(root)
	so, err := e.run(root, "scripts", "generate_remez_coefficients.py", 1)
	if err != nil {
		return nil, 0, fmt.Sprintf("generate_remez_coefficients.py fails: %v", err)
	}
	i, j, k := strings.Index(so, "["), strings.Index(so, "]"), strings.LastIndex(so, ":")
	if i < 0 || j < i || k < j {
		return nil, 0, fmt.Sprintf("unexpected output %q", clipS(so, 200))
	}
	for _, m := range numRe.FindAllString(so[i:j], -1) {
		v, _ := strconv.ParseFloat(m, 64)
		a = append(a, v)
	}
	bound, err = strconv.ParseFloat(strings.TrimSpace(so[k+1:]), 64)
	if err != nil || len(a) < 2 {
		return nil, 0, fmt.Sprintf("unexpected output %q", clipS(so, 200))
	}
	return a, bound, ""
}

func D02(x *fw.Ctx) {
	x.Rule = "tables made from logs of 4 x 144 tests with generated outcomes; the printed arctangent polynomial at generated points of its interval; non-trivial: some test fails, or the point is inside the interval; distinct by outcomes and points"
	x.Assume = []string{"reference arctangent in 900-bit arithmetic", "logs have the form of the recorded ones: a failing test has no subtests"}
	e := newPyEnv()
	defer e.close()
	fw.Run(x, fw.Stage[TableCase]{Name: "table", N: x.Scale(600, 20000), Gen: genTable, Check: e.checkTable, Shrink: func(c TableCase) (out []TableCase) {
		for l, f := range c.Fail {
			for _, n := range []int{len(f) / 2, len(f) - 1} {
				if n < 0 || len(f) == 0 {
					continue
				}
				for _, part := range [][]int{f[:n], f[len(f)-n:]} {
					d := TableCase{map[string][]int{}}
					for m, g := range c.Fail {
						d.Fail[m] = g
					}
					d.Fail[l] = part
					out = append(out, d)
				}
			}
		}
		return
	}, Finding: func(c TableCase, why string) string {
		if strings.HasPrefix(why, allGreen) {
			return "f64-row"
		}
		return ""
	}, Units: func(c TableCase) []fw.Unit {
		n := 0
		for _, f := range c.Fail {
			n += len(f)
		}
		return []fw.Unit{{Hash: fw.HS(fmt.Sprint(c)), NonTrivial: n > 0, Label: fmt.Sprintf("%d rows with failures", len(c.Fail))}}
	}})
	a, bound, why := e.coefficients()
	fw.Run(x, fw.Stage[CoefCase]{Name: "coefficients", N: x.Scale(4000, 100000), Gen: func(r *fw.R, i int) CoefCase {
		v := r.Float64()
		switch r.N(6) {
		case 0:
			v = math.Pow(10, -20*v)
		case 1: // near the points where the error is largest
			v = 0.5 + 0.5*math.Cos(math.Pi*float64(r.N(51))/50) + 1e-4*(v-0.5)
		case 2:
			v = float64(r.N(2))
		}
		return CoefCase{fw.Hex(math.Float64bits(math.Max(0, math.Min(1, v))))}
	}, Check: func(c CoefCase) string {
		if why != "" {
			return why
		}
		v := math.Float64frombits(uint64(c.X))
		p, slack := rf(), 0.0
		for i := len(a) - 1; i >= 0; i-- {
			p.Add(p.Mul(p, rf().SetFloat64(v)), rf().SetFloat64(a[i]))
			slack = slack*v + math.Abs(a[i])*0x1p-53 // the printed coefficients are rounded
		}
		d, _ := rf().Sub(p, atanRef(v)).Float64()
		if math.Abs(d) > bound*1.001+slack {
			return fmt.Sprintf("the polynomial is off by %g at %v, the error is given as %g", d, v, bound)
		}
		if bound > 1e-17 { // a polynomial of this degree does much better
			return fmt.Sprintf("the error is given as %g", bound)
		}
		return ""
	}, Units: func(c CoefCase) []fw.Unit {
		return []fw.Unit{{Hash: uint64(c.X), NonTrivial: uint64(c.X) != 0}}
	}})
}
