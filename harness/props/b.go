package props

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/util"

	"verif/harness/fw"
	"verif/harness/ref"
	"verif/harness/rpc"
)

// ---------------------------------------------------------------- U03

// BCirc is the statement out = ((x*x + 1)*x + 1)... with Muls products, or a
// float program, that takes a while to compile and to solve.
type BCirc struct {
	Muls    int
	X       uint64
	Claim   string // true, false, missing, missing-public, uncompilable, panic
	Compile int    `json:",omitempty"` // milliseconds that compiling takes at least
	Solve   int    `json:",omitempty"` // milliseconds that solving takes at least
	Prog    *Prog  `json:",omitempty"`
}

type benchCircuit struct {
	X   []frontend.Variable
	Out []frontend.Variable `gnark:",public"`
	c   BCirc
}

func pauseHint(_ *big.Int, in, out []*big.Int) error {
	time.Sleep(time.Duration(in[1].Int64()) * time.Millisecond)
	out[0].Set(in[0])
	return nil
}

func init() {
	solver.RegisterHint(pauseHint)
	rpc.Handlers["bench"] = benchServe
}

func (c *benchCircuit) Define(api frontend.API) error {
	time.Sleep(time.Duration(c.c.Compile) * time.Millisecond)
	switch c.c.Claim {
	case "uncompilable":
		return errors.New("this circuit does not compile")
	}
	x := c.X
	if c.c.Solve > 0 {
		h, err := api.NewHint(pauseHint, 1, x[0], c.c.Solve)
		if err != nil {
			return err
		}
		api.AssertIsEqual(h[0], x[0])
	}
	if c.c.Prog != nil {
		return (&progCircuit{p: c.c.Prog, In: x, Claim: c.Out}).Define(api)
	}
	v := x[0]
	for k := 0; k < c.c.Muls; k++ {
		v = api.Add(api.Mul(v, x[0]), 1)
	}
	api.AssertIsEqual(v, c.Out[0])
	return nil
}

// circuit and assignment.
func (b BCirc) pair() (c, a *benchCircuit) {
	nIn, nOut := 1, 1
	if b.Prog != nil {
		nIn, nOut = len(b.Prog.In), len(b.Prog.Steps)
	}
	mk := func() *benchCircuit {
		return &benchCircuit{X: make([]frontend.Variable, nIn), Out: make([]frontend.Variable, nOut), c: b}
	}
	c, a = mk(), mk()
	if b.Prog != nil {
		v := b.Prog.native()
		for i := range a.X {
			a.X[i] = uint64(b.Prog.In[i])
		}
		for i := range a.Out {
			a.Out[i] = v[len(v)-nOut+i]
		}
		if b.Claim == "false" {
			a.Out[nOut-1] = v[len(v)-1] ^ 1
		}
	} else {
		x, p := bigu(b.X), ecc.BN254.ScalarField()
		v := new(big.Int).Set(x)
		for k := 0; k < b.Muls; k++ {
			v.Mul(v, x).Add(v, one()).Mod(v, p)
		}
		if b.Claim == "false" {
			v.Add(v, one())
		}
		a.X[0], a.Out[0] = x, v
	}
	switch b.Claim {
	case "missing":
		a.X[len(a.X)-1] = nil
	case "missing-public":
		a.Out[0] = nil
	}
	return
}

// BCall is one call of a helper.
type BCall struct {
	Fn         string // g16-file, plonk-file, g16-mem, plonk-mem
	Circ       BCirc
	Res, Index int64
	Path       string `json:",omitempty"`
}

var benchInit sync.Once

// benchServe runs in a helper process.
func benchServe(args []string) ([]string, error) {
	benchInit.Do(func() {
		testing.Init()
		flag.Set("test.benchtime", "1x")
	})
	var c BCall
	if err := json.Unmarshal([]byte(args[0]), &c); err != nil {
		return nil, err
	}
	circ, asg := c.Circ.pair()
	var err error
	returned, failed, runs := false, false, 0
	testing.Benchmark(func(b *testing.B) {
		runs++
		defer func() { failed = b.Failed() }()
		switch c.Fn {
		case "g16-file":
			err = util.BenchProofToFileGroth16(b, circ, asg, c.Res, c.Index, c.Path)
		case "plonk-file":
			err = util.BenchProofToFilePlonk(b, circ, asg, c.Res, c.Index, c.Path)
		case "g16-mem":
			err = util.BenchProofMemoryGroth16(b, circ, asg)
		case "plonk-mem":
			err = util.BenchProofMemoryPlonk(b, circ, asg)
		}
		returned = true
	})
	msg := ""
	if err != nil {
		msg = "error: " + err.Error()
	}
	return []string{msg, fmt.Sprint(returned), fmt.Sprint(failed), fmt.Sprint(runs)}, nil
}

// BHist is a sequence of calls that write to one file.
type BHist struct {
	Before string // content of the file; "-" when there is none
	Calls  []BCall
	Where  string `json:",omitempty"` // "" a file, "dir" no such directory, "isdir" a directory, "full" a full device
}

const benchHeader = "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime"

func cells(line string) []string {
	f := strings.Split(line, ",")
	for i := range f {
		f[i] = strings.TrimSpace(f[i])
	}
	return f
}

type benchEnv struct {
	dir  string
	pool *rpc.Pool
	n    atomic.Int64
}

// constraints compiles the circuit as the helpers do.
func constraints(b BCirc, fn string) (int, error) {
	kind := "r1cs"
	if strings.HasPrefix(fn, "plonk") {
		kind = "scs"
	}
	b.Compile = 0
	c, _ := b.pair()
	ccs, err := frontend.Compile(ecc.BN254.ScalarField(), builderOf(kind), c, frontend.WithCompressThreshold(1000))
	if err != nil {
		return 0, err
	}
	return ccs.GetNbConstraints(), nil
}

func (e *benchEnv) check(h BHist) string {
	d := filepath.Join(e.dir, fmt.Sprint(e.n.Add(1)))
	if err := os.Mkdir(d, 0o755); err != nil {
		fw.Fatal("%v", err)
	}
	defer os.RemoveAll(d)
	path := filepath.Join(d, "out.txt")
	old := ""
	switch {
	case h.Where == "dir":
		path = filepath.Join(d, "none", "out.txt")
	case h.Where == "isdir":
		path = d
	case h.Where == "full":
		if err := os.Symlink("/dev/full", path); err != nil {
			fw.Fatal("%v", err)
		}
	case h.Before != "-":
		old = h.Before
		if err := os.WriteFile(path, []byte(old), 0o644); err != nil {
			fw.Fatal("%v", err)
		}
	}
	for k, c := range h.Calls {
		c.Path = path
		b, _ := json.Marshal(c)
		t0 := time.Now()
		r, crash, err := e.pool.Call(rpc.Query{Fn: "bench", Dir: d, Args: []string{string(b)}})
		wall := time.Since(t0).Microseconds()
		if err != nil {
			fw.Fatal("%v", err)
		}
		at := fmt.Sprintf("call %d (%s, %s statement): ", k, c.Fn, c.Circ.Claim)
		if crash != "" {
			return at + crash
		}
		file := strings.HasSuffix(c.Fn, "-file")
		good := c.Circ.Claim == "true" && (!file || h.Where == "")
		ok := r.Res[0] == ""
		if r.Res[1] != "true" {
			return at + "the helper did not return"
		}
		if ok != good {
			return at + "reported " + strconv.Quote(r.Res[0])
		}
		if (r.Res[2] == "true") == good {
			return at + "benchmark marked failed: " + r.Res[2]
		}
		if !file || h.Where != "" {
			continue
		}
		now, err := os.ReadFile(path)
		if err != nil {
			return at + "no result file"
		}
		s := string(now)
		if !strings.HasPrefix(s, old) {
			return at + fmt.Sprintf("earlier content %q became %q", old, s)
		}
		added := s[len(old):]
		if old == "" { // a fresh file gets its header with the first call, successful or not
			l, rest, nl := strings.Cut(added, "\n")
			if !nl && good || added != "" && strings.Join(cells(l), ",") != strings.Join(cells(benchHeader), ",") {
				return at + fmt.Sprintf("the first line is %q", l)
			}
			added = rest
		}
		old = s
		if !good {
			if added != "" {
				return at + fmt.Sprintf("a failed run left %q in the file", added)
			}
			continue
		}
		line, rest, nl := strings.Cut(added, "\n")
		if !nl || rest != "" {
			return at + fmt.Sprintf("one line is expected, added were %q", added)
		}
		f := cells(line)
		if len(f) != 7 {
			return at + fmt.Sprintf("row %q has not seven columns", line)
		}
		var v [7]int64
		for i := range f {
			if v[i], err = strconv.ParseInt(f[i], 10, 64); err != nil {
				return at + fmt.Sprintf("row %q: column %d is no number", line, i)
			}
		}
		n, err := constraints(c.Circ, c.Fn)
		if err != nil {
			fw.Fatal("%v", err)
		}
		if v[0] != c.Res || v[1] != c.Index || v[2] != int64(n) {
			return at + fmt.Sprintf("row %q, but resolution %d, index %d and %d constraints were measured", line, c.Res, c.Index, n)
		}
		sum := int64(0)
		for i, t := range v[3:] {
			if t < 0 {
				return at + fmt.Sprintf("row %q: time %d is negative", line, i)
			}
			sum += t
		}
		if sum > wall+1000 {
			return at + fmt.Sprintf("row %q: the times sum up to more than the %d microseconds of the call", line, wall)
		}
		// pausing takes at least as long as asked for
		if v[3] < int64(c.Circ.Compile)*1000 {
			return at + fmt.Sprintf("row %q: compiling took at least %d ms", line, c.Circ.Compile)
		}
		if v[5] < int64(c.Circ.Solve)*1000 {
			return at + fmt.Sprintf("row %q: proving took at least %d ms", line, c.Circ.Solve)
		}
	}
	return ""
}

func genBCirc(r *fw.R) BCirc {
	b := BCirc{Muls: 1 + r.N(20), X: r.U64(), Claim: "true"}
	if r.P(1, 4) {
		b.Muls = 1 + r.N(300)
	}
	if r.P(1, 3) {
		b.Claim = r.PickS("false", "missing", "missing-public", "uncompilable")
	}
	if r.P(1, 8) {
		p := genProg(r, ref.Fmt{E: 5, M: 2}, 1)
		p.SCS, p.Range = false, uint(r.Range(4, 6))
		b.Prog = &p
		if b.Claim == "false" {
			b.Claim = "true"
		}
	}
	if r.P(1, 3) {
		b.Compile = r.Range(5, 60)
	}
	if r.P(1, 3) {
		b.Solve = r.Range(5, 60)
	}
	return b
}

func genBHist(r *fw.R, i int) BHist {
	h := BHist{Before: "-"}
	switch r.N(5) {
	case 0:
		h.Before = ""
	case 1:
		h.Before = benchHeader + "\n" + fmt.Sprintf("%d, 0, 5, 1, 2, 3, 4\n", r.N(16))
	}
	if r.P(1, 12) {
		h.Where = r.PickS("dir", "isdir", "full")
		h.Before = "-"
	}
	for k := 1 + r.N(4); k > 0; k-- {
		h.Calls = append(h.Calls, BCall{
			Fn:   r.PickS("g16-file", "plonk-file", "g16-file", "plonk-file", "g16-mem", "plonk-mem"),
			Circ: genBCirc(r), Res: int64(r.N(16)), Index: int64(r.N(1000)) - int64(r.N(2)*500)})
	}
	return h
}

func shrinkB(h BHist) []BHist {
	var out []BHist
	for k := range h.Calls {
		if len(h.Calls) > 1 {
			g := h
			g.Calls = append(append([]BCall{}, h.Calls[:k]...), h.Calls[k+1:]...)
			out = append(out, g)
		}
		if c := h.Calls[k]; c.Circ.Muls > 1 && c.Circ.Prog == nil {
			g := h
			g.Calls = append([]BCall{}, h.Calls...)
			g.Calls[k].Circ.Muls /= 2
			out = append(out, g)
		}
	}
	return out
}

func U03(x *fw.Ctx) {
	x.Rule = "histories of one to four calls of the benchmark helpers (Groth16 and PLONK, to a file and in memory) on generated circuits with true, false and incomplete assignments, circuits that do not compile, existing and missing files and unusable paths; compiling and solving pause for a known time; every call is non-trivial; distinct by history"
	x.Assume = []string{"the number of constraints is that of the circuit compiled with the compression threshold of the helpers (1000)", "times are only bounded from below by the pauses and from above by the duration of the call"}
	dir, err := os.MkdirTemp("", "verif-bench-")
	if err != nil {
		fw.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		fw.Fatal("%v", err)
	}
	e := &benchEnv{dir: dir, pool: rpc.NewPool(self, []string{"serve"})}
	defer e.pool.Close()
	fw.Run(x, fw.Stage[BHist]{Name: "calls", N: x.Scale(350, 12000), Gen: genBHist, Check: e.check, Shrink: shrinkB,
		Units: func(h BHist) (us []fw.Unit) {
			b, _ := json.Marshal(h)
			for k, c := range h.Calls {
				us = append(us, fw.Unit{Hash: fw.H(fw.HS(string(b)), uint64(k)), NonTrivial: true, Label: c.Fn + " " + c.Circ.Claim})
			}
			return
		}})
}
