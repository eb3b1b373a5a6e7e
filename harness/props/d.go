package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"

	"verif/harness/fw"
	"verif/harness/locshim"
	"verif/harness/ref"
)

// ---- C04

// Side is one circuit of a service and the statements made about it.
type Side struct {
	Prog   Prog       `json:"prog"`
	Kind   string     `json:"kind"`
	Curve  string     `json:"curve"`
	In     [][]fw.Hex `json:"in"` // inputs of each statement
	Claims [][]fw.Hex `json:"claims"`
}

// ConcCase is a set of circuits compiled and solved at the same time.
type ConcCase struct {
	Sides []Side  `json:"sides"`
	Procs int     `json:"procs"`
	First bool    `json:"first,omitempty"` // at once first, in a process that has done nothing yet
	Times int     `json:"times"`           // how often each circuit is compiled and solved
	Loc   []KCase `json:"loc,omitempty"`   // location circuits beside them
}

func (s Side) truth(k int) bool {
	p := s.Prog
	p.In = s.In[k]
	return CCase{Prog: p, Claim: s.Claims[k]}.accepted()
}

func (s Side) compile() (ccs constraint.ConstraintSystem, h string, err error) {
	ccs, err = compileProg(&s.Prog, len(s.Claims[0]), curveOf(s.Curve).ScalarField(), s.Kind)
	if err == nil {
		h, err = csHash(ccs)
	}
	return
}

func (s Side) solve(ccs constraint.ConstraintSystem, k int) string {
	err := solved(ccs, progAssign(&s.Prog, s.In[k], s.Claims[k]), curveOf(s.Curve).ScalarField())
	if want := s.truth(k); (err == nil) != want {
		return fmt.Sprintf("statement %d: accepted=%v, want %v (%v)", k, err == nil, want, err)
	}
	return ""
}

// runConc runs every circuit alone and all of them at once, in the order the case says.
func runConc(c ConcCase) string {
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	n := len(c.Sides)
	var mu sync.Mutex
	why := ""
	fail := func(s string) {
		mu.Lock()
		if why == "" && s != "" {
			why = s
		}
		mu.Unlock()
	}
	shared := make([]constraint.ConstraintSystem, n)
	lonely := make([]string, n)
	among := make([][]string, n)
	alone := func() {
		for i, s := range c.Sides {
			ccs, h, err := s.compile()
			if err != nil {
				fail(fmt.Sprintf("circuit %d alone: does not compile: %v", i, err))
				return
			}
			shared[i], lonely[i] = ccs, h
			for k := range s.In {
				if w := s.solve(ccs, k); w != "" {
					fail(fmt.Sprintf("circuit %d alone: %s", i, w))
				}
			}
		}
	}
	together := func() {
		start := make(chan struct{})
		var wg sync.WaitGroup
		work := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		for i, s := range c.Sides {
			for t := 0; t < c.Times; t++ {
				work(func() {
					own, h, err := s.compile()
					if err != nil {
						fail(fmt.Sprintf("circuit %d among others: does not compile: %v", i, err))
						return
					}
					mu.Lock()
					among[i] = append(among[i], h)
					mu.Unlock()
					k := t % len(s.In)
					if w := s.solve(own, k); w != "" {
						fail(fmt.Sprintf("circuit %d compiled among others: %s", i, w))
					}
					if !c.First {
						return
					}
					var inner sync.WaitGroup
					for k := range s.In { // provers share the compiled circuit
						inner.Add(1)
						go func() {
							defer inner.Done()
							if w := s.solve(own, k); w != "" {
								fail(fmt.Sprintf("circuit %d compiled among others, shared by provers: %s", i, w))
							}
						}()
					}
					inner.Wait()
				})
			}
			if c.First {
				continue
			}
			for k := range s.In { // provers share the compiled circuit
				for t := 0; t < c.Times; t++ {
					work(func() {
						if w := s.solve(shared[i], k); w != "" {
							fail(fmt.Sprintf("circuit %d shared by provers: %s", i, w))
						}
					})
				}
			}
		}
		for _, l := range c.Loc {
			work(func() {
				if w := checkCompiled(l); w != "" {
					fail("location circuit: " + w)
				}
			})
		}
		close(start)
		wg.Wait()
	}
	if c.First {
		together()
		if why == "" {
			alone()
		}
	} else {
		alone()
		if why == "" {
			together()
		}
	}
	for i := range among {
		for _, h := range among[i] {
			if why == "" && h != lonely[i] {
				fail(fmt.Sprintf("circuit %d among others: compiles to %s, alone to %s", i, h, lonely[i]))
			}
		}
	}
	return why
}

// serveLines answers every line of the standard input with a line.
func serveLines[Q, A any](f func(Q) A) {
	r := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		b, err := r.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var q Q
		if err := json.Unmarshal(b, &q); err != nil {
			fw.Fatal("%v", err)
		}
		out, _ := json.Marshal(f(q))
		fmt.Printf("%s\n", out)
	}
}

// ConcChild is the entry point of the other process of C04.
func ConcChild() { serveLines(runConc) }

// child is another process of this program that answers lines with lines.
type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

// children keeps idle processes of one kind.
type children struct {
	arg  string
	exe  func() string
	pool chan *child
}

var concChildren = &children{"conc-child", concExe, make(chan *child, 16)}

func selfExe() string {
	exe, err := os.Executable()
	if err != nil {
		fw.Fatal("%v", err)
	}
	return exe
}

func concExe() string {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if p := filepath.Join(root, ".build", "pbt-race"); fileExists(p) {
		return p
	}
	return selfExe()
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

func (cs *children) start() *child {
	c := &child{cmd: exec.Command(cs.exe(), cs.arg)}
	c.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	c.cmd.Stderr = &c.err
	var err error
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		fw.Fatal("%v", err)
	}
	o, err := c.cmd.StdoutPipe()
	if err != nil {
		fw.Fatal("%v", err)
	}
	c.out = bufio.NewReaderSize(o, 1<<20)
	if err := c.cmd.Start(); err != nil {
		fw.Fatal("%v", err)
	}
	return c
}

// ask sends a question to an idle or (always if fresh) new process. It reports
// why there is no answer.
func (cs *children) ask(question, answer any, fresh bool) string {
	var ch *child
	select {
	case ch = <-cs.pool:
		if fresh {
			ch.in.Close()
			ch.cmd.Wait()
			ch = cs.start()
		}
	default:
		ch = cs.start()
	}
	b, _ := json.Marshal(question)
	if _, err := ch.in.Write(append(b, '\n')); err == nil {
		type reply struct {
			b   []byte
			err error
		}
		got := make(chan reply, 1)
		go func() {
			l, err := ch.out.ReadBytes('\n')
			got <- reply{l, err}
		}()
		select {
		case a := <-got:
			if a.err == nil {
				if err := json.Unmarshal(a.b, answer); err != nil {
					fw.Fatal("child: %q", a.b)
				}
				select {
				case cs.pool <- ch:
				default:
					ch.in.Close()
					ch.cmd.Wait()
				}
				return ""
			}
		case <-time.After(4 * time.Minute):
			ch.cmd.Process.Kill()
			ch.cmd.Wait()
			return "no answer within four minutes"
		}
	}
	ch.in.Close()
	err := ch.cmd.Wait()
	return fmt.Sprintf("the process ended (%v): %s", err, concReport(ch.err.String()))
}

func checkConc(c ConcCase) (why string) {
	if bad := concChildren.ask(c, &why, c.First); bad != "" {
		return bad
	}
	return why
}

// concReport keeps what a crash or race report says first.
func concReport(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "====") {
			out = append(out, l)
		}
		if len(out) == 14 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func genConc(r *fw.R, i int) ConcCase {
	c := ConcCase{Procs: r.Pick(0, 2, 4, 8), Times: r.Range(1, 3), First: r.P(1, 2)}
	cv := ecc.BN254
	if r.P(1, 3) {
		cv = curves[r.N(len(curves))]
	}
	mixed := r.P(1, 2)
	for n := r.Range(1, 4); n > 0; n-- {
		if mixed && r.P(1, 2) {
			cv = curves[r.N(len(curves))]
		}
		f := []ref.Fmt{ref.F32, ref.F32, ref.F64, E5M2, otherFormat(r)}[r.N(5)]
		s := genSide(r, f, 5, 3)
		s.Curve = cv.String()
		c.Sides = append(c.Sides, s)
	}
	return c
}

func shrinkConc(c ConcCase) []ConcCase {
	var out []ConcCase
	for i := range c.Sides {
		if len(c.Sides) > 1 {
			d := c
			d.Sides = append(append([]Side{}, c.Sides[:i]...), c.Sides[i+1:]...)
			out = append(out, d)
		}
	}
	if len(c.Loc) > 0 {
		d := c
		d.Loc = c.Loc[1:]
		out = append(out, d)
	}
	for i, s := range c.Sides {
		if len(s.In) > 1 {
			d := c
			d.Sides = append([]Side{}, c.Sides...)
			d.Sides[i].In, d.Sides[i].Claims = s.In[:1], s.Claims[:1]
			out = append(out, d)
		}
	}
	return out
}

func unitsConc(c ConcCase) []fw.Unit {
	var us []fw.Unit
	b, _ := json.Marshal(c)
	for i, s := range c.Sides {
		for k := range s.In {
			acc := "reject"
			if s.truth(k) {
				acc = "accept"
			}
			if len(c.Loc) > 0 {
				acc += " with locations"
			}
			us = append(us, fw.Unit{Hash: fw.H(fw.HS(string(b)), uint64(i), uint64(k)), NonTrivial: len(c.Sides)*c.Times*len(s.In) > 1, Label: fmt.Sprintf("%d circuits %s", len(c.Sides), acc)})
		}
	}
	return us
}

func C04(x *fw.Ctx) {
	std(x, "one to four random circuits (formats, table widths, both system kinds, seven curves) with up to three true or false statements each: every one compiled and solved alone, and all of them compiled, and solved by provers sharing the compiled circuit, at the same time on 2 to 8 processors in a process that detects data races (in half of the cases a new process, which does it all at once first); systems and verdicts must be those of the lonely run; one evaluation is one statement; non-trivial: something else runs beside it; distinct by case and statement")
	check := checkConc
	if x.Replaying() { // whether schedules collide is a matter of chance
		check = func(c ConcCase) (why string) {
			for k := 0; k < 20 && why == ""; k++ {
				why = checkConc(c)
			}
			return
		}
	}
	x.Extra("race_detector", strings.HasSuffix(concExe(), "-race"))
	fw.Run(x, fw.Stage[ConcCase]{Name: "service", N: x.Scale(400, 6000), Gen: genConc, Check: check, Shrink: shrinkConc, Units: unitsConc})
	if locshim.Of(false).Circuit == nil || locshim.Of(true).Circuit == nil {
		return
	}
	fw.Run(x, fw.Stage[ConcCase]{Name: "locations", N: x.Scale(4, 200), Gen: func(r *fw.R, i int) ConcCase {
		c := genConc(r, i)
		for k := 0; k < 3; k++ {
			l := genCompiled((i+k)%2 == 1, 1, false)(r, r.N(2))
			l.Curve = "bn254"
			c.Loc = append(c.Loc, l)
		}
		return c
	}, Check: check, Shrink: shrinkConc, Units: unitsConc, Serial: true})
}
