// Package rpc runs functions of the repository in helper processes, one call
// at a time per process, with a working directory of the caller's choice.
package rpc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"sync"

	"github.com/tumberger/zk-Location/util"
)

type File struct {
	P string
	C string
	M uint32
}

type Query struct {
	Fn    string
	Dir   string
	Files []File
	Args  []string
}

type Reply struct {
	Res []string `json:"res"`
	Err string   `json:"err"`
	Bad string   `json:"bad"` // the call could not be made
}

func F(s string) float64 {
	u, _ := strconv.ParseUint(s, 16, 64)
	return math.Float64frombits(u)
}

func H(f float64) string { return strconv.FormatUint(math.Float64bits(f), 16) }

// Handlers are further functions a helper process offers.
var Handlers = map[string]func(args []string) ([]string, error){}

// Serve is the helper process for package util and for running programs.
func Serve() {
	out := json.NewEncoder(os.Stdout)
	os.Stdout = os.Stderr
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	for {
		var q Query
		if dec.Decode(&q) != nil {
			os.Exit(0)
		}
		var r Reply
		for _, f := range q.Files {
			if err := os.WriteFile(f.P, []byte(f.C), os.FileMode(f.M)); err != nil {
				r.Bad = err.Error()
			}
		}
		if q.Dir != "" {
			if err := os.Chdir(q.Dir); err != nil {
				r.Bad = err.Error()
			}
		}
		if r.Bad == "" {
			var err error
			switch q.Fn {
			case "":
			case "ijk":
				n, _ := strconv.Atoi(q.Args[0])
				var i, j, k int
				i, j, k, err = util.ExecuteLatLngToIJK(n, F(q.Args[1]), F(q.Args[2]))
				r.Res = []string{fmt.Sprint(i), fmt.Sprint(j), fmt.Sprint(k)}
			case "run":
				c := exec.Command(q.Args[0], q.Args[1:]...)
				var so, se bytes.Buffer
				c.Stdout, c.Stderr = &so, &se
				err = c.Run()
				r.Res = []string{so.String(), se.String()}
			default:
				if h := Handlers[q.Fn]; h != nil {
					r.Res, err = h(q.Args)
					break
				}
				r.Bad = "no function " + q.Fn
			}
			if err != nil {
				r.Err = err.Error()
			}
		}
		out.Encode(r)
	}
}

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	enc  *json.Encoder
	dec  *json.Decoder
	errs *bytes.Buffer
}

// Pool keeps helper processes of one program.
type Pool struct {
	path string
	args []string
	env  []string
	mu   sync.Mutex
	idle []*proc
	all  []*proc
}

func NewPool(path string, args []string, env ...string) *Pool {
	return &Pool{path: path, args: args, env: env}
}

func (p *Pool) get() (*proc, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.idle); n > 0 {
		x := p.idle[n-1]
		p.idle = p.idle[:n-1]
		return x, nil
	}
	c := exec.Command(p.path, p.args...)
	c.Env = append(os.Environ(), p.env...)
	c.Dir = "/"
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	so, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	x := &proc{cmd: c, in: in, enc: json.NewEncoder(in), dec: json.NewDecoder(bufio.NewReaderSize(so, 1<<20)), errs: new(bytes.Buffer)}
	c.Stderr = &tail{b: x.errs}
	if err := c.Start(); err != nil {
		return nil, err
	}
	p.all = append(p.all, x)
	return x, nil
}

// tail keeps the last few kilobytes written to it.
type tail struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() > 1<<16 {
		t.b.Reset()
	}
	t.b.Write(p)
	return len(p), nil
}

// Call runs one query. crashed is set when the helper died during the call.
func (p *Pool) Call(q Query) (r Reply, crashed string, err error) {
	x, err := p.get()
	if err != nil {
		return r, "", err
	}
	if err = x.enc.Encode(q); err == nil {
		err = x.dec.Decode(&r)
	}
	if err != nil {
		x.in.Close()
		x.cmd.Process.Kill()
		x.cmd.Wait()
		s := x.errs.String()
		if i := bytes.Index([]byte(s), []byte("panic:")); i >= 0 {
			s = s[i:]
		}
		if len(s) > 400 {
			s = s[:400]
		}
		return r, "the call crashed: " + s, nil
	}
	if r.Bad != "" {
		err = fmt.Errorf("helper: %s", r.Bad)
	}
	p.mu.Lock()
	p.idle = append(p.idle, x)
	p.mu.Unlock()
	return r, "", err
}

func (p *Pool) Close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, x := range p.all {
		x.in.Close()
		x.cmd.Process.Kill()
		x.cmd.Wait()
	}
	p.all, p.idle = nil, nil
}
