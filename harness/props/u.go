package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/tumberger/zk-Location/util"
	"github.com/uber/h3-go/v4"

	"verif/harness/fw"
	"verif/harness/ref"
	"verif/harness/rpc"
)

// ---------------------------------------------------------------- U01

// HexText is a text to be parsed as the bits of a float.
type HexText struct {
	Text string
	W    int // 32 or 64
}

// hexMeaning is the definition: the text is a non-empty string of hexadecimal
// digits whose value fits the width.
func hexMeaning(s string, w int) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte("0123456789abcdef", s[i]|0x20)
		if d < 0 || s[i] < '0' || s[i] > '9' && s[i] < 'A' {
			return 0, false
		}
		v.Lsh(v, 4).Add(v, big.NewInt(int64(d)))
	}
	if v.BitLen() > w {
		return 0, false
	}
	return v.Uint64(), true
}

func mixCase(r *fw.R, s string) string {
	b := []byte(s)
	mode := r.N(3)
	for i := range b {
		if mode == 0 && b[i] >= 'a' || mode == 1 && r.Bool() && b[i] >= 'a' {
			b[i] &^= 0x20
		}
	}
	return string(b)
}

func genHexText(r *fw.R, _ int) HexText {
	c := HexText{W: r.Pick(32, 64)}
	f := ref.F32
	if c.W == 64 {
		f = ref.F64
	}
	if r.P(1, 10) && c.W == 32 { // a value of the other width
		f = ref.F64
	}
	s := strconv.FormatUint(anyFloat(r, f), 16)
	if r.Bool() {
		s = fmt.Sprintf("%0*s", c.W/4, s)
	}
	if r.P(1, 6) {
		s = strings.Repeat("0", r.N(30)) + s
	}
	s = mixCase(r, s)
	if r.P(1, 3) { // break it
		switch r.N(8) {
		case 0:
			s = ""
		case 1:
			s = r.PickS("0x", "0X", "+", "-", " ", "#", "\t") + s
		case 2:
			s += r.PickS(" ", "\n", "h", "\x00", "g", ".", "p0", "é")
		case 3:
			i := r.N(len(s) + 1)
			s = s[:i] + r.PickS("_", " ", "g", "G", "@", "`", "/", ":", "\xff", "٣") + s[i:]
		case 4: // one digit too many
			s = string("123456789abcdef"[r.N(15)]) + fmt.Sprintf("%0*s", c.W/4, s)
		case 5:
			s = strconv.FormatUint(r.U64()|1<<(c.W-1), 16) + fmt.Sprintf("%x", r.N(16))
		case 6:
			s = r.PickS("NaN", "inf", "1.5", "1e5", "0", "00", "f", "deadbeef", "0b1", "0o7")
		case 7:
			b := make([]byte, r.N(6))
			for i := range b {
				b[i] = byte(r.N(256))
			}
			s = string(b)
		}
	}
	c.Text = s
	return c
}

func checkHexText(c HexText) string {
	want, ok := hexMeaning(c.Text, c.W)
	var got uint64
	var err error
	if c.W == 64 {
		var f float64
		f, err = util.HexToFloat(c.Text)
		got = math.Float64bits(f)
	} else {
		var f float32
		f, err = util.HexToFloat32(c.Text)
		got = uint64(math.Float32bits(f))
	}
	switch {
	case ok && err != nil:
		return fmt.Sprintf("parsing %q as %d bits: unexpected error %v", c.Text, c.W, err)
	case !ok && err == nil:
		return fmt.Sprintf("parsing %q as %d bits: got %#x, but it is no %d-bit hexadecimal number", c.Text, c.W, got, c.W)
	case ok && got != want:
		return fmt.Sprintf("parsing %q as %d bits: got %#x, want %#x", c.Text, c.W, got, want)
	}
	return ""
}

// BytesCase is a text given to the byte-list conversion.
type BytesCase struct {
	Data  []byte
	Hex   bool
	Upper int
}

func checkBytes(c BytesCase) string {
	s := string(c.Data)
	if c.Hex {
		s = hex.EncodeToString(c.Data)
		switch c.Upper {
		case 1:
			s = strings.ToUpper(s)
		case 2:
			b := []byte(s)
			for i := range b {
				if i%3 == 0 && b[i] >= 'a' {
					b[i] &^= 0x20
				}
			}
			s = string(b)
		}
	}
	got := util.StrToIntSlice(s, c.Hex)
	if len(got) != len(c.Data) {
		return fmt.Sprintf("%q (hex %v): %d numbers for %d bytes", s, c.Hex, len(got), len(c.Data))
	}
	for i := range got {
		if got[i] != int(c.Data[i]) {
			return fmt.Sprintf("%q (hex %v): byte %d is %d, want %d", s, c.Hex, i, got[i], c.Data[i])
		}
	}
	return ""
}

// NumCase is an argument of the numeric conversions.
type NumCase struct {
	Rad fw.Hex
	Int int64
}

var piBig, _ = new(big.Float).SetPrec(300).SetString("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651")

// near reports whether got is within ulps units of the last place of the exact value.
func near(got float64, exact *big.Float, ulps float64) bool {
	w, _ := exact.Float64()
	if math.IsInf(w, 0) || math.IsInf(got, 0) {
		if math.Abs(w) < math.MaxFloat64*(1-1e-15) {
			return false
		}
		return math.Signbit(w) == math.Signbit(got) && (math.IsInf(got, 0) || math.Abs(got) > math.MaxFloat64*(1-1e-15))
	}
	u := math.Nextafter(math.Abs(w), math.Inf(1)) - math.Abs(w)
	if math.IsInf(u, 0) {
		u = math.Abs(w) - math.Nextafter(math.Abs(w), 0)
	}
	d, _ := new(big.Float).SetPrec(300).Sub(exact, new(big.Float).SetFloat64(got)).Float64()
	return math.Abs(d) <= ulps*u
}

func checkNum(c NumCase) string {
	v := math.Float64frombits(uint64(c.Rad))
	got := util.RadiansToDegrees(v)
	switch {
	case math.IsNaN(v):
		if !math.IsNaN(got) {
			return fmt.Sprintf("degrees of NaN: %v", got)
		}
	case math.IsInf(v, 0):
		if got != v {
			return fmt.Sprintf("degrees of %v: %v", v, got)
		}
	case math.Abs(v) > 1e305: // an intermediate product may overflow
		if math.IsNaN(got) || math.Signbit(got) != math.Signbit(v) || math.Abs(got) < math.Abs(v) {
			return fmt.Sprintf("degrees of %v: %v", v, got)
		}
	default:
		w := new(big.Float).SetPrec(300).SetFloat64(v)
		w.Mul(w, big.NewFloat(180)).Quo(w, piBig)
		if !near(got, w, 3) {
			return fmt.Sprintf("degrees of %v (%#x): got %v, want %v", v, uint64(c.Rad), got, w.Text('g', 20))
		}
	}
	q := new(big.Float).SetPrec(300).SetInt64(c.Int)
	q.Quo(q, big.NewFloat(1e9))
	if g := util.ScaledIntToFloat64(int(c.Int)); !near(g, q, 2) {
		return fmt.Sprintf("fixed-point %d: got %v, want %v", c.Int, g, q.Text('g', 20))
	}
	return ""
}

// IJCase is a location and an origin cell near it.
type IJCase struct {
	Lat, Lng float64
	DLat     float64
	DLng     float64
	Res      int
}

func genIJ(r *fw.R, _ int) IJCase {
	c := IJCase{Res: r.N(16)}
	c.Lat = math.Asin(2*r.Float64()-1) * 180 / math.Pi
	c.Lng = 360*r.Float64() - 180
	if r.P(1, 8) {
		c.Lng = float64(r.Pick(-180, 180)) + (r.Float64()-0.5)*0.01
	}
	if r.P(1, 8) {
		c.Lat = float64(r.Pick(-90, 90)) * (1 - r.Float64()*1e-3)
	}
	// a few cells away
	step := 20 * math.Pow(7, -float64(c.Res)/2) * float64(r.N(6))
	a := 2 * math.Pi * r.Float64()
	c.DLat, c.DLng = step*math.Sin(a), step*math.Cos(a)
	return c
}

func checkIJ(c IJCase) string {
	origin := h3.LatLngToCell(h3.NewLatLng(c.Lat, c.Lng), c.Res)
	la, ln := c.Lat+c.DLat, c.Lng+c.DLng
	if la > 90 || la < -90 {
		la = c.Lat
	}
	i, j := util.LatLngToIJ(la, ln, c.Res, origin)
	cell := h3.LatLngToCell(h3.LatLng{Lat: la, Lng: ln}, c.Res)
	want := h3.CellToLocalIJ(origin, cell)
	if i != want.I || j != want.J {
		return fmt.Sprintf("local coordinates of (%v, %v) at resolution %d from %v: got (%d, %d), H3 says (%d, %d)", la, ln, c.Res, origin, i, j, want.I, want.J)
	}
	return ""
}

func U01(x *fw.Ctx) {
	x.Rule = "texts, byte strings, numbers and locations drawn by generators biased to boundaries and to malformed input (one third of the hexadecimal texts are broken on purpose); every case reaches a definite expectation; distinct by content"
	x.Assume = []string{"trusts Go's math/big and the H3 library for local grid coordinates"}
	fw.Run(x, fw.Stage[HexText]{Name: "hex-to-float", N: x.Scale(400000, 20000000), Gen: genHexText, Check: checkHexText,
		Units: func(c HexText) []fw.Unit {
			_, ok := hexMeaning(c.Text, c.W)
			return []fw.Unit{{Hash: fw.H(fw.HS(c.Text), uint64(c.W)), NonTrivial: true, Label: fmt.Sprintf("%d-bit well-formed=%v", c.W, ok)}}
		},
		Shrink: func(c HexText) (out []HexText) {
			for i := range c.Text {
				out = append(out, HexText{c.Text[:i] + c.Text[i+1:], c.W})
				if c.Text[i] != '0' {
					out = append(out, HexText{c.Text[:i] + "0" + c.Text[i+1:], c.W})
				}
			}
			return
		}})
	fw.Run(x, fw.Stage[BytesCase]{Name: "text-to-bytes", N: x.Scale(100000, 4000000), Gen: func(r *fw.R, i int) BytesCase {
		n := r.Pick(0, 1, 2, 3, 8, 31, 32, 33, 100)
		if r.P(1, 50) {
			n = 300 + r.N(5000)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return BytesCase{b, r.Bool(), r.N(3)}
	}, Check: checkBytes,
		Units: func(c BytesCase) []fw.Unit {
			return []fw.Unit{{Hash: fw.H(fw.HS(string(c.Data)), uint64(c.Upper)), NonTrivial: len(c.Data) > 0, Label: fmt.Sprintf("hex=%v", c.Hex)}}
		},
		Shrink: func(c BytesCase) (out []BytesCase) {
			for i := range c.Data {
				out = append(out, BytesCase{append(bytes.Clone(c.Data[:i]), c.Data[i+1:]...), c.Hex, c.Upper})
			}
			return
		}})
	fw.Run(x, fw.Stage[NumCase]{Name: "numbers", N: x.Scale(200000, 6000000), Gen: func(r *fw.R, i int) NumCase {
		c := NumCase{Rad: fw.Hex(anyFloat(r, ref.F64)), Int: int64(r.U64()) >> r.N(64)}
		if r.Bool() {
			c.Rad = fw.Hex(math.Float64bits((r.Float64()*2 - 1) * 7))
		}
		if r.P(1, 4) {
			c.Int = int64(r.N(2000000001) - 1000000000)
		}
		if r.P(1, 6) {
			c.Int = int64(math.Exp2(float64(r.N(63)))) + int64(r.N(5)-2)
		}
		return c
	}, Check: checkNum,
		Shrink: func(c NumCase) (out []NumCase) {
			for s := 1; s < 64; s *= 2 {
				out = append(out, NumCase{c.Rad, c.Int >> s}, NumCase{c.Rad &^ (1<<s - 1), c.Int})
			}
			return
		},
		Units: func(c NumCase) []fw.Unit {
			return []fw.Unit{{Hash: fw.H(uint64(c.Rad), uint64(c.Int)), NonTrivial: true}}
		}})
	fw.Run(x, fw.Stage[IJCase]{Name: "local-ij", N: x.Scale(60000, 2000000), Gen: genIJ, Check: checkIJ,
		Units: func(c IJCase) []fw.Unit {
			return []fw.Unit{{Hash: fw.H(math.Float64bits(c.Lat), math.Float64bits(c.DLng), uint64(c.Res)), NonTrivial: c.DLat != 0, Label: fmt.Sprintf("res%d", c.Res)}}
		}})
}

// ---------------------------------------------------------------- U02

// ExtCase is one call of an external grid program.
type ExtCase struct {
	Fn     string   // util.ijk, ijk, cell, centre, boundary
	Res    int      `json:",omitempty"`
	Lat    fw.Hex   `json:",omitempty"`
	Lng    fw.Hex   `json:",omitempty"`
	Index  string   `json:",omitempty"`
	Values []string // what the program states, in order
	Out    string   // what it prints
	Err    string   `json:",omitempty"`
	Fault  string   `json:",omitempty"` // how it fails: exit, signal, missing, noexec, garbled
}

var extProg = map[string]string{"util.ijk": "latLngToCell", "ijk": "latLngToCell", "cell": "latLngToCell", "centre": "cellToLatLng", "boundary": "cellToBoundary"}

func decimal(r *fw.R, lim float64) string {
	v := (2*r.Float64() - 1) * lim
	switch r.N(6) {
	case 0:
		v = math.Trunc(v)
	case 1:
		v *= math.Pow(10, -float64(r.N(12)))
	case 2:
		v = math.Copysign(lim, v)
	}
	return strconv.FormatFloat(v, 'f', r.Pick(1, 6, 9, 10, 10, 10, 12, 15), 64)
}

func genExt(r *fw.R, _ int) ExtCase {
	c := ExtCase{Fn: r.PickS("util.ijk", "ijk", "cell", "centre", "boundary", "boundary")}
	c.Res = r.N(16)
	if r.P(1, 20) {
		c.Res = r.Pick(-1, 16, 99, 12345)
	}
	ang := func(lim float64) fw.Hex {
		v := (2*r.Float64() - 1) * lim
		switch r.N(8) {
		case 0:
			v *= math.Pow(10, -float64(r.N(18)))
		case 1:
			v = math.Copysign(lim, v)
		case 2:
			v = 0
		case 3:
			v = float64(float32(v))
		}
		return fw.Hex(math.Float64bits(v))
	}
	c.Lat, c.Lng = ang(90), ang(180)
	idx := fmt.Sprintf("8%x%s", r.N(16), strconv.FormatUint(r.U64()|1<<60, 16)[:13])
	if r.P(1, 6) {
		idx = mixCase(r, idx)
	}
	if c.Fn == "centre" || c.Fn == "boundary" {
		c.Index = idx
		c.Res, c.Lat, c.Lng = 0, 0, 0
	}
	pre, post := "", ""
	switch c.Fn {
	case "util.ijk", "ijk":
		for i := 0; i < 3; i++ {
			c.Values = append(c.Values, strconv.FormatUint(r.U64()>>uint(r.Range(1, 63)), 10))
		}
		if r.P(1, 4) {
			c.Values[r.N(3)] = r.PickS("0", "9223372036854775807", "2147483648", "4294967296", "10", "007")
		}
		c.Out = fmt.Sprintf("I: %s, J: %s, K: %s", c.Values[0], c.Values[1], c.Values[2])
		pre = r.PickS("", "", "face 3\n", "--- "+idx+"\n", "Coordinates:\n  ")
		post = r.PickS("", "\n", "\n--- "+idx+"\n", "\nface: 12\n")
	case "cell":
		c.Values = []string{idx}
		c.Out = "--- " + idx
		pre = r.PickS("", "I: 1, J: 2, K: 3\n", "face 7\n", "index\n")
		post = r.PickS("", "\n", "\n\n", " \nI: 4, J: 0, K: 1\n", " ---\n")
	case "centre":
		c.Values = []string{decimal(r, 90), decimal(r, 180)}
		c.Out = c.Values[0] + r.PickS(" ", "  ", "\t", "\n") + c.Values[1]
		pre, post = r.PickS("", "", " "), r.PickS("", "\n")
	case "boundary":
		n := r.Range(5, 10)
		if r.P(1, 10) {
			n = r.Pick(1, 2, 3)
		}
		sep, ind := r.PickS(" ", " ", "  ", "\t"), r.PickS("   ", "", " ")
		eol := r.PickS("\n", "\n", "\n", " \n")
		// one sign quadrant, as most cells have, or all mixed
		sa, sb := r.N(3), r.N(3)
		sign := func(s string, m int) string {
			if m == 0 {
				return strings.TrimPrefix(s, "-")
			} else if m == 1 && s[0] != '-' {
				return "-" + s
			}
			return s
		}
		var sb2 strings.Builder
		for i := 0; i < n; i++ {
			a, b := sign(decimal(r, 90), sa), sign(decimal(r, 180), sb)
			c.Values = append(c.Values, a, b)
			sb2.WriteString(ind + a + sep + b + eol)
		}
		c.Out = sb2.String()
		pre, post = r.PickS("", "{\n", "POLYGON\n"), r.PickS("", "}\n", "\n")
	}
	c.Out = pre + c.Out + post
	if r.P(1, 10) && c.Fn != "centre" && c.Fn != "boundary" {
		if !strings.HasSuffix(c.Out, "\n") {
			c.Out += "\n"
		}
		c.Err = r.PickS("warning: cell is near a pentagon\n", "note\n")
	}
	if r.P(1, 4) {
		c.Fault = r.PickS("exit", "exit", "signal", "missing", "noexec", "garbled", "garbled", "garbled")
	}
	if c.Fault == "garbled" {
		switch c.Fn {
		case "util.ijk", "ijk":
			big := "9223372036854775808"
			if r.Bool() {
				big = strconv.FormatUint(r.U64()|1<<63, 10) + strconv.Itoa(r.N(1000))
			}
			v := append([]string{}, c.Values...)
			k := r.N(3)
			switch r.N(5) {
			case 0:
				c.Out = ""
			case 1:
				v[k] = big
				c.Out = fmt.Sprintf("I: %s, J: %s, K: %s\n", v[0], v[1], v[2])
			case 2:
				v[k] = r.PickS("x", "-", "", "nan", "?")
				c.Out = fmt.Sprintf("I: %s, J: %s, K: %s\n", v[0], v[1], v[2])
			case 3:
				c.Out = fmt.Sprintf("I: %s, J: %s", v[0], v[1])
			case 4:
				c.Out = r.PickS("error: invalid coordinates\n", "usage: latLngToCell --resolution N\n", "\n", "I J K\n")
			}
		case "cell":
			c.Out = r.PickS("", "\n", "---", "---\n", "--\n", "no such cell\n", "- - - 8a\n", "--- \n")
		case "centre":
			c.Out = r.PickS("", "\n", c.Values[0], c.Values[0]+"\n", "lat "+c.Values[1], c.Values[0]+" lng", "error invalid index", "1.2.3 4.5", "12,5 8,25")
		case "boundary":
			c.Out = r.PickS("", "\n", "{\n}\n", "error: invalid index\n", "{\n   "+c.Values[0]+"\n", "{ , }")
		}
		c.Values = nil
	}
	return c
}

var extSeq atomic.Int64

type extEnv struct {
	scratch    string
	util, prox *rpc.Pool
	level      string
}

func newExtEnv(x *fw.Ctx) *extEnv {
	d, err := os.MkdirTemp("", "verif-ext-")
	if err != nil {
		fw.Fatal("%v", err)
	}
	b := filepath.Join(x.Root, ".build")
	e := &extEnv{scratch: d, util: rpc.NewPool(filepath.Join(b, "pbt"), []string{"serve"}, "VERIF_RPC=1")}
	l, _ := os.ReadFile(filepath.Join(b, "prox.level"))
	e.level = strings.TrimSpace(string(l))
	e.prox = rpc.NewPool(filepath.Join(b, "prox"), nil, "VERIF_RPC=1")
	if e.level == "" || e.level == "none" {
		x.Extra("proximity_functions", "not reachable: the functions of package proximity have changed; only the program as a whole is checked")
	}
	return e
}

func (e *extEnv) has(part string) bool { return e.level == "full" || e.level == part }

func (e *extEnv) close() {
	e.util.Close()
	e.prox.Close()
	if strings.Contains(e.scratch, "/verif-ext-") {
		os.RemoveAll(e.scratch)
	}
}

func shQuote(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

// fakeProgram is a shell script that records its arguments and prints out.
func fakeProgram(out, errs, fault string, code int) string {
	s := "#!/bin/sh\nfor a in \"$@\"; do printf '%s\\n' \"$a\"; done >\"$0.args\"\n"
	s += "printf '%s' " + shQuote(out) + "\n"
	if errs != "" {
		s += "printf '%s' " + shQuote(errs) + " >&2\n"
	}
	if fault == "signal" {
		s += "kill -9 $$\n"
	}
	return s + "exit " + strconv.Itoa(code) + "\n"
}

// caseDir makes the directories the programs are looked up in.
func (e *extEnv) caseDir() (root, work, bin string) {
	root = filepath.Join(e.scratch, strconv.FormatInt(extSeq.Add(1), 10))
	work, bin = filepath.Join(root, "work"), filepath.Join(root, "h3-master/build/bin")
	if err := os.MkdirAll(work, 0o755); err != nil {
		fw.Fatal("%v", err)
	}
	if err := os.MkdirAll(bin, 0o755); err != nil {
		fw.Fatal("%v", err)
	}
	return
}

// checkArgs compares the arguments a program received with the intended ones.
func checkArgs(path string, want map[string]any) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "the external program was not called"
	}
	a := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	got := map[string]string{}
	for i := 0; i+1 < len(a); i += 2 {
		got[a[i]] = a[i+1]
	}
	if len(a) != 2*len(want) || len(got) != len(want) {
		return fmt.Sprintf("the external program received the arguments %q", a)
	}
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("the external program did not receive %s: %q", k, a)
		}
		switch w := w.(type) {
		case string:
			if g != w {
				return fmt.Sprintf("the external program received %s %q instead of %q", k, g, w)
			}
		case float64:
			f, _, err := big.ParseFloat(g, 10, 400, big.ToNearestEven)
			if err != nil {
				return fmt.Sprintf("the external program received %s %q", k, g)
			}
			d, _ := f.Sub(f, big.NewFloat(w)).Float64()
			if math.Abs(d) > 5.01e-31 {
				return fmt.Sprintf("the external program received %s %s instead of %v: off by %g", k, g, w, d)
			}
		}
	}
	return ""
}

func (e *extEnv) check(c ExtCase) string {
	root, work, bin := e.caseDir()
	defer os.RemoveAll(root)
	prog := filepath.Join(bin, extProg[c.Fn])
	code := 0
	if c.Fault == "exit" {
		code = 1 + len(c.Out)%3
	}
	mode := uint32(0o755)
	if c.Fault == "noexec" {
		mode = 0o644
	}
	q := rpc.Query{Dir: work, Fn: strings.TrimPrefix(c.Fn, "util.")}
	if c.Fault != "missing" {
		q.Files = []rpc.File{{P: prog, C: fakeProgram(c.Out, c.Err, c.Fault, code), M: mode}}
	}
	want := map[string]any{}
	switch c.Fn {
	case "centre", "boundary":
		q.Args = []string{c.Index}
		want["--index"] = c.Index
	default:
		la, ln := math.Float64frombits(uint64(c.Lat)), math.Float64frombits(uint64(c.Lng))
		q.Args = []string{strconv.Itoa(c.Res), rpc.H(la), rpc.H(ln)}
		want["--resolution"], want["--latitude"], want["--longitude"] = strconv.Itoa(c.Res), la, ln
	}
	p := e.prox
	if c.Fn == "util.ijk" {
		p = e.util
	}
	r, crash, err := p.Call(q)
	if err != nil {
		fw.Fatal("%v", err)
	}
	desc := fmt.Sprintf("%s with a program printing %q", c.Fn, clipS(c.Out, 200))
	if crash != "" {
		return desc + ": " + crash
	}
	if c.Fault != "" {
		if r.Err == "" {
			return fmt.Sprintf("%s (fault %s): no error, returned %v", desc, c.Fault, r.Res)
		}
		return ""
	}
	if r.Err != "" {
		return fmt.Sprintf("%s: error %s", desc, r.Err)
	}
	if why := checkArgs(prog+".args", want); why != "" {
		return desc + ": " + why
	}
	if len(r.Res) != len(c.Values) {
		return fmt.Sprintf("%s: read %d numbers instead of %d: %s", desc, len(r.Res), len(c.Values), showRes(c.Fn, r.Res))
	}
	for i, v := range c.Values {
		switch c.Fn {
		case "util.ijk", "ijk":
			n, _ := new(big.Int).SetString(v, 10)
			if r.Res[i] != n.String() {
				return fmt.Sprintf("%s: read %v", desc, r.Res)
			}
		case "cell":
			if r.Res[i] != v {
				return fmt.Sprintf("%s: read %q", desc, r.Res[i])
			}
		default:
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				fw.Fatal("%v", err)
			}
			if rpc.F(r.Res[i]) != f {
				return fmt.Sprintf("%s: number %d is read as %v instead of %v", desc, i, rpc.F(r.Res[i]), f)
			}
		}
	}
	return ""
}

func showRes(fn string, res []string) string {
	if fn != "centre" && fn != "boundary" {
		return fmt.Sprint(res)
	}
	var out []float64
	for _, s := range res {
		out = append(out, rpc.F(s))
	}
	return fmt.Sprint(out)
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func shrinkExt(c ExtCase) (out []ExtCase) {
	if c.Err != "" {
		d := c
		d.Err = ""
		out = append(out, d)
	}
	lines := strings.SplitAfter(c.Out, "\n")
	if c.Fault == "" && c.Fn == "boundary" {
		// drop one point
		for i, l := range lines {
			f := strings.Fields(l)
			if len(f) != 2 || len(c.Values) <= 2 {
				continue
			}
			for k := 0; k+1 < len(c.Values); k += 2 {
				if c.Values[k] == f[0] && c.Values[k+1] == f[1] {
					d := c
					d.Values = append(append([]string{}, c.Values[:k]...), c.Values[k+2:]...)
					d.Out = strings.Join(append(append([]string{}, lines[:i]...), lines[i+1:]...), "")
					out = append(out, d)
					break
				}
			}
		}
	}
	return
}

func U02(x *fw.Ctx) {
	x.Rule = "calls of the functions that run an external grid program, with a generated program in a scratch directory that prints generated output (coordinates of any sign and size, with and without surrounding text), fails (exit status, signal, missing, not executable) or prints something unusable; a case is non-trivial when the program states at least one value or fails; distinct by content"
	x.Assume = []string{"the external programs are replaced by generated shell scripts; the output formats are those the code documents by its patterns and those of the H3 command-line tools",
		"arguments count as passed on unaltered when they are given with at least thirty decimals"}
	e := newExtEnv(x)
	defer e.close()
	gen := func(r *fw.R, i int) ExtCase {
		for {
			c := genExt(r, i)
			if c.Fn == "util.ijk" || e.has("exec") {
				return c
			}
		}
	}
	fw.Run(x, fw.Stage[ExtCase]{Name: "programs", N: x.Scale(12000, 300000), Gen: gen, Check: e.check, Shrink: shrinkExt,
		Units: func(c ExtCase) []fw.Unit {
			f := c.Fault
			if f == "" {
				f = "well-formed"
			}
			return []fw.Unit{{Hash: fw.H(fw.HS(c.Fn+c.Out+c.Fault), uint64(c.Lat), uint64(c.Lng)), NonTrivial: true, Label: c.Fn + " " + f}}
		}})
}
