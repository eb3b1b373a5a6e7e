// Package eng evaluates gnark circuits directly on field elements, without
// compiling them. It implements the front-end API that circuit code sees and
// gives every operation the meaning its constraints have in the compiled
// system: booleans are asserted unless they were marked, gates on marked values
// are evaluated by their polynomial, and every assertion that does not hold
// makes the run "rejected". The advice (hint outputs) can be replaced by a
// strategy, which is how a dishonest prover is simulated: everything computed
// after a replaced advice value sees the replaced value, exactly as in a real
// witness.
package eng

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
)

// W is a wire: a value of the scalar field, possibly known to be boolean.
type W struct {
	V     fr.Element
	Bool  bool // marked or asserted boolean
	Const bool
}

// Reject is panicked with when an assertion of the circuit does not hold.
type Reject struct{ Why string }

// HintCall describes one advice request.
type HintCall struct {
	Index  int // position in the run
	Name   string
	In     []*big.Int
	Out    []*big.Int // honest outputs; a strategy may overwrite them
	Failed bool       // the honest hint returned an error
}

// Strategy may change call.Out.
type Strategy func(call *HintCall)

// Engine implements frontend.API and frontend.Compiler.
type Engine struct {
	compilerStub
	deferred   []func(frontend.API) error
	kv         map[any]any
	strategy   Strategy
	type_      frontendtype.Type
	slab       []W
	nHints     int
	nameCache  map[uintptr]string
	inDeferred bool
	free       []*W
	// Calls records hint calls when Record is set.
	Record bool
	Calls  []HintCall
	// Field is the scalar field modulus.
	mod *big.Int
}

var modulus = ecc.BN254.ScalarField()
var half = new(big.Int).Rsh(modulus, 1)

// Modulus of the scalar field.
func Modulus() *big.Int { return new(big.Int).Set(modulus) }

// Option configures an engine.
type Option func(*Engine)

func WithStrategy(s Strategy) Option { return func(e *Engine) { e.strategy = s } }
func WithRecord() Option             { return func(e *Engine) { e.Record = true } }
func WithSCS() Option                { return func(e *Engine) { e.type_ = frontendtype.SCS } }

func New(opts ...Option) *Engine {
	e := &Engine{kv: map[any]any{}, type_: frontendtype.R1CS, nameCache: map[uintptr]string{}, mod: modulus}
	for _, o := range opts {
		o(e)
	}
	return e
}

func reject(format string, a ...any) {
	panic(Reject{fmt.Sprintf(format, a...)})
}

func (e *Engine) alloc() *W {
	if len(e.slab) == 0 {
		e.slab = make([]W, 256)
	}
	w := &e.slab[0]
	e.slab = e.slab[1:]
	return w
}

// In allocates a witness value.
func (e *Engine) In(v any) *W {
	w := e.alloc()
	w.V = elem(v)
	return w
}

func elem(v any) fr.Element {
	var r fr.Element
	switch x := v.(type) {
	case *W:
		return x.V
	case fr.Element:
		return x
	case *fr.Element:
		return *x
	case int:
		r.SetInt64(int64(x))
	case int64:
		r.SetInt64(x)
	case uint64:
		r.SetUint64(x)
	case uint:
		r.SetUint64(uint64(x))
	case *big.Int:
		setBig(&r, x)
	case big.Int:
		setBig(&r, &x)
	case bool:
		if x {
			r.SetOne()
		}
	case nil:
		panic("nil variable")
	default:
		if _, err := r.SetInterface(v); err != nil {
			panic(err)
		}
	}
	return r
}

func setBig(r *fr.Element, x *big.Int) {
	if x.IsUint64() {
		r.SetUint64(x.Uint64())
		return
	}
	if x.IsInt64() {
		r.SetInt64(x.Int64())
		return
	}
	r.SetBigInt(x)
}

func isConst(v any) bool {
	if w, ok := v.(*W); ok {
		return w.Const
	}
	return true
}

func (e *Engine) res(v *fr.Element, c bool) *W {
	w := e.alloc()
	w.V = *v
	w.Const = c
	return w
}

func bin(v *fr.Element) bool { return v.IsZero() || v.IsOne() }

func (e *Engine) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := elem(i1), elem(i2)
	c := isConst(i1) && isConst(i2)
	a.Add(&a, &b)
	for _, x := range in {
		y := elem(x)
		a.Add(&a, &y)
		c = c && isConst(x)
	}
	return e.res(&a, c)
}

func (e *Engine) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	return e.Add(a, e.Mul(b, c))
}

func (e *Engine) Neg(i1 frontend.Variable) frontend.Variable {
	a := elem(i1)
	a.Neg(&a)
	return e.res(&a, isConst(i1))
}

func (e *Engine) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := elem(i1), elem(i2)
	c := isConst(i1) && isConst(i2)
	a.Sub(&a, &b)
	for _, x := range in {
		y := elem(x)
		a.Sub(&a, &y)
		c = c && isConst(x)
	}
	return e.res(&a, c)
}

func (e *Engine) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := elem(i1), elem(i2)
	c := isConst(i1) && isConst(i2)
	a.Mul(&a, &b)
	for _, x := range in {
		y := elem(x)
		a.Mul(&a, &y)
		c = c && isConst(x)
	}
	return e.res(&a, c)
}

// DivUnchecked: 0/0 leaves the quotient free, which in this code base only
// concerns the lookup argument; it evaluates to 0.
func (e *Engine) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	a, b := elem(i1), elem(i2)
	c := isConst(i1) && isConst(i2)
	if b.IsZero() {
		if a.IsZero() {
			return e.res(&a, c)
		}
		reject("division by zero")
	}
	a.Div(&a, &b)
	return e.res(&a, c)
}

func (e *Engine) Div(i1, i2 frontend.Variable) frontend.Variable {
	a, b := elem(i1), elem(i2)
	if b.IsZero() {
		reject("division by zero")
	}
	a.Div(&a, &b)
	return e.res(&a, isConst(i1) && isConst(i2))
}

func (e *Engine) Inverse(i1 frontend.Variable) frontend.Variable {
	a := elem(i1)
	if a.IsZero() {
		reject("inverse of zero")
	}
	a.Inverse(&a)
	return e.res(&a, isConst(i1))
}

func (e *Engine) BatchInvert(in []frontend.Variable) []frontend.Variable {
	t := make([]fr.Element, len(in))
	for i := range in {
		t[i] = elem(in[i])
		if t[i].IsZero() {
			reject("inverse of zero")
		}
	}
	t = fr.BatchInvert(t)
	out := make([]frontend.Variable, len(in))
	for i := range t {
		out[i] = e.res(&t[i], isConst(in[i]))
	}
	return out
}

func (e *Engine) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := e.FieldBitLen()
	if len(n) == 1 {
		nb = n[0]
	}
	b := e.big(i1)
	if b.BitLen() > nb {
		reject("ToBinary: %d bits do not fit %d", b.BitLen(), nb)
	}
	out := make([]frontend.Variable, nb)
	for i := range out {
		w := e.alloc()
		w.V.SetUint64(uint64(b.Bit(i)))
		w.Bool = true
		w.Const = isConst(i1)
		out[i] = w
	}
	return out
}

func (e *Engine) FromBinary(b ...frontend.Variable) frontend.Variable {
	var acc, c fr.Element
	c.SetOne()
	k := true
	for _, x := range b {
		e.AssertIsBoolean(x)
		v := elem(x)
		v.Mul(&v, &c)
		acc.Add(&acc, &v)
		c.Double(&c)
		k = k && isConst(x)
	}
	return e.res(&acc, k)
}

func (e *Engine) gate(a, b frontend.Variable) (x, y, xy fr.Element, c bool) {
	e.AssertIsBoolean(a)
	e.AssertIsBoolean(b)
	x, y = elem(a), elem(b)
	xy.Mul(&x, &y)
	return x, y, xy, isConst(a) && isConst(b)
}

func (e *Engine) Xor(a, b frontend.Variable) frontend.Variable {
	x, y, xy, c := e.gate(a, b)
	x.Add(&x, &y)
	x.Sub(&x, &xy)
	x.Sub(&x, &xy)
	r := e.res(&x, c)
	r.Bool = true
	return r
}

func (e *Engine) Or(a, b frontend.Variable) frontend.Variable {
	x, y, xy, c := e.gate(a, b)
	if e.type_ == frontendtype.SCS && !c && (isConst(a) || isConst(b)) {
		// gnark's PLONK builder: one constant operand b gives a*(1-b)
		if isConst(a) {
			x = y
		}
		x.Sub(&x, &xy)
	} else {
		x.Add(&x, &y)
		x.Sub(&x, &xy)
	}
	r := e.res(&x, c)
	r.Bool = true
	return r
}

func (e *Engine) And(a, b frontend.Variable) frontend.Variable {
	_, _, xy, c := e.gate(a, b)
	r := e.res(&xy, c)
	r.Bool = true
	return r
}

func (e *Engine) Select(b, i1, i2 frontend.Variable) frontend.Variable {
	e.AssertIsBoolean(b)
	s, x, y := elem(b), elem(i1), elem(i2)
	c := isConst(b) && isConst(i1) && isConst(i2)
	if s.IsOne() {
		return e.keep(i1, &x, c)
	}
	if s.IsZero() {
		return e.keep(i2, &y, c)
	}
	// marked boolean but not boolean: the gate is a polynomial
	x.Sub(&x, &y)
	x.Mul(&x, &s)
	x.Add(&x, &y)
	return e.res(&x, c)
}

// keep makes a fresh wire for a selected value: the result of a selection is a
// new linear expression, which is not known to be boolean.
func (e *Engine) keep(_ frontend.Variable, v *fr.Element, c bool) *W { return e.res(v, c) }

func (e *Engine) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	return e.Select(b1, e.Select(b0, i3, i2), e.Select(b0, i1, i0))
}

func (e *Engine) IsZero(i1 frontend.Variable) frontend.Variable {
	a := elem(i1)
	w := e.alloc()
	if a.IsZero() {
		w.V.SetOne()
	}
	w.Bool = true
	w.Const = isConst(i1)
	return w
}

func (e *Engine) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	a, b := elem(i1), elem(i2)
	var r fr.Element
	r.SetInt64(int64(a.Cmp(&b)))
	return e.res(&r, isConst(i1) && isConst(i2))
}

func (e *Engine) AssertIsEqual(i1, i2 frontend.Variable) {
	if len(e.free) > 0 && (e.learn(i1, i2) || e.learn(i2, i1)) {
		return
	}
	a, b := elem(i1), elem(i2)
	if !a.Equal(&b) {
		reject("AssertIsEqual %s %s", a.String(), b.String())
	}
}

func (e *Engine) AssertIsDifferent(i1, i2 frontend.Variable) {
	a, b := elem(i1), elem(i2)
	if a.Equal(&b) {
		reject("AssertIsDifferent")
	}
}

func (e *Engine) AssertIsBoolean(i1 frontend.Variable) {
	w, ok := i1.(*W)
	if ok && w.Bool {
		return
	}
	a := elem(i1)
	if !bin(&a) {
		reject("AssertIsBoolean %s", a.String())
	}
	if ok {
		w.Bool = true
	}
}

func (e *Engine) AssertIsCrumb(i1 frontend.Variable) {
	a := elem(i1)
	if !a.IsUint64() || a.Uint64() > 3 {
		reject("AssertIsCrumb")
	}
}

func (e *Engine) AssertIsLessOrEqual(v, bound frontend.Variable) {
	a, b := elem(v), elem(bound)
	if a.Cmp(&b) > 0 {
		reject("AssertIsLessOrEqual %s %s", a.String(), b.String())
	}
}

func (e *Engine) Println(a ...frontend.Variable) {}

func (e *Engine) Compiler() frontend.Compiler { return e }

func (e *Engine) big(v frontend.Variable) *big.Int {
	a := elem(v)
	r := new(big.Int)
	if a.IsUint64() {
		return r.SetUint64(a.Uint64())
	}
	return a.BigInt(r)
}

// Big returns the canonical value of a variable.
func Big(v frontend.Variable) *big.Int {
	a := elem(v)
	return a.BigInt(new(big.Int))
}

// Signed returns the value of a variable as a signed integer of small
// magnitude; ok is false when it does not fit 64 bits.
func Signed(v frontend.Variable) (int64, bool) {
	a := elem(v)
	if a.IsUint64() {
		u := a.Uint64()
		return int64(u), u < 1<<63
	}
	a.Neg(&a)
	if a.IsUint64() {
		u := a.Uint64()
		return -int64(u), u <= 1<<63
	}
	return 0, false
}

// Uint returns the value as an unsigned 64-bit integer.
func Uint(v frontend.Variable) (uint64, bool) {
	a := elem(v)
	return a.Uint64(), a.IsUint64()
}

func (e *Engine) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	in := make([]*big.Int, len(inputs))
	for i := range inputs {
		in[i] = e.big(inputs[i])
	}
	out := make([]*big.Int, nbOutputs)
	buf := make([]big.Int, nbOutputs)
	for i := range out {
		out[i] = &buf[i]
	}
	name := e.hintName(f)
	err := CallHint(f, name, in, out)
	if e.strategy != nil || e.Record {
		// The multiplicities of the lookup argument are determined by the values
		// looked up; a missing element makes the argument unsatisfiable.
		if !strings.HasPrefix(name, "github.com/consensys/gnark") {
			// inputs may have been mutated by the hint: recompute them
			for i := range inputs {
				in[i] = e.big(inputs[i])
			}
			for i := range out {
				out[i].Mod(out[i], modulus)
			}
			call := HintCall{Index: e.nHints, Name: name, In: in, Out: out, Failed: err != nil}
			e.nHints++
			if e.Record {
				cp := call
				cp.Out = make([]*big.Int, len(out))
				for i := range out {
					cp.Out[i] = new(big.Int).Set(out[i])
				}
				e.Calls = append(e.Calls, cp)
			}
			if e.strategy != nil {
				e.strategy(&call)
				err = nil
			}
		}
	}
	if err != nil {
		reject("hint failed: %v", err)
	}
	ret := make([]frontend.Variable, nbOutputs)
	for i := range out {
		w := e.alloc()
		setBig(&w.V, out[i])
		ret[i] = w
	}
	return ret, nil
}

// CallHint runs the code's own advice function. A panic, or a request for a
// power of two of unreasonable size, counts as failure to produce advice.
func CallHint(f solver.Hint, name string, in, out []*big.Int) (err error) {
	if strings.Contains(name, "Pow") && len(in) > 0 && in[0].Uint64() > 1<<16 {
		return fmt.Errorf("exponent too large")
	}
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f(new(big.Int).Set(modulus), in, out)
}

func (e *Engine) hintName(f solver.Hint) string {
	p := reflect.ValueOf(f).Pointer()
	if n, ok := e.nameCache[p]; ok {
		return n
	}
	n := runtime.FuncForPC(p).Name()
	e.nameCache[p] = n
	return n
}

func (e *Engine) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	return e.NewHint(solver.GetRegisteredHint(id), nbOutputs, inputs...)
}

func (e *Engine) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if isConst(v) {
		return e.big(v), true
	}
	return nil, false
}

func (e *Engine) GetNbConstraints() int { return 0 }

// ---- frontend.Compiler

func (e *Engine) MarkBoolean(v frontend.Variable) {
	if w, ok := v.(*W); ok {
		w.Bool = true
	}
}

func (e *Engine) IsBoolean(v frontend.Variable) bool {
	if w, ok := v.(*W); ok {
		return w.Bool || (w.Const && bin(&w.V))
	}
	a := elem(v)
	return bin(&a)
}

func (e *Engine) Field() *big.Int  { return new(big.Int).Set(modulus) }
func (e *Engine) FieldBitLen() int { return modulus.BitLen() }

func (e *Engine) Defer(cb func(api frontend.API) error) { e.deferred = append(e.deferred, cb) }

func (e *Engine) SetKeyValue(key, value any)          { e.kv[key] = value }
func (e *Engine) GetKeyValue(key any) any             { return e.kv[key] }
func (e *Engine) FrontendType() frontendtype.Type     { return e.type_ }
func (e *Engine) SetGkrInfo(constraint.GkrInfo) error { panic("unsupported") }

// Commit derives a challenge from the committed values.
func (e *Engine) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	h := sha256.New()
	for i := range v {
		a := elem(v[i])
		b := a.Bytes()
		h.Write(b[:])
	}
	var r fr.Element
	r.SetBytes(h.Sum(nil))
	return e.res(&r, false), nil
}

// Free allocates a public value that takes whatever value the circuit first
// asserts it to be equal to: running a circuit with free claims finds the
// claims it accepts.
func (e *Engine) Free() *W {
	w := e.In(0)
	e.free = append(e.free, w)
	return w
}

func (e *Engine) learn(a, b frontend.Variable) bool {
	w, ok := a.(*W)
	if !ok {
		return false
	}
	for i, f := range e.free {
		if f == w {
			w.V = elem(b)
			e.free = append(e.free[:i:i], e.free[i+1:]...)
			return true
		}
	}
	return false
}

// Pending is the number of free values the circuit has not determined.
func (e *Engine) Pending() int { return len(e.free) }

// Result of a run.
type Result struct {
	Accepted bool
	Why      string // reason of rejection
	Crash    bool   // the circuit or a hint panicked other than by an assertion
}

// Guard runs f and turns assertion failures into a rejected result.
func Guard(f func()) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			if rj, ok := p.(Reject); ok {
				r = Result{Why: rj.Why}
				return
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r = Result{Why: fmt.Sprintf("panic: %v\n%s", p, buf), Crash: true}
		}
	}()
	f()
	return Result{Accepted: true}
}

// Finish runs the deferred parts of the circuit (lookups).
func (e *Engine) Finish() {
	e.inDeferred = true
	for i := 0; i < len(e.deferred); i++ {
		if err := e.deferred[i](e); err != nil {
			reject("deferred: %v", err)
		}
	}
}

// Run evaluates define and the deferred parts on this engine.
func (e *Engine) Run(define func(api frontend.API)) Result {
	return Guard(func() {
		define(e)
		e.Finish()
	})
}

// compilerStub provides the parts of frontend.Compiler that circuits here do
// not use.
type compilerStub struct{}

func (compilerStub) AddBlueprint(constraint.Blueprint) constraint.BlueprintID { panic("unsupported") }
func (compilerStub) AddInstruction(constraint.BlueprintID, []uint32) []uint32 { panic("unsupported") }
func (compilerStub) InternalVariable(uint32) frontend.Variable                { panic("unsupported") }
func (compilerStub) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic("unsupported")
}

var (
	_ frontend.API           = (*Engine)(nil)
	_ frontend.Compiler      = (*Engine)(nil)
	_ frontend.Committer     = (*Engine)(nil)
	_ frontend.BatchInverter = (*Engine)(nil)
)
