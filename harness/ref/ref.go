// Package ref is the reference model of IEEE-754 binary floating point used as
// the oracle: a generic big-integer implementation for any small format, and
// the processor's own arithmetic for binary32 and binary64. The two are
// cross-checked by the harness's own self test.
package ref

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

// Fmt is a binary interchange format with E exponent bits and M fraction bits.
type Fmt struct{ E, M uint }

var (
	F32 = Fmt{8, 23}
	F64 = Fmt{11, 52}
)

func (f Fmt) String() string { return fmt.Sprintf("E%dM%d", f.E, f.M) }
func (f Fmt) Width() uint    { return 1 + f.E + f.M }
func (f Fmt) Mask() uint64 {
	if f.Width() == 64 {
		return math.MaxUint64
	}
	return 1<<f.Width() - 1
}
func (f Fmt) Bias() int64          { return 1<<(f.E-1) - 1 }
func (f Fmt) EMax() int64          { return 1 << (f.E - 1) } // unbiased exponent of inf/NaN
func (f Fmt) ENorm() int64         { return 2 - f.EMax() }   // smallest normal exponent
func (f Fmt) EZero() int64         { return f.ENorm() - int64(f.M) - 1 }
func (f Fmt) Sign(b uint64) uint64 { return b >> (f.E + f.M) & 1 }
func (f Fmt) BExp(b uint64) uint64 { return b >> f.M & (1<<f.E - 1) }
func (f Fmt) Frac(b uint64) uint64 { return b & (1<<f.M - 1) }
func (f Fmt) Inf(s uint64) uint64  { return s<<(f.E+f.M) | (1<<f.E-1)<<f.M }
func (f Fmt) NaN() uint64          { return f.Inf(0) | 1<<(f.M-1) }
func (f Fmt) Zero(s uint64) uint64 { return s << (f.E + f.M) }
func (f Fmt) IsNaN(b uint64) bool  { return f.BExp(b) == 1<<f.E-1 && f.Frac(b) != 0 }
func (f Fmt) IsInf(b uint64) bool  { return f.BExp(b) == 1<<f.E-1 && f.Frac(b) == 0 }
func (f Fmt) IsZero(b uint64) bool { return b&(f.Mask()>>1) == 0 }
func (f Fmt) IsSub(b uint64) bool  { return f.BExp(b) == 0 && f.Frac(b) != 0 }
func (f Fmt) Finite(b uint64) bool { return f.BExp(b) != 1<<f.E-1 }
func (f Fmt) Make(s, be, fr uint64) uint64 {
	return s<<(f.E+f.M) | (be&(1<<f.E-1))<<f.M | fr&(1<<f.M-1)
}

// Same: same number with the same zero sign, or both NaN.
func (f Fmt) Same(a, b uint64) bool {
	if f.IsNaN(a) || f.IsNaN(b) {
		return f.IsNaN(a) && f.IsNaN(b)
	}
	return a == b
}

// Comp is the documented in-circuit representation of a float.
type Comp struct {
	S   uint64
	Exp int64
	Man uint64
	Abn uint64
}

// Comp returns the canonical components of a bit pattern.
func (f Fmt) Comp(b uint64) Comp {
	c := Comp{S: f.Sign(b)}
	e, m := f.BExp(b), f.Frac(b)
	switch {
	case e == 1<<f.E-1:
		c.Exp, c.Abn = f.EMax(), 1
		if m == 0 {
			c.Man = 1 << f.M
		}
	case e == 0 && m == 0:
		c.Exp = f.EZero()
	case e == 0:
		sh := int(f.M) + 1 - bits.Len64(m)
		c.Man = m << sh
		c.Exp = f.ENorm() - int64(sh)
	default:
		c.Exp = int64(e) - f.Bias()
		c.Man = m | 1<<f.M
	}
	return c
}

// FromComp inverts Comp; ok is false when c is not canonical.
func (f Fmt) FromComp(c Comp) (uint64, bool) {
	if c.S > 1 || c.Abn > 1 {
		return 0, false
	}
	if c.Abn == 1 {
		if c.Exp != f.EMax() {
			return 0, false
		}
		switch c.Man {
		case 0:
			return f.NaN() | f.Zero(c.S), true
		case 1 << f.M:
			return f.Inf(c.S), true
		}
		return 0, false
	}
	if c.Man == 0 {
		return f.Zero(c.S), c.Exp == f.EZero()
	}
	if c.Man>>f.M != 1 || c.Exp >= f.EMax() || c.Exp <= f.EZero() {
		return 0, false
	}
	if c.Exp >= f.ENorm() {
		return f.Make(c.S, uint64(c.Exp+f.Bias()), c.Man), true
	}
	sh := uint(f.ENorm() - c.Exp)
	if c.Man>>sh<<sh != c.Man {
		return 0, false
	}
	return f.Make(c.S, 0, c.Man>>sh), true
}

// SameComp compares components, ignoring the sign of NaN.
func SameComp(a, b Comp) bool {
	if a.Abn == 1 && b.Abn == 1 && a.Man == 0 && b.Man == 0 {
		a.S, b.S = 0, 0
	}
	return a == b
}

// Num is the exact value of a finite pattern: (-1)^s * m * 2^e.
func (f Fmt) num(b uint64) (*big.Int, int) {
	c := f.Comp(b)
	return new(big.Int).SetUint64(c.Man), int(c.Exp) - int(f.M)
}

// round rounds m*2^e (m >= 0, plus a positive amount below one unit of m when
// sticky) to the format, nearest even.
func (f Fmt) round(s uint64, m *big.Int, e int, sticky bool) uint64 {
	if m.Sign() == 0 {
		if sticky {
			panic("sticky zero")
		}
		return f.Zero(s)
	}
	m = new(big.Int).Set(m)
	// keep plenty of low bits so that sticky is below everything
	m.Lsh(m, 2)
	e -= 2
	if sticky {
		m.SetBit(m, 0, 1)
	}
	top := m.BitLen() - 1 + e // exponent of leading bit
	lsb := top - int(f.M)     // weight of last kept bit
	if min := int(f.ENorm()) - int(f.M); lsb < min {
		lsb = min
	}
	sh := lsb - e
	q := new(big.Int)
	if sh <= 0 {
		q.Lsh(m, uint(-sh))
	} else {
		q.Rsh(m, uint(sh))
		rem := new(big.Int).Sub(m, new(big.Int).Lsh(q, uint(sh)))
		h := new(big.Int).Lsh(big.NewInt(1), uint(sh-1))
		switch c := rem.Cmp(h); {
		case c > 0, c == 0 && q.Bit(0) == 1:
			q.Add(q, big.NewInt(1))
		}
	}
	if q.Sign() == 0 {
		return f.Zero(s)
	}
	if q.BitLen() > int(f.M)+1 {
		q.Rsh(q, 1)
		lsb++
	}
	v := q.Uint64()
	if v>>f.M == 0 { // subnormal
		return f.Make(s, 0, v)
	}
	ex := int64(lsb) + int64(f.M)
	if ex >= f.EMax() {
		return f.Inf(s)
	}
	return f.Make(s, uint64(ex+f.Bias()), v)
}

func (f Fmt) SoftAdd(x, y uint64) uint64 {
	if f.IsNaN(x) || f.IsNaN(y) {
		return f.NaN()
	}
	if f.IsInf(x) {
		if f.IsInf(y) && f.Sign(x) != f.Sign(y) {
			return f.NaN()
		}
		return x
	}
	if f.IsInf(y) {
		return y
	}
	if f.IsZero(x) && f.IsZero(y) {
		if f.Sign(x) == f.Sign(y) {
			return x
		}
		return f.Zero(0)
	}
	a, ea := f.num(x)
	b, eb := f.num(y)
	if f.Sign(x) == 1 {
		a.Neg(a)
	}
	if f.Sign(y) == 1 {
		b.Neg(b)
	}
	e := ea
	if eb < e {
		e = eb
	}
	a.Lsh(a, uint(ea-e))
	b.Lsh(b, uint(eb-e))
	a.Add(a, b)
	if a.Sign() == 0 {
		return f.Zero(0)
	}
	s := uint64(0)
	if a.Sign() < 0 {
		s = 1
		a.Neg(a)
	}
	return f.round(s, a, e, false)
}

func (f Fmt) SoftMul(x, y uint64) uint64 {
	if f.IsNaN(x) || f.IsNaN(y) {
		return f.NaN()
	}
	s := f.Sign(x) ^ f.Sign(y)
	if f.IsInf(x) || f.IsInf(y) {
		if f.IsZero(x) || f.IsZero(y) {
			return f.NaN()
		}
		return f.Inf(s)
	}
	a, ea := f.num(x)
	b, eb := f.num(y)
	return f.round(s, a.Mul(a, b), ea+eb, false)
}

func (f Fmt) SoftDiv(x, y uint64) uint64 {
	if f.IsNaN(x) || f.IsNaN(y) {
		return f.NaN()
	}
	s := f.Sign(x) ^ f.Sign(y)
	switch {
	case f.IsInf(x) && f.IsInf(y), f.IsZero(x) && f.IsZero(y):
		return f.NaN()
	case f.IsInf(x), f.IsZero(y):
		return f.Inf(s)
	case f.IsInf(y), f.IsZero(x):
		return f.Zero(s)
	}
	a, ea := f.num(x)
	b, eb := f.num(y)
	const k = 200
	a.Lsh(a, k)
	r := new(big.Int)
	a.QuoRem(a, b, r)
	return f.round(s, a, ea-eb-k, r.Sign() != 0)
}

func (f Fmt) SoftSqrt(x uint64) uint64 {
	switch {
	case f.IsNaN(x):
		return f.NaN()
	case f.IsZero(x):
		return x
	case f.Sign(x) == 1:
		return f.NaN()
	case f.IsInf(x):
		return x
	}
	a, e := f.num(x)
	k := 200
	if (e-k)&1 != 0 {
		k++
	}
	a.Lsh(a, uint(k))
	r := new(big.Int).Sqrt(a)
	sq := new(big.Int).Mul(r, r)
	return f.round(0, r, (e-k)/2, sq.Cmp(a) != 0)
}

func (f Fmt) Neg(x uint64) uint64 { return x ^ f.Zero(1) }
func (f Fmt) Abs(x uint64) uint64 { return x &^ f.Zero(1) }

func f32(b uint64) float32 { return math.Float32frombits(uint32(b)) }
func f64(b uint64) float64 { return math.Float64frombits(b) }

func (f Fmt) Add(x, y uint64) uint64 {
	switch f {
	case F32:
		return uint64(math.Float32bits(f32(x) + f32(y)))
	case F64:
		return math.Float64bits(f64(x) + f64(y))
	}
	return f.SoftAdd(x, y)
}

func (f Fmt) Sub(x, y uint64) uint64 {
	switch f {
	case F32:
		return uint64(math.Float32bits(f32(x) - f32(y)))
	case F64:
		return math.Float64bits(f64(x) - f64(y))
	}
	return f.SoftAdd(x, f.Neg(y))
}

func (f Fmt) Mul(x, y uint64) uint64 {
	switch f {
	case F32:
		return uint64(math.Float32bits(f32(x) * f32(y)))
	case F64:
		return math.Float64bits(f64(x) * f64(y))
	}
	return f.SoftMul(x, y)
}

func (f Fmt) Div(x, y uint64) uint64 {
	switch f {
	case F32:
		return uint64(math.Float32bits(f32(x) / f32(y)))
	case F64:
		return math.Float64bits(f64(x) / f64(y))
	}
	return f.SoftDiv(x, y)
}

func (f Fmt) Sqrt(x uint64) uint64 {
	switch f {
	case F32:
		// double rounding is innocuous for square roots
		return uint64(math.Float32bits(float32(math.Sqrt(float64(f32(x))))))
	case F64:
		return math.Float64bits(math.Sqrt(f64(x)))
	}
	return f.SoftSqrt(x)
}

// Lt reports x < y.
func (f Fmt) Lt(x, y uint64) bool {
	if f.IsNaN(x) || f.IsNaN(y) {
		return false
	}
	return f.ord(x) < f.ord(y)
}

// Le reports x <= y.
func (f Fmt) Le(x, y uint64) bool {
	if f.IsNaN(x) || f.IsNaN(y) {
		return false
	}
	return f.ord(x) <= f.ord(y)
}

func (f Fmt) ord(x uint64) int64 {
	m := int64(f.Abs(x))
	if f.Sign(x) == 1 {
		return -m
	}
	return m
}

// Rounding to integral values: 0 toward zero, 1 down, 2 up.
func (f Fmt) Integral(x uint64, mode int) uint64 {
	if !f.Finite(x) || f.IsZero(x) {
		if f.IsNaN(x) {
			return f.NaN()
		}
		return x
	}
	s := f.Sign(x)
	m, e := f.num(x)
	if e >= 0 {
		return x
	}
	q := new(big.Int).Rsh(m, uint(-e))
	exact := new(big.Int).Lsh(q, uint(-e)).Cmp(m) == 0
	if !exact && (mode == 1 && s == 1 || mode == 2 && s == 0) {
		q.Add(q, big.NewInt(1))
	}
	return f.round(s, q, 0, false)
}

// Int returns the integer value of an integral finite float.
func (f Fmt) Int(x uint64) (*big.Int, bool) {
	if !f.Finite(x) {
		return nil, false
	}
	m, e := f.num(x)
	if e >= 0 {
		m.Lsh(m, uint(e))
	} else {
		q := new(big.Int).Rsh(m, uint(-e))
		if new(big.Int).Lsh(q, uint(-e)).Cmp(m) != 0 {
			return nil, false
		}
		m = q
	}
	if f.Sign(x) == 1 {
		m.Neg(m)
	}
	return m, true
}

// Float returns the value as a float64 (exact for formats up to binary64).
func (f Fmt) Float(b uint64) float64 {
	switch f {
	case F32:
		return float64(f32(b))
	case F64:
		return f64(b)
	}
	if f.IsNaN(b) {
		return math.NaN()
	}
	s := 1.0
	if f.Sign(b) == 1 {
		s = -1
	}
	if f.IsInf(b) {
		return math.Inf(int(s))
	}
	c := f.Comp(b)
	return s * math.Ldexp(float64(c.Man), int(c.Exp)-int(f.M))
}

// FromFloat rounds a float64 to the format.
func (f Fmt) FromFloat(v float64) uint64 {
	switch f {
	case F32:
		return uint64(math.Float32bits(float32(v)))
	case F64:
		return math.Float64bits(v)
	}
	if v != v {
		return f.NaN()
	}
	s := uint64(0)
	if math.Signbit(v) {
		s = 1
	}
	if math.IsInf(v, 0) {
		return f.Inf(s)
	}
	m, e := F64.num(math.Float64bits(v))
	return f.round(s, m, e, false)
}

// Round rounds (-1)^s m 2^e to the format.
func (f Fmt) Round(s uint64, m *big.Int, e int, sticky bool) uint64 { return f.round(s, m, e, sticky) }
