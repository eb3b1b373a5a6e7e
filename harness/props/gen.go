// Package props states the properties as executable checks over generated
// cases.
package props

import (
	"math/big"

	"verif/harness/fw"
	"verif/harness/ref"
)

// E5M2 and E4M3 are small enough to enumerate pairs of floats completely.
var (
	E5M2 = ref.Fmt{E: 5, M: 2}
	E4M3 = ref.Fmt{E: 4, M: 3}
)

// otherFormats are the precisions nobody named: half, bfloat16, TF32 and
// arbitrary splits of the exponent and fraction.
var otherFormats = []ref.Fmt{{E: 5, M: 10}, {E: 8, M: 7}, {E: 8, M: 10}, {E: 6, M: 9}, {E: 5, M: 6}, {E: 7, M: 16}, {E: 6, M: 13}, {E: 10, M: 21}, {E: 8, M: 31}, {E: 9, M: 38}, {E: 11, M: 36}, {E: 12, M: 50}, {E: 8, M: 55}, {E: 7, M: 56}, {E: 15, M: 48}, {E: 6, M: 20}}

func otherFormat(r *fw.R) ref.Fmt { return otherFormats[r.N(len(otherFormats))] }

func fmtOf(e, m uint) ref.Fmt { return ref.Fmt{E: e, M: m} }

// specials of a format.
func specials(f ref.Fmt) []uint64 {
	one := uint64(f.Bias())
	top := uint64(1)<<f.M - 1
	emax := uint64(1)<<f.E - 1
	pos := []uint64{
		f.Zero(0), f.Make(0, 0, 1), f.Make(0, 0, 2), f.Make(0, 0, top), f.Make(0, 0, top-1), f.Make(0, 0, 1<<(f.M-1)),
		f.Make(0, 1, 0), f.Make(0, 1, 1), f.Make(0, 1, top), f.Make(0, 2, 0),
		f.Make(0, one, 0), f.Make(0, one, 1), f.Make(0, one, top), f.Make(0, one-1, 0), f.Make(0, one-1, top), f.Make(0, one+1, 0),
		f.Make(0, one+1, 1<<(f.M-1)), f.Make(0, one, 1<<(f.M-1)),
		f.Make(0, emax-1, top), f.Make(0, emax-1, top-1), f.Make(0, emax-1, 0), f.Make(0, emax-2, top), f.Make(0, emax-2, 0),
		f.Inf(0), f.NaN(), f.Make(0, emax, 1), f.Make(0, emax, top),
	}
	out := append([]uint64{}, pos...)
	for _, p := range pos {
		out = append(out, f.Neg(p))
	}
	return out
}

// frac draws a fraction with structure: sparse, dense, near a power, halfway
// patterns.
func frac(r *fw.R, f ref.Fmt) uint64 {
	m := uint64(1)<<f.M - 1
	switch r.N(10) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return uint64(r.N(8)) & m
	case 3:
		return (m - uint64(r.N(8))) & m
	case 4:
		return 1 << r.N(int(f.M)) & m
	case 5:
		return m &^ (1 << r.N(int(f.M)))
	case 6: // low zero bits
		k := r.N(int(f.M) + 1)
		return r.U64() >> k << k & m
	case 7: // low ones
		k := r.N(int(f.M) + 1)
		return (r.U64() | (1<<k - 1)) & m
	case 8: // high zeros
		return r.U64() & m >> r.N(int(f.M))
	}
	return r.U64() & m
}

func bexp(r *fw.R, f ref.Fmt) uint64 {
	max := int64(1)<<f.E - 1
	b := f.Bias()
	var v int64
	switch r.N(10) {
	case 0:
		v = 0
	case 1:
		v = int64(r.N(4))
	case 2:
		v = max - int64(r.N(4))
	case 3, 4, 5:
		v = b + int64(r.Range(-int(f.M)-4, int(f.M)+4))
	case 6:
		v = int64(r.N(int(f.M) + 4))
	case 7: // around half the range: products and quotients of these under- or overflow
		v = b/2 + int64(r.Range(-int(f.M)-3, 3))
	case 8:
		v = b + b/2 + int64(r.Range(-3, int(f.M)+3))
	default:
		v = int64(r.U64() % uint64(max+1))
	}
	if v < 0 {
		v = 0
	}
	if v > max {
		v = max
	}
	return uint64(v)
}

// anyFloat draws a bit pattern with emphasis on edges.
func anyFloat(r *fw.R, f ref.Fmt) uint64 {
	switch r.N(8) {
	case 0:
		s := specials(f)
		return s[r.N(len(s))]
	case 1:
		return r.U64() & f.Mask()
	}
	return f.Make(r.U64()&1, bexp(r, f), frac(r, f))
}

// finite draws a finite non-zero pattern.
func finite(r *fw.R, f ref.Fmt) uint64 {
	for {
		v := anyFloat(r, f)
		if f.Finite(v) && !f.IsZero(v) {
			return v
		}
	}
}

// clampExp builds sign/exponent/fraction with the unbiased exponent clamped to
// the representable range (subnormals included by shifting out bits).
func fromExp(f ref.Fmt, s uint64, exp int64, fr uint64) uint64 {
	if exp >= f.EMax() {
		exp = f.EMax() - 1
	}
	if exp >= f.ENorm() {
		return f.Make(s, uint64(exp+f.Bias()), fr)
	}
	sh := f.ENorm() - exp
	if sh > int64(f.M) {
		sh = int64(f.M)
	}
	return f.Make(s, 0, (fr|1<<f.M)>>sh)
}

// addPair draws operands that stress alignment, rounding and cancellation.
func addPair(r *fw.R, f ref.Fmt) (uint64, uint64) {
	x := anyFloat(r, f)
	M := int(f.M)
	switch r.N(7) {
	case 0:
		return x, anyFloat(r, f)
	case 1: // exact or near cancellation
		d := uint64(r.N(4))
		y := f.Neg(x)
		if r.Bool() {
			y = (y + d) & f.Mask()
		} else {
			y = (y - d) & f.Mask()
		}
		return x, y
	case 2, 3, 4: // exponent difference at the interesting distances
		c := f.Comp(x)
		d := []int{0, 1, 2, 3, M - 2, M - 1, M, M + 1, M + 2, M + 3, M + 4, M + 5}[r.N(12)]
		if r.Bool() {
			d = r.N(M + 6)
		}
		if r.Bool() {
			d = -d
		}
		y := fromExp(f, r.U64()&1, c.Exp-int64(d), frac(r, f))
		if r.Bool() {
			x, y = y, x
		}
		return x, y
	case 5: // around overflow and underflow
		e := f.EMax() - 1 - int64(r.N(M+3))
		if r.Bool() {
			e = f.ENorm() + int64(r.N(3)) - 1
			x = fromExp(f, r.U64()&1, f.ENorm()+int64(r.N(4))-2, frac(r, f))
		} else {
			x = fromExp(f, r.U64()&1, f.EMax()-1, frac(r, f))
		}
		return x, fromExp(f, r.U64()&1, e, frac(r, f))
	}
	// halfway: y is half an ulp of x, or its neighbour
	c := f.Comp(x)
	y := fromExp(f, r.U64()&1, c.Exp-int64(M)-1+int64(r.N(3))-1, uint64(r.N(3)))
	return x, y
}

// mulPair draws operands whose product is subnormal, overflows, or lies at or
// next to a rounding boundary.
func mulPair(r *fw.R, f ref.Fmt) (uint64, uint64) {
	M := int64(f.M)
	x, y := anyFloat(r, f), anyFloat(r, f)
	switch r.N(6) {
	case 0, 1: // target exponent near the underflow range
		x = finite(r, f)
		c := f.Comp(x)
		t := f.ENorm() - int64(r.N(int(M)+6)) + 2
		y = fromExp(f, r.U64()&1, t-c.Exp, frac(r, f))
	case 2: // near overflow
		x = finite(r, f)
		c := f.Comp(x)
		y = fromExp(f, r.U64()&1, f.EMax()-1-c.Exp+int64(r.N(3))-1, frac(r, f))
	case 3: // few significant bits in both: exact halfway products
		k := 1 + r.N(int(M))
		a := (r.U64()&(1<<k-1) | 1) << (uint(M) - uint(k)) & (1<<f.M - 1)
		l := int(M) + 2 - k + r.N(3) - 1
		if l > int(M) {
			l = int(M)
		}
		if l < 1 {
			l = 1
		}
		b := (r.U64()&(1<<l-1) | 1) << (uint(M) - uint(l)) & (1<<f.M - 1)
		x = f.Make(r.U64()&1, bexp(r, f), a)
		y = f.Make(r.U64()&1, bexp(r, f), b)
		if r.Bool() { // land it at the subnormal boundary
			c := f.Comp(x)
			if c.Abn == 0 {
				y = fromExp(f, r.U64()&1, f.ENorm()-int64(r.N(int(M)+3))-c.Exp, b)
			}
		}
	}
	return x, y
}

// hardDiv draws operands for which the division of the significands leaves a
// remainder next to zero or next to the divisor.
func hardDiv(r *fw.R, f ref.Fmt) (uint64, uint64) {
	for k := 0; k < 200; k++ {
		b := new(big.Int).SetUint64(1<<f.M | frac(r, f) | 1)
		rem := big.NewInt(int64(r.Range(-3, 3)))
		a := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), f.M+1+uint(r.N(2))), b)
		a.Mul(a, rem).Mod(a, b)
		if r.Bool() {
			a.Add(a, b)
		}
		if a.BitLen() == int(f.M)+1 {
			m := uint64(1)<<f.M - 1
			e, d := bexp(r, f), bexp(r, f)
			if r.Bool() { // results around one
				e, d = uint64(f.Bias())+uint64(r.N(2)), uint64(f.Bias())
			}
			return f.Make(r.U64()&1, e, a.Uint64()&m), f.Make(r.U64()&1, d, b.Uint64()&m)
		}
	}
	return anyFloat(r, f), anyFloat(r, f)
}

// divPair draws operands whose quotient is exact, halfway, next to halfway,
// subnormal or overflowing.
func divPair(r *fw.R, f ref.Fmt) (uint64, uint64) {
	M := int64(f.M)
	x, y := anyFloat(r, f), anyFloat(r, f)
	switch r.N(8) {
	case 6:
		return hardDiv(r, f)
	case 0: // exact quotients: x = q*y rounded for short q, y
		k := 1 + r.N(int(M))
		q := f.Make(r.U64()&1, uint64(f.Bias()), r.U64()>>(64-k)<<(uint(M)-uint(k)))
		l := int(M) - k
		var b uint64
		if l > 0 {
			b = r.U64() >> (64 - l) << (uint(M) - uint(l))
		}
		y = f.Make(r.U64()&1, bexp(r, f), b)
		x = f.Mul(q, y)
	case 1: // near halfway quotients: x next to (q+1/2 ulp)*y
		y = finite(r, f)
		q := f.Make(0, uint64(f.Bias()), frac(r, f))
		x = f.Mul(q, y)
		x = (x + uint64(r.N(3)) - 1) & f.Mask()
	case 2, 3: // subnormal results, often halfway (short quotient, power-of-two divisor)
		x = finite(r, f)
		c := f.Comp(x)
		t := f.ENorm() - int64(r.N(int(M)+4)) + 1
		fr := uint64(0)
		if r.Bool() {
			fr = frac(r, f)
		}
		y = fromExp(f, r.U64()&1, c.Exp-t, fr)
	case 4: // overflow
		x = finite(r, f)
		c := f.Comp(x)
		y = fromExp(f, r.U64()&1, c.Exp-f.EMax()+1+int64(r.N(3))-1, frac(r, f))
	}
	return x, y
}

// sqrtArg draws squares, their neighbours and values whose root is near a
// rounding boundary.
func sqrtArg(r *fw.R, f ref.Fmt) uint64 {
	switch r.N(6) {
	case 0, 1: // square of a short or full significand, plus a few ulp
		k := 1 + r.N(int(f.M)+1)
		n := new(big.Int).SetUint64(r.U64()>>(64-k) | 1<<(k-1))
		if r.Bool() { // halfway root: odd integer of M+2 bits
			n.SetUint64(r.U64()>>(64-(f.M+2)) | 1<<(f.M+1) | 1)
		}
		n.Mul(n, n)
		if r.Bool() { // keep subnormal arguments in the mix
			v := f.Round(0, n, int(f.ENorm())-r.N(int(f.M)+1)-n.BitLen(), false)
			return v
		}
		e := int(f.Comp(f.Make(0, bexp(r, f), 0)).Exp) - n.BitLen()
		v := f.Round(0, n, e, false)
		if d := uint64(r.N(3)); r.Bool() {
			v = (v + d) & f.Mask()
		} else if v > d {
			v -= d
		}
		return v
	case 2: // subnormal
		return f.Make(r.U64()>>63&1, 0, frac(r, f))
	}
	v := anyFloat(r, f)
	if !r.P(1, 6) {
		v = f.Abs(v)
	}
	return v
}

// roundArg draws arguments of rounding to integral values.
func roundArg(r *fw.R, f ref.Fmt) uint64 {
	M := int(f.M)
	switch r.N(6) {
	case 0: // integer and its neighbours
		k := 1 + r.N(M+2)
		n := r.U64()>>(64-k) | 1<<(k-1)
		v := f.Round(r.U64()&1, new(big.Int).SetUint64(n), 0, false)
		switch r.N(3) {
		case 0:
			v++
		case 1:
			v--
		}
		return v & f.Mask()
	case 1: // 2^k - tiny: carries
		k := int64(r.Range(-2, M+1))
		return fromExp(f, r.U64()&1, k, 1<<f.M-1-uint64(r.N(3)))
	case 2, 3:
		return fromExp(f, r.U64()&1, int64(r.Range(-3, M+3)), frac(r, f))
	case 4: // half integers
		k := 1 + r.N(M)
		n := r.U64()>>(64-k)<<1 | 1
		return f.Round(r.U64()&1, new(big.Int).SetUint64(n), -1, false)
	}
	return anyFloat(r, f)
}

// nearPair draws pairs that are equal, adjacent or otherwise close.
func nearPair(r *fw.R, f ref.Fmt) (uint64, uint64) {
	x := anyFloat(r, f)
	switch r.N(7) {
	case 0:
		return x, anyFloat(r, f)
	case 1:
		return x, x
	case 2:
		return x, f.Neg(x)
	case 3:
		return x, (x + 1 + uint64(r.N(3))) & f.Mask()
	case 4:
		return x, (x - 1 - uint64(r.N(3))) & f.Mask()
	case 5: // same fraction, neighbouring exponent
		return x, f.Make(f.Sign(x), f.BExp(x)+1-2*uint64(r.N(2)), f.Frac(x))
	}
	s := specials(f)
	return s[r.N(len(s))], s[r.N(len(s))]
}

// ranges is the set of lookup-table widths generated; 0 lets the code choose.
func rangeSize(r *fw.R) uint {
	switch r.N(6) {
	case 0, 1:
		return 0
	case 2:
		return 8
	}
	return uint(r.Range(2, 12))
}
