package props

import "math/big"

// sincosBig returns sine and cosine of v, |v| <= 4, to well beyond double
// precision, from their power series.
func sincosBig(v float64) (s, c *big.Float) {
	return sincosBigF(new(big.Float).SetPrec(200).SetFloat64(v))
}

func sincosBigF(v *big.Float) (s, c *big.Float) {
	prec := v.Prec()
	nf := func() *big.Float { return new(big.Float).SetPrec(prec) }
	x := nf().Set(v)
	x2 := nf().Mul(x, x)
	s, c = nf(), nf()
	t := nf().SetInt64(1)
	tx := nf().Set(x)
	for k := int64(0); k < 60; k += 2 {
		if k%4 == 0 {
			c.Add(c, t)
			s.Add(s, tx)
		} else {
			c.Sub(c, t)
			s.Sub(s, tx)
		}
		t.Mul(t, x2).Quo(t, nf().SetInt64((k+1)*(k+2)))
		tx.Mul(tx, x2).Quo(tx, nf().SetInt64((k+2)*(k+3)))
	}
	return
}

// halfAngles returns tan(v/2), sin(v), sin(v/2), cos(v/2), correctly rounded.
func halfAngles(v float64) []float64 {
	h, _ := new(big.Float).Quo(big.NewFloat(v), big.NewFloat(2)).Float64()
	// v/2 is inexact only for subnormals of the least exponent
	s, c := sincosBig(h)
	s1, _ := sincosBig(v)
	t := new(big.Float).SetPrec(200)
	out := make([]float64, 4)
	if s.Sign() != 0 {
		out[0], _ = t.Quo(s, c).Float64()
	} else {
		out[0], _ = s.Float64()
	}
	out[1], _ = s1.Float64()
	out[2], _ = s.Float64()
	out[3], _ = c.Float64()
	return out
}
