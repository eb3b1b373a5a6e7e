//go:build locshim

package locshim

import (
	l32 "github.com/tumberger/zk-Location/loc2index32"
	l64 "github.com/tumberger/zk-Location/loc2index64"
)

func init() {
	L32.Face, L32.R, L32.Hex2d, L32.IJK, L32.Norm = l32.VerifClosestFace, l32.VerifR, l32.VerifHex2d, l32.VerifIJK, l32.NormalizeIJK
	L64.Face, L64.R, L64.Hex2d, L64.IJK, L64.Norm = l64.VerifClosestFace, l64.VerifR, l64.VerifHex2d, l64.VerifIJK, l64.NormalizeIJK
}
