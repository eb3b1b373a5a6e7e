//go:build loccirc

package locshim

import (
	l32 "github.com/tumberger/zk-Location/loc2index32"
	l64 "github.com/tumberger/zk-Location/loc2index64"
)

func init() { L32.Circuit, L64.Circuit = l32.VerifCircuit, l64.VerifCircuit }
