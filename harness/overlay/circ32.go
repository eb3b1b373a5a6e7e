package loc2index64

import "github.com/consensys/gnark/frontend"

// VerifCircuit is the location circuit of the package.
func VerifCircuit(lat, lng, res, i, j, k frontend.Variable) frontend.Circuit {
	return &loc2Index32Circuit{Lat: lat, Lng: lng, Resolution: res, I: i, J: j, K: k}
}
