// Package locshim gives the checks access to the stages of the location
// circuits. They are unexported in the repository, so the build adds small
// files to its packages through an overlay; which of them compile decides what
// is available here.
package locshim

import (
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
)

type (
	F  = float.FloatVar
	V  = frontend.Variable
	CX = *float.Context
)

// Stages of one location circuit; nil when not available.
type Stages struct {
	Face    func(f CX, x, y, z, lng F) [9]F
	R       func(f CX, sqDist F, res V) F
	Hex2d   func(f CX, sinLat, cosLat, sinLng, cosLng, sinFaceLat, cosFaceLat, sinFaceLng, cosFaceLng, sinAz, cosAz, sinAzRot, cosAzRot, r F, res V) [2]F
	IJK     func(f CX, x, y F) [3]V
	Norm    func(f CX, iNeg, i, jNeg, j, kNeg, k V) [3]V
	Circuit func(lat, lng, res, i, j, k V) frontend.Circuit
}

var L32, L64 Stages

// Of returns the stages for a precision.
func Of(f64 bool) *Stages {
	if f64 {
		return &L64
	}
	return &L32
}

// Tables are the geometric tables of one precision.
type Tables struct {
	Lng, Cos, Sin, Az           [20]float64
	Point                       [20][3]float64
	Sin60, Sqrt7, ResConst, Rot float64
	E, M                        uint
}

var (
	T64, T32   Tables
	MaxRes     V
	HaveTables bool
)
