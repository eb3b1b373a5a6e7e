//go:build tables

package locshim

import "github.com/tumberger/zk-Location/util"

func init() {
	for i := 0; i < 20; i++ {
		t := &T64
		t.Lng[i], t.Cos[i], t.Sin[i], t.Az[i] = util.FaceCenterGeoLng_64[i], util.CosFaceLat_64[i], util.SinFaceLat[i], util.Azimuth[i]
		u := &T32
		u.Lng[i], u.Cos[i], u.Sin[i], u.Az[i] = float64(util.FaceCenterGeoLng_32[i]), float64(util.CosFaceLat_32[i]), float64(util.SinFaceLat_32[i]), float64(util.Azimuth_32[i])
		for k := 0; k < 3; k++ {
			t.Point[i][k] = util.FaceCenterPoint_64[3*i+k]
			u.Point[i][k] = float64(util.FaceCenterPoint_32[3*i+k])
		}
	}
	T64.Sin60, T64.Sqrt7, T64.ResConst, T64.Rot = util.Sin60_64, util.Sqrt7_64, util.ResConst_64, util.Ap7rot_64
	T32.Sin60, T32.Sqrt7, T32.ResConst, T32.Rot = float64(util.Sin60_32), float64(util.Sqrt7_32), float64(util.ResConst_32), float64(util.Ap7rot_32)
	T64.E, T64.M, T32.E, T32.M = util.IEEE64ExponentBitwidth, util.IEEE64Precision, util.IEEE32ExponentBitwidth, util.IEEE32Precision
	MaxRes = util.MaxResolution
	HaveTables = true
}
