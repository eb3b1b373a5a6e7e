package main

import (
	"math"
	"strconv"
)

func verifF(s string) float64 {
	u, _ := strconv.ParseUint(s, 16, 64)
	return math.Float64frombits(u)
}

func verifH(f float64) string { return strconv.FormatUint(math.Float64bits(f), 16) }

func init() {
	verifFns["distance"] = func(a []string) (out []string, err error) {
		for ; len(a) >= 4; a = a[4:] {
			out = append(out, verifH(OldHaversine(verifF(a[0]), verifF(a[1]), verifF(a[2]), verifF(a[3]))))
		}
		return
	}
	verifFns["write"] = func(a []string) ([]string, error) {
		var cells []HexCell
		for p := a[2:]; len(p) >= 2; p = p[2:] {
			cells = append(cells, HexCell{CenterLat: verifF(p[0]), CenterLon: verifF(p[1])})
		}
		return nil, WriteHexCellsToFile(cells, a[0], a[1] == "32")
	}
}
