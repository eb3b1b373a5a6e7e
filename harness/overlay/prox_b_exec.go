package main

import (
	"fmt"
	"math"
	"strconv"
)

func init() {
	f := func(s string) float64 {
		u, _ := strconv.ParseUint(s, 16, 64)
		return math.Float64frombits(u)
	}
	h := func(v float64) string { return strconv.FormatUint(math.Float64bits(v), 16) }
	verifFns["cell"] = func(a []string) ([]string, error) {
		r, _ := strconv.Atoi(a[0])
		s, err := latLngToCell(r, f(a[1]), f(a[2]))
		return []string{s}, err
	}
	verifFns["ijk"] = func(a []string) ([]string, error) {
		r, _ := strconv.Atoi(a[0])
		i, j, k, err := executeLatLngToIJK("../h3-master/build/bin/latLngToCell", r, f(a[1]), f(a[2]))
		return []string{fmt.Sprint(i), fmt.Sprint(j), fmt.Sprint(k)}, err
	}
	verifFns["centre"] = func(a []string) ([]string, error) {
		x, y, err := cellToLatLng(a[0])
		return []string{h(x), h(y)}, err
	}
	verifFns["boundary"] = func(a []string) (out []string, err error) {
		b, err := cellToBoundary(a[0])
		for _, p := range b {
			out = append(out, h(p[0]), h(p[1]))
		}
		return
	}
}
