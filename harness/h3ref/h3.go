// Package h3ref gives access to the internal functions of the H3 C library that
// h3-go builds: face-local coordinates of a location are not part of its public
// interface. The symbols are declared weak here, and resolve to the library's
// definitions when the program is linked.
package h3ref

/*
#cgo LDFLAGS: -lm
typedef struct { double lat; double lng; } VLL;
typedef struct { double x; double y; } VV2;
typedef struct { int i; int j; int k; } VIJK;
typedef struct { int face; VIJK coord; } VFIJK;
typedef struct { int i; int j; } VIJ;
extern void _geoToFaceIjk(const VLL *g, int res, VFIJK *h) __attribute__((weak));
extern void _geoToHex2d(const VLL *g, int res, int *face, VV2 *v) __attribute__((weak));
extern void _hex2dToCoordIJK(const VV2 *v, VIJK *h) __attribute__((weak));
extern void _ijkNormalize(VIJK *c) __attribute__((weak));
static int h3ok(void) { return _geoToFaceIjk && _geoToHex2d && _hex2dToCoordIJK && _ijkNormalize; }
static void v_face(double lat, double lng, int res, int *face, int *i, int *j, int *k) {
	VLL g = {lat, lng}; VFIJK h;
	_geoToFaceIjk(&g, res, &h);
	*face = h.face; *i = h.coord.i; *j = h.coord.j; *k = h.coord.k;
}
static void v_hex2d(double lat, double lng, int res, int *face, double *x, double *y) {
	VLL g = {lat, lng}; VV2 v;
	_geoToHex2d(&g, res, face, &v);
	*x = v.x; *y = v.y;
}
static void v_ijk(double x, double y, int *i, int *j, int *k) {
	VV2 v = {x, y}; VIJK h;
	_hex2dToCoordIJK(&v, &h);
	*i = h.i; *j = h.j; *k = h.k;
}
static void v_norm(int *i, int *j, int *k) {
	VIJK h = {*i, *j, *k};
	_ijkNormalize(&h);
	*i = h.i; *j = h.j; *k = h.k;
}
*/
import "C"

import (
	_ "github.com/uber/h3-go/v4"
)

// OK reports whether the library functions were linked.
func OK() bool { return C.h3ok() != 0 }

// IJK are face-local hexagon coordinates.
type IJK [3]int64

func FaceIJK(lat, lng float64, res int) (face int, c IJK) {
	var f, i, j, k C.int
	C.v_face(C.double(lat), C.double(lng), C.int(res), &f, &i, &j, &k)
	return int(f), IJK{int64(i), int64(j), int64(k)}
}

func Hex2d(lat, lng float64, res int) (face int, x, y float64) {
	var f C.int
	var cx, cy C.double
	C.v_hex2d(C.double(lat), C.double(lng), C.int(res), &f, &cx, &cy)
	return int(f), float64(cx), float64(cy)
}

func HexToIJK(x, y float64) IJK {
	var i, j, k C.int
	C.v_ijk(C.double(x), C.double(y), &i, &j, &k)
	return IJK{int64(i), int64(j), int64(k)}
}

func Normalize(c IJK) IJK {
	i, j, k := C.int(c[0]), C.int(c[1]), C.int(c[2])
	C.v_norm(&i, &j, &k)
	return IJK{int64(i), int64(j), int64(k)}
}
