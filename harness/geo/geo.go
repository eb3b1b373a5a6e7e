// Package geo is the reference for the grid geometry: H3's icosahedron, its
// gnomonic face planes and the hexagons on them, written from the definition
// (the hexagon of a point is the one with the nearest centre) and without the
// steps the circuits take.
package geo

import (
	"math"

	"verif/harness/h3ref"
)

// Tables of the H3 library (h3_faceijk.c): face centres and azimuth of the
// first axis of each face.
var FaceLatLng = [20][2]float64{
	{0.803582649718989942, 1.248397419617396099},
	{1.307747883455638156, 2.536945009877921159},
	{1.054751253523952054, -1.347517358900396623},
	{0.600191595538186799, -0.450603909469755746},
	{0.491715428198773866, 0.401988202911306943},
	{0.172745327415618701, 1.678146885280433686},
	{0.605929321571350690, 2.953923329812411617},
	{0.427370518328979641, -1.888876200336285401},
	{-0.079066118549212831, -0.733429513380867741},
	{-0.230961644455383637, 0.506495587332349035},
	{0.079066118549212831, 2.408163140208925497},
	{0.230961644455383637, -2.635097066257444203},
	{-0.172745327415618701, -1.463445768309359553},
	{-0.605929321571350690, -0.187669323777381622},
	{-0.427370518328979641, 1.252716453253507838},
	{-0.600191595538186799, 2.690988744120037492},
	{-0.491715428198773866, -2.739604450678486295},
	{-0.803582649718989942, -1.893195233972397139},
	{-1.307747883455638156, -0.604647643711872080},
	{-1.054751253523952054, 1.794075294689396615},
}

var FaceAz = [20]float64{
	5.619958268523939882, 5.760339081714187279, 0.780213654393430055, 0.430469363979999913, 6.130269123335111400,
	2.692877706530642877, 2.982963003477243874, 3.532912002790141181, 3.494305004259568154, 3.003214169499538391,
	5.930472956509811562, 0.138378484090254847, 0.448714947059150361, 0.158629650112549365, 5.891865957979238535,
	2.711123289609793325, 3.294508837434268316, 3.804819692245439833, 3.664438879055192436, 2.361378999196363184,
}

const (
	Res0U  = 0.38196601125010500003
	Ap7Rot = 0.333473172251832115336090755351601070065900389
)

type V3 [3]float64

func Vec(lat, lng float64) V3 {
	return V3{math.Cos(lat) * math.Cos(lng), math.Cos(lat) * math.Sin(lng), math.Sin(lat)}
}

func (a V3) Dot(b V3) float64    { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a V3) Add(b V3) V3         { return V3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a V3) Mul(k float64) V3    { return V3{a[0] * k, a[1] * k, a[2] * k} }
func (a V3) Norm() V3            { return a.Mul(1 / math.Sqrt(a.Dot(a))) }
func (a V3) SqDist(b V3) float64 { d := a.Add(b.Mul(-1)); return d.Dot(d) }
func (a V3) LatLng() (lat, lng float64) {
	return math.Atan2(a[2], math.Hypot(a[0], a[1])), math.Atan2(a[1], a[0])
}

// Centres are the face centres on the unit sphere.
var Centres [20]V3

// Vertices are the corners of the icosahedron, each with its five faces.
var Vertices []V3

// Neighbours lists the three faces sharing an edge with each face.
var Neighbours [20][]int

func init() {
	for i, c := range FaceLatLng {
		Centres[i] = Vec(c[0], c[1])
	}
	for i := range Centres {
		for j := range Centres {
			if i != j && Centres[i].Dot(Centres[j]) > 0.7 {
				Neighbours[i] = append(Neighbours[i], j)
			}
		}
	}
	// a vertex lies opposite to the neighbour it is not shared with
	for i := range Centres {
		for _, j := range Neighbours[i] {
			// reflect j's centre direction: the vertex of i farthest from j
			t := Centres[j].Add(Centres[i].Mul(-Centres[j].Dot(Centres[i]))).Norm()
			// circumradius of a face seen from the centre
			cosr := math.Sqrt((5 + 2*math.Sqrt(5)) / 15)
			sinr := math.Sqrt(1 - cosr*cosr)
			Vertices = append(Vertices, Centres[i].Mul(cosr).Add(t.Mul(-sinr)))
		}
	}
}

// Nearest returns the faces whose squared distance from the point is within
// tol of the smallest, and that smallest squared distance.
func Nearest(lat, lng, tol float64) (faces []int, best float64) {
	p := Vec(lat, lng)
	best = 5
	var d [20]float64
	for i, c := range Centres {
		d[i] = c.SqDist(p)
		best = math.Min(best, d[i])
	}
	for i := range d {
		if d[i] <= best+tol {
			faces = append(faces, i)
		}
	}
	return
}

// Scale is the number of grid units per unit of the face plane.
func Scale(res int) float64 { return math.Pow(7, float64(res)/2) / Res0U }

// Project maps a location to the plane of a face at a resolution.
func Project(face int, lat, lng float64, res int) (x, y float64) {
	lat0, lng0 := FaceLatLng[face][0], FaceLatLng[face][1]
	sl, cl := math.Sincos(lat)
	s0, c0 := math.Sincos(lat0)
	dl := lng - lng0
	sd, cd := math.Sincos(dl)
	h := math.Sin(dl / 2)
	east := cl * sd
	// c0*sl - s0*cl*cd without cancellation
	north := math.Sin(lat-lat0) + 2*s0*cl*h*h
	up := s0*sl + c0*cl*cd
	az := FaceAz[face]
	if res%2 == 1 {
		az -= Ap7Rot
	}
	sa, ca := math.Sincos(az)
	k := Scale(res) / up
	return (ca*north + sa*east) * k, (sa*north - ca*east) * k
}

// Unproject maps a point of the plane of a face to a location.
func Unproject(face int, x, y float64, res int) (lat, lng float64) {
	az := FaceAz[face]
	if res%2 == 1 {
		az -= Ap7Rot
	}
	sa, ca := math.Sincos(az)
	k := 1 / Scale(res)
	north, east := (ca*x+sa*y)*k, (sa*x-ca*y)*k
	lat0, lng0 := FaceLatLng[face][0], FaceLatLng[face][1]
	s0, c0 := math.Sincos(lat0)
	sl, cl := math.Sincos(lng0)
	c := Centres[face]
	n := V3{-s0 * cl, -s0 * sl, c0}
	e := V3{-sl, cl, 0}
	return c.Add(n.Mul(north)).Add(e.Mul(east)).LatLng()
}

// Centre of a hexagon in the plane.
func Centre(c h3ref.IJK) (x, y float64) {
	i, j := float64(c[0]-c[2]), float64(c[1]-c[2])
	return i - 0.5*j, j * math.Sqrt(3) / 2
}

// Outside is how far the point lies outside the hexagon, negative inside.
func Outside(c h3ref.IJK, x, y float64) float64 {
	cx, cy := Centre(c)
	dx, dy := x-cx, y-cy
	m := math.Inf(-1)
	for k := 0; k < 6; k++ {
		s, co := math.Sincos(float64(k) * math.Pi / 3)
		m = math.Max(m, dx*co+dy*s)
	}
	return m - 0.5
}

// Canonical reports whether the coordinates are the normalised ones.
func Canonical(c h3ref.IJK) bool {
	m := min(c[0], c[1], c[2])
	return m == 0
}

// Hexagon returns the normalised coordinates of the hexagon with the nearest
// centre.
func Hexagon(x, y float64) h3ref.IJK {
	j0 := math.Round(y * 2 / math.Sqrt(3))
	best, bd := h3ref.IJK{}, math.Inf(1)
	for dj := -1.0; dj <= 1; dj++ {
		j := j0 + dj
		i0 := math.Round(x + 0.5*j)
		for di := -1.0; di <= 1; di++ {
			i := i0 + di
			dx, dy := x-(i-0.5*j), y-j*math.Sqrt(3)/2
			if d := dx*dx + dy*dy; d < bd {
				bd = d
				best = Normalize(h3ref.IJK{int64(i), int64(j), 0})
			}
		}
	}
	return best
}

func Normalize(c h3ref.IJK) h3ref.IJK {
	m := min(c[0], c[1], c[2])
	return h3ref.IJK{c[0] - m, c[1] - m, c[2] - m}
}
