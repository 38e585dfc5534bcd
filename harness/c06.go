package main

import (
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C06"] = checkC06 }

const (
	boundAtan2   = 0.01 + 1.7e-4 // documented "< 0.01"; its polynomial reaches 0.01015
	boundAtan2_2 = 0.005 + 1e-5
	boundPhase   = 4e-7
	unit         = math.Pi / 16384 // fixed point angle unit
	boundLUT     = 1.0/256 + 2*unit
	boundFixed   = 0.0717 + 3*unit
)

func angDist(a, b float64) float64 {
	d := math.Abs(a - b)
	return d
}

func checkC06(c *Ctx) {
	c.Rule = "one evaluation = one (y,x) pair given to every angle function, the angle compared with math.Atan2; distinct = distinct (y,x) pair with y or x non-zero."
	type fn struct {
		name  string
		f     func(y, x float32) float32
		bound float64
		wide  bool // any finite magnitude
	}
	fns := []fn{
		{"FastAtan2", dsp.FastAtan2, boundAtan2, false},
		{"FastAtan2_2", dsp.FastAtan2_2, boundAtan2_2, false},
		{"FastPhase32", func(y, x float32) float32 { return dsp.FastPhase32(complex(x, y)) }, boundAtan2, false},
		{"Phase32", func(y, x float32) float32 { return dsp.Phase32(complex(x, y)) }, boundPhase, true},
	}
	worst := map[string]float64{}
	one := func(y, x float32) {
		c.Seen(mix(uint64(math.Float32bits(y))<<32|uint64(math.Float32bits(x))), y != 0 || x != 0)
		h := math.Hypot(float64(x), float64(y))
		mod := y == 0 && x == 0 || h >= 1e-15 && h <= 1e30
		want := math.Atan2(float64(y), float64(x))
		for _, f := range fns {
			if !mod && !f.wide {
				continue
			}
			g := float64(f.f(y, x))
			if !(g >= -math.Pi-1e-5 && g <= math.Pi+1e-5) {
				c.Fail("range:"+f.name, "%s(%v,%v) = %v, outside [-pi,pi] (true angle %v)", f.name, y, x, g, want)
				continue
			}
			if y == 0 && x == 0 {
				if f.name != "Phase32" && g != 0 {
					c.Fail("origin:"+f.name, "%s(%v,%v) = %v, want 0", f.name, y, x, g)
				}
				if f.name == "Phase32" && math.Abs(g-want) > 1e-6 {
					c.Fail("origin:"+f.name, "%s(%v,%v) = %v, want %v", f.name, y, x, g, want)
				}
				continue
			}
			d := math.Abs(g - want)
			if y == 0 && x < 0 { // on the cut either sign is the same angle
				d = math.Abs(math.Abs(g) - math.Pi)
			}
			if d > worst[f.name] {
				worst[f.name] = d
			}
			if !(d <= f.bound) {
				c.Fail("error:"+f.name, "%s(%v,%v) = %v, true angle %v, error %v > %v", f.name, y, x, g, want, d, f.bound)
			}
			if y != 0 {
				if n := f.f(-y, x); !(float64(n)+g == 0 || f.name == "FastAtan2_2" && math.Abs(float64(n)+g) < 1e-6) {
					c.Fail("odd:"+f.name, "%s(%v,%v) = %v but with -y %v: not odd", f.name, y, x, g, n)
				}
				// the quadrant: the sign of the angle is that of y; beyond the bound the side of the y axis too
				if g != 0 && (g > 0) != (y > 0) && math.Abs(g) > f.bound {
					c.Fail("quadrant:"+f.name, "%s(%v,%v) = %v has the wrong sign", f.name, y, x, g)
				}
			}
		}
	}
	type ifn struct {
		name  string
		f     func(y, x int) int
		bound float64
		lim   float64
	}
	limLUT, limFix := math.Ldexp(1, 54), math.Ldexp(1, 49)
	if math.MaxInt == math.MaxInt32 {
		limLUT, limFix = math.Ldexp(1, 22), math.Ldexp(1, 17)
	}
	ifns := []ifn{{"Atan2LUT", dsp.Atan2LUT, boundLUT, limLUT}, {"FastAtan2Fixed", dsp.FastAtan2Fixed, boundFixed, limFix}}
	oneInt := func(y, x int) {
		c.Seen(mix(hashS("int"), y, x), y != 0 || x != 0)
		want := math.Atan2(float64(y), float64(x))
		for _, f := range ifns {
			if math.Abs(float64(x)) > f.lim || math.Abs(float64(y)) > f.lim {
				continue
			}
			gi := f.f(y, x)
			g := float64(gi) * unit
			if gi < -16384 || gi > 16384 {
				c.Fail("range:"+f.name, "%s(%d,%d) = %d, outside [-2^14,2^14]", f.name, y, x, gi)
				continue
			}
			if x == 0 && y == 0 {
				if gi != 0 {
					c.Fail("origin:"+f.name, "%s(0,0) = %d", f.name, gi)
				}
				continue
			}
			d := math.Abs(g - want)
			if y == 0 && x < 0 {
				d = math.Abs(math.Abs(g) - math.Pi)
			}
			if d > worst[f.name] {
				worst[f.name] = d
			}
			if d > f.bound {
				c.Fail("error:"+f.name, "%s(%d,%d) = %d (%v rad), true angle %v, error %v > %v", f.name, y, x, gi, g, want, d, f.bound)
			}
			if y != 0 {
				n := f.f(-y, x)
				if n != -gi {
					c.Fail("odd:"+f.name, "%s(%d,%d) = %d but with -y %d: not odd", f.name, y, x, gi, n)
				}
				if gi != 0 && (gi > 0) != (y > 0) && d > 2*unit {
					c.Fail("quadrant:"+f.name, "%s(%d,%d) = %d has the wrong sign", f.name, y, x, gi)
				}
			}
		}
	}

	steps := c.N(200000, 4000000)
	c.Do("grid angles", func() {
		for i := 0; i < steps; i++ {
			th := 2 * math.Pi * (float64(i) + c.R.F64()) / float64(steps)
			m := c.R.LogU(1e-14, 1e29)
			one(float32(m*math.Sin(th)), float32(m*math.Cos(th)))
		}
	})
	c.Do("grid angles unit circle", func() {
		for i := 0; i < steps; i++ {
			th := 2 * math.Pi * float64(i) / float64(steps)
			one(float32(math.Sin(th)), float32(math.Cos(th)))
		}
	})
	c.Do("log ratios", func() {
		for i := 0; i < steps; i++ {
			x, y := c.R.LogU(1e-44, 1e30), c.R.LogU(1e-44, 1e30)
			if c.R.Bool() {
				x = -x
			}
			if c.R.Bool() {
				y = -y
			}
			one(float32(y), float32(x))
		}
	})
	special := []float32{0, float32(math.Copysign(0, -1)), 1e-45, 3e-39, 1.17549435e-38, 1e-30, 1e-21, 1e-20, 2e-20, 1e-15, 1e-10, 1e-5, 0.1, 0.5, 0.99999994, 1, 1.0000001, 2, 3, 10, 127, 128, 1e4, 32767, 32768, 1e8, 1e15, 1e18, 1.8e19, 2e19, 1e25, 1e29}
	c.Do("specials", func() {
		for _, a := range special {
			for _, b := range special {
				for s := 0; s < 4; s++ {
					y, x := a, b
					if s&1 != 0 {
						y = -y
					}
					if s&2 != 0 {
						x = -x
					}
					one(y, x)
				}
			}
		}
	})
	c.Do("octant edges", func() {
		for i := 0; i < c.N(20000, 200000); i++ {
			m := float32(c.R.LogU(1e-14, 1e29))
			n := m
			for k := c.R.Intn(4); k > 0; k-- {
				n = math.Nextafter32(n, float32(math.Inf(1-2*c.R.Intn(2))))
			}
			s := func(v float32) float32 {
				if c.R.Bool() {
					return -v
				}
				return v
			}
			one(s(m), s(n))
			// next to the axes
			t := float32(float64(m) * c.R.LogU(1e-38, 1e-3))
			one(s(t), s(m))
			one(s(m), s(t))
		}
	})
	c.Do("small integers as floats", func() {
		n := c.N(200, 400)
		for y := -n; y <= n; y++ {
			for x := -n; x <= n; x++ {
				one(float32(y), float32(x))
			}
		}
	})
	ng := c.N(260, 700)
	c.Do("fixed grid", func() {
		for y := -ng; y <= ng; y++ {
			for x := -ng; x <= ng; x++ {
				oneInt(y, x)
			}
		}
	})
	c.Do("fixed random", func() {
		for i := 0; i < c.N(300000, 5000000); i++ {
			lim := limLUT
			if c.R.Bool() {
				lim = limFix
			}
			v := func() int {
				x := int(c.R.LogU(1, lim))
				switch c.R.Intn(12) {
				case 0:
					x = 0
				case 1, 2, 3, 4, 5:
					x = -x
				}
				return x
			}
			y, x := v(), v()
			switch c.R.Intn(6) {
			case 0:
				y = x
			case 1:
				y = -x
			case 2: // table ends and steps
				k := 1 + c.R.Intn(131080)
				if a := x % 100000; a != 0 {
					x = a
					y = k*x/256 + c.R.Intn(3) - 1
					if c.R.Bool() {
						x = -x
					}
				}
			}
			oneInt(y, x)
		}
	})
	// every entry of the look-up table
	c.Do("table entries", func() {
		for t := 1; t < 131072+20; t++ {
			for _, q := range [][2]int{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}} {
				oneInt(q[0]*t, q[1]*256)
				got, want := dsp.Atan2LUT(q[0]*t, q[1]*256), math.Atan2(float64(q[0]*t), float64(q[1]*256))/unit
				lim := 1.01
				if t >= 131072 {
					lim = 1.0/512/unit + 1
				}
				if math.Abs(float64(got)-want) > lim {
					c.Fail("table:Atan2LUT", "Atan2LUT(%d,%d) = %d, true %v", q[0]*t, q[1]*256, got, want)
				}
			}
		}
	})
	for k, v := range worst {
		c.Count("max_error_nanorad:"+k, int64(v*1e9))
	}
	c.Sample("%s", fmt.Sprintf("bounds: FastAtan2 %v, FastAtan2_2 %v, Phase32 %v, Atan2LUT %v, FastAtan2Fixed %v", boundAtan2, boundAtan2_2, boundPhase, boundLUT, boundFixed))
}
