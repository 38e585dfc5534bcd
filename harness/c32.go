package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
)

func init() { checks["C32"] = checkC32 }

// C32: whole receivers. An independent transmitter makes the 8-bit I/Q samples of an FM signal a quarter of the sample rate below
// the centre, with packets or DTMF keys as audio; a chain of the package's blocks has to recover them.

const rfRate = 240000

// fmIQ modulates the audio (at rfRate) and returns offset-binary I/Q bytes.
func fmIQ(r *Rand, audio []float64, deviation, offset, level, noise float64) []byte {
	b := make([]byte, 2*len(audio))
	ph := r.Range(0, 2*math.Pi)
	for i, a := range audio {
		ph += 2 * math.Pi * (-rfRate/4 + offset + deviation*a) / rfRate
		if ph > math.Pi {
			ph -= 2 * math.Pi
		} else if ph < -math.Pi {
			ph += 2 * math.Pi
		}
		for k, v := range []float64{math.Cos(ph), math.Sin(ph)} {
			s := math.Round(128 + level*v + noise*r.Norm())
			b[2*i+k] = byte(math.Max(0, math.Min(255, s)))
		}
	}
	return b
}

// rxChain receives: bytes, samples, shift by a quarter of the rate, decimation by 5, FM demodulation, DC blocking.
type rxChain struct {
	rot   dsp.Rotate90Filter
	dec   dsp.LowPassDownsampleComplexFilter
	fm    dsp.FMDemodFilter
	dc    *dsp.DCFilter32
	audio []float32 // at rfRate/5
}

func (x *rxChain) feed(b []byte) {
	iq := make([]complex64, len(b)/2)
	dsp.Ui8toc64(b, iq)
	iq = x.rot.Filter(iq)
	iq = x.dec.Filter(iq)
	out := make([]float32, len(iq))
	n := x.fm.Demodulate(iq, out)
	out = out[:n]
	x.dc.Filter(out, out)
	x.audio = append(x.audio, out...)
}

func newReceiver() *rxChain {
	return &rxChain{dec: dsp.LowPassDownsampleComplexFilter{Downsample: 5}, dc: dsp.NewDCFilter32(0.995)}
}

var worstBlock float64 // largest difference of one audio sample

// receive feeds the stream in blocks, and once more in one piece, which has to give the same audio.
func receive(c *Ctx, what string, iq []byte) []float32 {
	r := c.R
	y := newReceiver()
	y.feed(append([]byte{}, iq...))
	x := newReceiver()
	defer func() {
		if len(x.audio) != len(y.audio) {
			c.Fail("blocks", "%s: %d samples of audio in blocks, %d in one piece", what, len(x.audio), len(y.audio))
			return
		}
		for i := range x.audio {
			if d := math.Abs(float64(x.audio[i] - y.audio[i])); d > worstBlock {
				worstBlock = d
			}
			if d := math.Abs(float64(x.audio[i] - y.audio[i])); !(d <= 2e-2) {
				c.Fail("blocks", "%s: audio sample %d is %v in blocks, %v in one piece", what, i, x.audio[i], y.audio[i])
				return
			}
		}
	}()
	for len(iq) > 0 {
		n := 8 * (1 + r.Intn(4000))
		if r.Intn(4) == 0 {
			n = 8 * (1 + r.Intn(12))
		}
		if n > len(iq) {
			n = len(iq)
		}
		x.feed(append([]byte{}, iq[:n]...))
		iq = iq[n:]
	}
	return x.audio
}

// through16 stores the audio as 16-bit little-endian samples and reads it back.
func through16(a []float32) []float32 {
	b := make([]byte, 2*len(a))
	dsp.F32toi16ble(a, b, 8000)
	out := make([]float32, len(a))
	dsp.I16bleToF32(b, out, 1/8000.0)
	return out
}

func checkC32(c *Ctx) {
	c.Rule = "one evaluation = one message (AX.25 packet or DTMF key) transmitted by an independent modulator and recovered by a chain of the package's blocks; distinct = distinct messages and channels."
	cfgs := flagConfigs()
	pick := func() string {
		fc := cfgs[c.R.Intn(len(cfgs))]
		fc.apply()
		return fc.name
	}
	defer restoreFlags()
	for k := 0; k < c.N(30, 400); k++ {
		c.Do(fmt.Sprintf("packet %d", k), func() {
			set := pick()
			defer restoreFlags()
			var frames []*axFrame
			for i := 0; i < 1+c.R.Intn(3); i++ {
				frames = append(frames, c.R.frame(c.R.Intn(5) == 0, c.R.Intn(4), c.R.Intn(60)))
			}
			s := &bitBuf{}
			for i := 0; i < 12; i++ {
				s.flag()
			}
			for _, f := range frames {
				s.octets(withCRC(f.octets()))
				for i := 1 + c.R.Intn(3); i > 0; i-- {
					s.flag()
				}
			}
			bits := append(s.b, 1, 0)
			// AFSK, NRZI: a zero changes the tone
			audio := make([]float64, 0, len(bits)*200)
			tone, ph := 1, 0.0
			for _, b := range bits {
				if b == 0 {
					tone ^= 1
				}
				f := []float64{2200, 1200}[tone]
				for i := 0; i < rfRate/1200; i++ {
					ph += 2 * math.Pi * f / rfRate
					audio = append(audio, math.Sin(ph))
				}
			}
			offset, level, noise := c.R.Range(-1500, 1500), c.R.Range(30, 115), c.R.Range(0, 2)
			iq := fmIQ(c.R, audio, c.R.Range(2500, 4500), offset, level, noise)
			what := fmt.Sprintf("%d frames, level %.0f, noise %.1f, offset %.0f Hz, %s", len(frames), level, noise, offset, set)
			a := receive(c, what, iq)
			if c.R.Bool() {
				a = through16(a)
			}
			c.Seen(hashS(what, k), true)
			if want := len(audio) / 5; len(a) != want {
				c.Fail("length", "%s: %d samples of audio, want %d", what, len(a), want)
				return
			}
			// tones bit by bit, back to bits
			d := ax25.NewDecoder()
			var got []*ax25.Frame
			last := -1
			det := dsp.NewGoertzel32([]uint64{1200, 2200}, rfRate/5, 40)
			det64 := dsp.NewGoertzel([]uint64{1200, 2200}, rfRate/5, 40)
			for i := 0; i+40 <= len(a); i += 40 {
				var t int
				if k%2 == 0 {
					det.Reset()
					h := c.R.Intn(41)
					det.Feed(a[i : i+h])
					det.Feed(a[i+h : i+40])
					m := det.Magnitude()
					t = btoi(m[0] > m[1])
				} else {
					x := make([]float64, 40)
					for j := range x {
						x[j] = float64(a[i+j])
					}
					det64.Reset()
					det64.Feed(x)
					m := det64.Magnitude()
					t = btoi(m[0] > m[1])
				}
				if f := d.Feed(btoi(t == last)); f != nil {
					got = append(got, f)
				}
				last = t
			}
			if len(got) != len(frames) {
				c.Fail("packets", "%s: %d packets recovered", what, len(got))
				return
			}
			for i, f := range frames {
				w := f.want()
				if dd := axDiff(got[i], w, axHasPID(f.control)); dd != "" {
					c.Fail("packets", "%s: packet %d: %s", what, i, dd)
				}
				if axHasPID(f.control) && !bytes.Equal(got[i].Info, f.info) {
					c.Fail("packets", "%s: packet %d: information differs", what, i)
				}
				c.Count("packets_recovered", 1)
			}
			c.Sample("%s: %s", what, frames[0])
		})
	}
	for k := 0; k < c.N(30, 400); k++ {
		c.Do(fmt.Sprintf("keys %d", k), func() {
			set := pick()
			defer restoreFlags()
			block := []int{256, 320, 400}[c.R.Intn(3)] // at 8 kHz
			n := 4 + c.R.Intn(10)
			keys := make([]int, n)
			var audio []float64
			for i := range keys {
				keys[i] = c.R.Intn(16)
				lo, hi := float64(stdLow[keys[i]/4]), float64(stdHigh[keys[i]%4])
				p1, p2, tw := c.R.Range(0, 7), c.R.Range(0, 7), c.R.Range(0.75, 1.3)
				for j := 0; j < block*30; j++ {
					t := 2 * math.Pi * float64(len(audio)) / rfRate
					audio = append(audio, 0.45*(math.Sin(t*lo+p1)*tw+math.Sin(t*hi+p2)/tw))
				}
			}
			offset, level, noise := c.R.Range(-1500, 1500), c.R.Range(30, 115), c.R.Range(0, 2)
			iq := fmIQ(c.R, audio, c.R.Range(2500, 4500), offset, level, noise)
			what := fmt.Sprintf("keys %v, block %d, level %.0f, noise %.1f, offset %.0f Hz, %s", keys, block, level, noise, offset, set)
			a := receive(c, what, iq)
			c.Seen(hashS(what), true)
			// 48 kHz to 8 kHz
			rd := &dsp.LowPassDownsampleRationalFilter{Fast: 6, Slow: 1}
			if c.R.Bool() {
				rd.Fast, rd.Slow = 48000, 8000
			}
			var low []float32
			for len(a) > 0 {
				m := 1 + c.R.Intn(900)
				if m > len(a) {
					m = len(a)
				}
				low = append(low, rd.Filter(append([]float32{}, a[:m]...))...)
				a = a[m:]
			}
			if len(low) != block*n {
				c.Fail("length", "%s: %d samples at 8 kHz, want %d", what, len(low), block*n)
				return
			}
			d := dtmf.NewStandard(8000, block)
			for i, key := range keys {
				got, _ := d.Feed(low[i*block : (i+1)*block])
				if got != key {
					c.Fail("keys", "%s: key %d is recognised as %d", what, i, got)
				}
				c.Count("keys_recovered", 1)
			}
		})
	}
	c.Note("largest difference of an audio sample between the stream in blocks and in one piece: %.2g rad", worstBlock)
}
