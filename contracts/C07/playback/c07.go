//go:build verif && go1.21

package playback

import (
	"context"
	"math"
	"time"

	"github.com/faiface/beep"
	"github.com/hajimehoshi/oto"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c07Level is the 16-bit level of the value x: scaled to full scale and clipped to it.
func c07Level(x float64) int {
	if x >= 1 {
		return 32767
	}
	if x <= -1 {
		return -32768
	}
	return int(x * 32768)
}

// c07Read reads a little-endian 16-bit level.
func c07Read(low, high byte) int {
	n := int(low) + 256*int(high)
	if n >= 32768 {
		n -= 65536
	}
	return n
}

// One value: the clipped and scaled level, for every float that is a number, infinities included.
//
//govc:reals
func C07_Convert(x float64) {
	v.Requires(!math.IsNaN(x))
	low, high := convertSampleToBytes(x)
	n := c07Read(low, high)
	v.Ensures("the scaled value, clipped to full scale", n == c07Level(x))
	v.Ensures("the sign is never turned", x <= 0 || n >= 0)
	v.Ensures("the sign is never turned down", x >= 0 || n <= 0)
	if x >= 1 {
		v.Cover("full scale")
		v.Ensures("full scale", n == 32767)
	}
	if x <= -1 {
		v.Cover("negative full scale")
		v.Ensures("negative full scale", n == -32768)
	}
}

// Louder input never gives a smaller output.
//
//govc:reals
func C07_Monotone(x, y float64) {
	v.Requires(x <= y)
	xl, xh := convertSampleToBytes(x)
	yl, yh := convertSampleToBytes(y)
	v.Ensures("louder input never gives a smaller output", c07Read(xl, xh) <= c07Read(yl, yh))
}

// The buffer holds the frames in order, left before right, whatever the volume.
//
//govc:reals quant
func C07_Layout(samples [][2]float64, vol float64) {
	n := len(samples)
	v.Requires(n <= 1<<40)
	v.Requires(v.Forall(0, n, func(i int) bool { return !math.IsNaN(samples[i][0]*vol) && !math.IsNaN(samples[i][1]*vol) }))
	SetVolume(vol)
	buf := make([]byte, 4*n)
	v.Inv(func(m int) bool {
		return v.Forall(0, m, func(i int) bool {
			return c07Read(buf[4*i], buf[4*i+1]) == c07Level(samples[i][0]*vol) && c07Read(buf[4*i+2], buf[4*i+3]) == c07Level(samples[i][1]*vol)
		})
	})
	samplesToAudioBuf(samples, buf)
	v.Ensures("left before right, frame by frame", v.Forall(0, n, func(i int) bool {
		return c07Read(buf[4*i], buf[4*i+1]) == c07Level(samples[i][0]*vol) && c07Read(buf[4*i+2], buf[4*i+3]) == c07Level(samples[i][1]*vol)
	}))
}

// Blocks of real sizes, with the values of the edges (executed).
//
//govc:bounded
func C07_Blocks(seed int) {
	n := v.AnyInt(0, 64)
	switch v.AnyInt(0, 9) {
	case 0:
		n = v.AnyInt(0, 5000)
	case 1:
		n = v.AnyInt(16000, 70000)
	}
	value := func() float64 {
		switch v.AnyInt(0, 3) {
		case 0:
			return []float64{0, 1, -1, 2, -2, 0.5, 1e300, -1e300, math.Inf(1), math.Inf(-1), 32767.0 / 32768, -32767.0 / 32768}[v.AnyInt(0, 11)]
		case 1:
			return float64(v.AnyInt(-40000, 40000)) / 32768
		}
		return float64(v.AnyInt(-1<<40, 1<<40)) / (1 << 40)
	}
	some := make([]float64, 24)
	for i := range some {
		some[i] = value()
	}
	vol := []float64{1, 0.1, 2, 0.5, 1e-3}[v.AnyInt(0, 4)]
	SetVolume(vol)
	samples, buf := make([][2]float64, n), make([]byte, 4*n)
	step := v.AnyInt(1, 23)
	for i := range samples {
		samples[i] = [2]float64{some[i*step%24], some[(i*step+7)%24]}
	}
	samplesToAudioBuf(samples, buf)
	for i, s := range samples {
		ok := c07Read(buf[4*i], buf[4*i+1]) == c07Level(s[0]*vol) && c07Read(buf[4*i+2], buf[4*i+3]) == c07Level(s[1]*vol)
		v.Ensures("left before right, frame by frame", ok)
	}
}

// The channels are combined position by position as far as the shorter one reaches.
func C07_Combine(low, high []float64) {
	e := len(low)
	if len(high) < e {
		e = len(high)
	}
	oldLow, oldHigh := v.Snap(low), v.Snap(high)
	s := CombineSamples(low, high)
	v.Ensures("as far as the shorter one reaches", len(s) == e)
	v.Ensures("position by position, channels apart", v.Forall(0, e, func(i int) bool {
		return v.SameFloat(s[i][0], oldLow[i]) && v.SameFloat(s[i][1], oldHigh[i])
	}))
	v.Ensures("the arrays are left as they are", v.Forall(0, len(low), func(i int) bool { return v.SameFloat(low[i], oldLow[i]) }) &&
		v.Forall(0, len(high), func(i int) bool { return v.SameFloat(high[i], oldHigh[i]) }))
}

// c07Ctx is a context that is canceled after a number of checks.
type c07Ctx struct {
	rounds      int
	never, done chan struct{}
}

func (c *c07Ctx) Deadline() (time.Time, bool)     { return time.Time{}, false }
func (c *c07Ctx) Err() error                      { return nil }
func (c *c07Ctx) Value(k interface{}) interface{} { return nil }
func (c *c07Ctx) Done() <-chan struct{} {
	if c.rounds <= 0 {
		return c.done
	}
	c.rounds--
	return c.never
}

var _ context.Context = (*c07Ctx)(nil)

// The play loop fills a whole buffer of frames and writes it, converted, once to the sound device.
//
//govc:norun
//govc:reals
func C07_Loop(size, rounds int, vol float64) {
	v.Requires(0 <= size && size <= 1<<30 && 0 <= rounds)
	format = beep.Format{SampleRate: 44100, NumChannels: 2, Precision: 2}
	bufferSize = size
	volume = vol
	streamer = &timedMultiStreamer{}
	filled, written := 0, 0
	left, right, gleft, gright := 0.0, 0.0, 0, 0
	j := v.AnyInt(0, size)
	v.Assume(j < size)
	v.External("(*github.com/LogicalOverflow/music-sync/playback.timedMultiStreamer).Stream", func(x *timedMultiStreamer, samples [][2]float64) {
		v.Assert("a whole buffer is requested", len(samples) == size && x == streamer && filled == written)
		filled++
		left, right = v.Any[float64](), v.Any[float64]()
		samples[j][0], samples[j][1] = left, right
	})
	v.External("github.com/LogicalOverflow/music-sync/playback.samplesToAudioBuf", func(samples [][2]float64, buf []byte) {
		v.Assert("every frame is converted", len(samples) == size && len(buf) == 4*size && v.SameFloat(samples[j][0], left) && v.SameFloat(samples[j][1], right))
		gleft, gright = v.AnyInt(0, 255), v.AnyInt(0, 255)
		buf[4*j], buf[4*j+2] = byte(gleft), byte(gright)
	})
	v.External("(*github.com/hajimehoshi/oto.Player).Write", func(p *oto.Player, buf []byte) (int, error) {
		v.Assert("the device gets the converted frames, once", filled == written+1 && len(buf) == 4*size && buf[4*j] == byte(gleft) && buf[4*j+2] == byte(gright))
		written++
		return len(buf), nil
	})
	stop := make(chan struct{})
	close(stop)
	v.Inv(func() bool { return filled == written })
	playLoop(&c07Ctx{rounds: rounds, never: make(chan struct{}), done: stop})
	v.Ensures("every buffer is played", filled == written)
}
