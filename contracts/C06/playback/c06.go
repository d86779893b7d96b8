//go:build verif && go1.21

package playback

import (
	"context"
	"math"
	"time"

	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/faiface/beep"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c06Bg is the background sound: it counts what it plays.
type c06Bg struct {
	calls, n int
	mark     float64
}

func (b *c06Bg) Stream(samples [][2]float64) (int, bool) {
	b.calls++
	b.n += len(samples)
	for i := range samples {
		samples[i][0] = b.mark
		samples[i][1] = b.mark
	}
	return len(samples), true
}
func (b *c06Bg) Err() error { return nil }

var _ beep.Streamer = (*c06Bg)(nil)

// c06Dur is the duration of n samples.
func c06Dur(rate int, n int) int64 { return int64(n) * 1000000000 / int64(rate) }

// c06Queue replaces the sample queue by its contract (C05): removing yields the samples in order of
// their addition and waits for them, looking at the front does not remove it.
func c06Queue(src chan timedSample) {
	v.External("(*github.com/LogicalOverflow/music-sync/playback.timedSampleQueue).Remove", func(q *timedSampleQueue) ([2]float64, int64) {
		s := <-src
		return s.sample, s.time
	})
	v.External("(*github.com/LogicalOverflow/music-sync/playback.timedSampleQueue).Peek", func(q *timedSampleQueue) ([2]float64, int64) {
		s := v.ChanAt(src, v.Received(src))
		return s.sample, s.time
	})
}

func c06Streamer(rate int, bg *c06Bg) *timedMultiStreamer {
	v.Requires(1 <= rate && rate <= 1000000)
	return &timedMultiStreamer{format: beep.Format{SampleRate: beep.SampleRate(rate)}, background: bg, samples: newTimedSampleQueue(4)}
}

func c06Marker(s timedSample) bool { return math.IsNaN(s.sample[0]) }

// Aligning: background sound until the first queued sample is due, overdue samples dropped.
func C06_Align(n int, now int64, rate int) {
	v.Requires(0 <= n && n <= 1<<30)
	v.Requires(0 <= now && now < 1<<61)
	src := v.NewSource[timedSample]()
	c06Queue(src)
	v.Assume(v.Forall(v.Received(src), 1<<50, func(i int) bool { t := v.ChanAt(src, i).time; return 0 <= t && t < 1<<62 }))
	bg := &c06Bg{}
	tms := c06Streamer(rate, bg)
	tms.syncing = true
	samples := make([][2]float64, n)
	p := v.Received(src)
	// the first sample that is no silence marker
	first := v.Any[int]()
	v.Assume(p <= first && first < 1<<50 && v.Forall(p, first, func(i int) bool { return c06Marker(v.ChanAt(src, i)) }) && !c06Marker(v.ChanAt(src, first)))
	v.Inv(func() bool { return p <= v.Received(src) && v.Received(src) <= first })
	v.Inv(func() bool { return v.Received(src) >= first })
	v.Inv(func() bool {
		return v.Forall(first, v.Received(src), func(i int) bool { return v.ChanAt(src, i).time < now })
	})
	v.Inv(func(t int64) bool { return t == v.ChanAt(src, v.Received(src)).time })
	v.Inv(func(s [2]float64) bool { return v.SameFloat(s[0], v.ChanAt(src, v.Received(src)).sample[0]) })
	k, drained := tms.streamSync(samples, now)
	r := v.Received(src)
	v.Ensures("nothing beyond the request is played", 0 <= k && k <= n && bg.n == k)
	t := v.ChanAt(src, first).time
	if t > now+c06Dur(rate, n) {
		v.Cover("not due in this buffer")
		v.Ensures("background until the first sample is due", k == n && !drained)
		v.Ensures("no sample is dropped before it is due", r == first)
	} else if t > now {
		v.Cover("due in this buffer")
		v.Ensures("background exactly until the first sample is due", now+c06Dur(rate, k) <= t && (k == n || t < now+c06Dur(rate, k+1)+1))
		v.Ensures("then queued samples are played", drained || t == now+c06Dur(rate, n))
		v.Ensures("no sample is dropped before it is due", r == first)
	} else {
		v.Cover("overdue")
		v.Ensures("no background when a sample is due", k == 0 && drained)
		v.Ensures("exactly the overdue samples are dropped", r >= first && v.Forall(first, r, func(i int) bool { return v.ChanAt(src, i).time < now }))
		v.Ensures("playback continues with the first sample that is not overdue", v.ChanAt(src, r).time >= now)
	}
}

// Aligned: queued samples are played in order until a silence marker.
func C06_Direct(n, rate int) {
	v.Requires(0 <= n && n <= 1<<30)
	src := v.NewSource[timedSample]()
	c06Queue(src)
	bg := &c06Bg{}
	tms := c06Streamer(rate, bg)
	samples := make([][2]float64, n)
	p := v.Received(src)
	v.Inv(func(m int) bool { return v.Forall(p, p+m, func(i int) bool { return !c06Marker(v.ChanAt(src, i)) }) })
	k, drained := tms.streamDirect(samples)
	v.Ensures("the queued samples in order", 0 <= k && k <= n && v.Forall(0, k, func(i int) bool {
		s := v.ChanAt(src, p+i)
		return !c06Marker(s) && v.SameFloat(samples[i][0], s.sample[0]) && v.SameFloat(samples[i][1], s.sample[1])
	}))
	v.Ensures("no background while aligned", bg.calls == 0)
	if drained {
		v.Cover("marker")
		v.Ensures("aligning starts only at a silence marker", c06Marker(v.ChanAt(src, p+k)) && v.Received(src) == p+k+1)
	} else {
		v.Cover("no marker")
		v.Ensures("as many samples as requested", k == n && v.Received(src) == p+n)
	}
}

// Filling a buffer: aligning and playing take turns, the clock advances by what was played, and every
// position of the buffer is filled once.
func C06_Turns(n, rate int, now int64, syncing bool) {
	v.Requires(0 <= n && n <= 1<<30)
	v.Requires(0 <= now && now < 1<<60)
	src := v.NewSource[timedSample]()
	c06Queue(src)
	bg := &c06Bg{}
	tms := c06Streamer(rate, bg)
	tms.syncing = syncing
	all := make([][2]float64, n)
	done, want, clock, clocks := 0, syncing, now, 0
	v.External("github.com/LogicalOverflow/music-sync/timing.GetSyncedTime", func() int64 { clocks++; return now })
	turn := func(samples [][2]float64) (int, bool) {
		v.Assert("the rest of the buffer is filled next", len(samples) == n-done)
		k := v.AnyInt(0, len(samples))
		if k > 0 {
			v.Assert("no position is skipped or filled twice", &samples[0] == &all[done])
		}
		done += k
		clock += c06Dur(rate, k)
		d := v.AnyBool()
		v.Assume(d || k == len(samples))
		if d {
			want = !want
		}
		return k, d
	}
	v.External("(*github.com/LogicalOverflow/music-sync/playback.timedMultiStreamer).streamSync", func(x *timedMultiStreamer, samples [][2]float64, at int64) (int, bool) {
		v.Assert("aligning only while aligning is due", want)
		v.Assert("aligning to the time at which the next sample is heard", at == clock)
		return turn(samples)
	})
	v.External("(*github.com/LogicalOverflow/music-sync/playback.timedMultiStreamer).streamDirect", func(x *timedMultiStreamer, samples [][2]float64) (int, bool) {
		v.Assert("queued samples only when aligned", !want)
		return turn(samples)
	})
	v.Inv(func() bool { return 0 <= done && done <= n && now <= clock && clocks == 1 })
	v.Inv(func() bool { return tms.syncing == want })
	v.Inv(func(s [][2]float64) bool { return len(s) == n-done })
	v.Inv(func(s [][2]float64) bool { return len(s) == 0 || &s[0] == &all[done] })
	v.Inv(func(t int64) bool { return t == clock })
	v.Inv(func() bool { return clock <= now+c06Dur(rate, done) })
	tms.Stream(all)
	v.Ensures("the whole buffer is filled", done == n)
	v.Ensures("aligning is changed only by the turns", tms.syncing == want)
}

// c06Ctx is a context that is canceled after a number of checks.
type c06Ctx struct {
	rounds int
	never  chan struct{}
	done   chan struct{}
}

func (c *c06Ctx) Deadline() (time.Time, bool)     { return time.Time{}, false }
func (c *c06Ctx) Err() error                      { return nil }
func (c *c06Ctx) Value(k interface{}) interface{} { return nil }
func (c *c06Ctx) Done() <-chan struct{} {
	if c.rounds <= 0 {
		return c.done
	}
	c.rounds--
	return c.never
}

var _ context.Context = (*c06Ctx)(nil)

// One round of unpacking, from any list of chunks, while others append chunks: the first chunk's samples
// are queued in order, each with its time, and exactly that chunk is taken off the list.
//
//govc:norun
func C06_ReadChunks(starts []int64, lens []int, rate int) {
	bg := &c06Bg{}
	tms := c06Streamer(rate, bg)
	v.Requires(len(starts) == len(lens))
	chunks := v.Any[[]*queuedChunk]()
	v.Requires(v.Forall(0, len(chunks), func(i int) bool { return chunks[i] != nil }))
	var first queuedChunk
	if len(chunks) > 0 {
		first = *chunks[0]
		v.Requires(len(first.samples) < 1<<30)
		v.Requires(0 <= first.startTime && first.startTime < 1<<61)
	}
	old := v.Snap(chunks)
	tms.chunks = chunks
	out := v.NewSink[timedSample]()
	v.External("(*github.com/LogicalOverflow/music-sync/playback.timedSampleQueue).Add", func(q *timedSampleQueue, s [2]float64, t int64) {
		out <- timedSample{s, t}
	})
	v.Guarded("the list of chunks", &tms.chunksMutex, &tms.chunks)
	more := 0
	v.OnLock(&tms.chunksMutex, func() {
		if v.AnyBool() {
			tms.chunks = append(tms.chunks, &queuedChunk{})
			more++
		}
	})
	stop := make(chan struct{})
	close(stop)
	tms.ReadChunks(&c06Ctx{rounds: 1, never: make(chan struct{}), done: stop})
	if len(old) == 0 {
		v.Cover("no chunk")
		v.Ensures("nothing is lost", len(tms.chunks) == more || len(tms.chunks) == more-1)
		return
	}
	v.Cover("a chunk")
	v.Ensures("every sample of the chunk once", v.Sent(out) == len(first.samples))
	v.Ensures("in order, each with the time it has to be played", v.Forall(0, len(first.samples), func(i int) bool {
		x := v.ChanAt(out, i)
		return x.time == first.startTime+c06Dur(rate, i) && v.SameFloat(x.sample[0], first.samples[i][0]) && v.SameFloat(x.sample[1], first.samples[i][1])
	}))
	v.Ensures("exactly that chunk is taken off", len(tms.chunks) == len(old)-1+more)
	v.Ensures("the others stay in order of arrival", v.Forall(1, len(old), func(i int) bool { return tms.chunks[i-1] == old[i] }))
}

// Unpacking and aligning with the real queue, executed.
//
//govc:bounded
func C06_Unpack(start int64, samples [][2]float64) {
	rate := []int{1000, 8000, 44100, 48000, 7}[v.AnyInt(0, 4)]
	v.Requires(0 <= start && start < 1<<61 && len(samples) < 1000)
	bg := &c06Bg{}
	tms := c06Streamer(rate, bg)
	tms.samples = newTimedSampleQueue(1000)
	tms.chunks = []*queuedChunk{newQueuedStream(start, samples)}
	old := v.Snap(samples)
	stop := make(chan struct{})
	close(stop)
	tms.ReadChunks(&c06Ctx{rounds: 1, never: make(chan struct{}), done: stop})
	v.Ensures("every sample once", tms.samples.Len() == len(old))
	v.Ensures("in order, each with its time", v.Forall(0, len(old), func(i int) bool {
		x := tms.samples.buffer[i]
		return x.time == start+c06Dur(rate, i) && v.SameFloat(x.sample[0], old[i][0]) && v.SameFloat(x.sample[1], old[i][1])
	}))
	v.Ensures("the chunk is taken off", len(tms.chunks) == 0)
}

// A received chunk is put at the end of the list, with its start time and samples.
func C06_Queue(chunks []*queuedChunk, start, id int64, samples [][2]float64, ready bool) {
	old := v.Snap(chunks)
	if !ready {
		streamer = nil
		QueueChunk(start, id, samples)
		v.Ensures("without a player nothing happens", streamer == nil)
		return
	}
	streamer = &timedMultiStreamer{chunks: chunks}
	v.Guarded("the list of chunks", &streamer.chunksMutex, &streamer.chunks)
	QueueChunk(start, id, samples)
	q := streamer.chunks
	v.Ensures("one more chunk", len(q) == len(old)+1)
	v.Ensures("the earlier ones stay in order", v.Forall(0, len(old), func(i int) bool { return q[i] == old[i] }))
	c := q[len(q)-1]
	v.Ensures("with its start time and samples", c != nil && c.startTime == start && len(c.samples) == len(samples) && v.Forall(0, len(samples), func(i int) bool {
		return v.SameFloat(c.samples[i][0], samples[i][0]) && v.SameFloat(c.samples[i][1], samples[i][1])
	}))
}

// Unpacking two chunks and aligning with the real queue, executed.
//
//govc:bounded
func C06_AlignReal(late bool) {
	rates := []int{1000, 8000, 44100, 48000, 7}
	n, lead, gap, rate := v.AnyInt(0, 200), v.AnyInt(0, 3), v.AnyInt(0, 60), rates[v.AnyInt(0, 4)]
	ahead := int64(v.AnyInt(0, 1<<[]int{8, 20, 26, 31, 40}[v.AnyInt(0, 4)]))
	bg := &c06Bg{mark: 7}
	tms := c06Streamer(rate, bg)
	tms.samples = newTimedSampleQueue(1000)
	tms.syncing = true
	now := int64(1) << 50
	start := now - ahead
	if !late {
		start = now + ahead%(c06Dur(rate, n)*2+1)
	}
	for i := 0; i < lead; i++ {
		tms.samples.Add([2]float64{math.NaN(), math.NaN()}, now)
	}
	for i := 0; i < gap; i++ {
		tms.samples.Add([2]float64{float64(i), 0}, start+c06Dur(rate, i))
	}
	last := now + 1<<41
	tms.samples.Add([2]float64{1e6, 0}, last)
	samples := make([][2]float64, n)
	k, drained := tms.streamSync(samples, now)
	v.Ensures("background is what was played", bg.n == k && v.Forall(0, k, func(i int) bool { return samples[i][0] == 7 }))
	s, t := tms.samples.Peek()
	if gap > 0 && start > now {
		v.Ensures("no sample is dropped before it is due", t == start && s[0] == 0)
		v.Ensures("background until the first sample is due", (k == n || drained) && now+c06Dur(rate, k) <= start && (k == n || start < now+c06Dur(rate, k+1)+1))
		return
	}
	if gap > 0 {
		v.Ensures("no background when a sample is due", k == 0 && drained)
		over := 0
		for over < gap && start+c06Dur(rate, over) < now {
			over++
		}
		v.Ensures("exactly the overdue samples are dropped", over == gap && s[0] == 1e6 || over < gap && s[0] == float64(over))
	}
}

// Filling a buffer from the real queue, while the samples arrive (executed).
//
//govc:bounded
func C06_StreamReal(syncing bool) {
	bg := &c06Bg{mark: -7}
	tms := c06Streamer([]int{1000, 44100, 48000}[v.AnyInt(0, 2)], bg)
	tms.samples = newTimedSampleQueue(v.AnyInt(1, 20))
	tms.syncing = syncing
	now := timing.GetSyncedTime()
	due := func() int64 { return now - int64(v.AnyInt(1, 1<<50)) }
	nan := math.NaN()
	n := v.AnyInt(0, 100)
	buf := make([][2]float64, n)
	var arriving []timedSample
	played := 0 // samples that are to be played
	if !syncing {
		for played = v.AnyInt(0, 2*n); len(arriving) < played; {
			i := float64(len(arriving))
			arriving = append(arriving, timedSample{[2]float64{i, -i}, due()})
		}
	}
	for k := v.AnyInt(0, 3); k >= 0; k-- {
		for i := v.AnyInt(1, 4); i > 0; i-- {
			arriving = append(arriving, timedSample{[2]float64{nan, nan}, now})
		}
		if !syncing || len(arriving) == 0 {
			continue
		}
		for i := v.AnyInt(0, 4); i > 0; i-- { // overdue
			arriving = append(arriving, timedSample{[2]float64{1e9, 1e9}, due()})
		}
	}
	late := 0
	if syncing || played < n {
		for late = v.AnyInt(0, 5); late > 0; late-- {
			arriving = append(arriving, timedSample{[2]float64{1e9, 1e9}, due()})
		}
	}
	future := timedSample{[2]float64{5, 6}, now + 1<<50}
	for i := v.AnyInt(1, 3); i > 0; i-- {
		arriving = append(arriving, timedSample{[2]float64{nan, nan}, future.time - 1})
	}
	arriving = append(arriving, future)
	go func() {
		for i, s := range arriving {
			if i%7 == 3 {
				time.Sleep(10 * time.Microsecond)
			}
			tms.samples.Add(s.sample, s.time)
		}
	}()
	done := make(chan struct{})
	go func() { tms.Stream(buf); close(done) }()
	select {
	case <-done:
	case <-time.After(2500 * time.Millisecond):
		v.Ensures("the buffer is filled", false)
	}
	for i := range buf {
		if i < played {
			v.Ensures("the queued samples in order", buf[i] == [2]float64{float64(i), float64(-i)})
		} else {
			v.Ensures("background until the first sample is due", buf[i] == [2]float64{-7, -7})
		}
	}
	for { // what is left
		s, t := tms.samples.Remove()
		if t == future.time {
			v.Ensures("no sample is dropped before it is due", s == future.sample)
			return
		}
	}
}
