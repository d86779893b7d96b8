//go:build verif && go1.21

package playback

import (
	"sync"
	"time"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c05 remembers the content a queue had when its lock was last taken (or when nobody else could change it).
type c05 struct {
	q    *timedSampleQueue
	n    int // samples in it
	tail int
	buf  []timedSample
}

func c05Count(q *timedSampleQueue) int {
	d := q.head - q.tail
	if d < 0 {
		d += 2 * len(q.buffer)
	}
	return d
}

func c05Valid(q *timedSampleQueue) bool {
	n := len(q.buffer)
	return 0 <= q.head && q.head < 2*n && 0 <= q.tail && q.tail < 2*n && c05Count(q) <= n
}

// at is the i-th sample of a queue whose front is at tail.
func c05At(buf []timedSample, tail, i int) timedSample {
	k := tail + i
	if k >= 2*len(buf) {
		k -= 2 * len(buf)
	}
	if k >= len(buf) {
		k -= len(buf)
	}
	return buf[k]
}

func c05Same(a, b timedSample) bool {
	return a.time == b.time && v.SameFloat(a.sample[0], b.sample[0]) && v.SameFloat(a.sample[1], b.sample[1])
}

// c05Any is any queue with a given capacity.
func c05Any(n, head, tail int) *c05 {
	v.Requires(1 <= n && n < 1<<20)
	q := newTimedSampleQueue(n)
	v.HavocSlice(q.buffer)
	q.head, q.tail = head, tail
	v.Requires(c05Valid(q))
	c := &c05{q: q}
	c.look()
	return c
}

func (c *c05) look() {
	c.n, c.tail, c.buf = c05Count(c.q), c.q.tail, v.Snap(c.q.buffer)
}

// unchanged: the queue holds what was last seen.
func (c *c05) unchanged() bool {
	return c05Valid(c.q) && c05Count(c.q) == c.n && c.q.tail == c.tail && len(c.q.buffer) == len(c.buf) &&
		v.Forall(0, len(c.buf), func(i int) bool { return c05Same(c.q.buffer[i], c.buf[i]) })
}

// others lets other goroutines change the queue in any way whenever its lock is free.
func (c *c05) others() {
	q := c.q
	v.Guarded("the head of the queue", q.cond.L, &q.head)
	v.Guarded("the tail of the queue", q.cond.L, &q.tail)
	v.OnLock(q.cond.L, func() {
		v.Havoc(&q.head)
		v.Havoc(&q.tail)
		v.HavocSlice(q.buffer)
		v.Assume(c05Valid(q))
		c.look()
	})
	v.Inv(func() bool { return c.unchanged() })
}

func (c *c05) added(sample [2]float64, time int64) {
	q := c.q
	v.Ensures("a full queue is waited for, never overwritten", c.n < len(q.buffer))
	v.Ensures("positions stay valid", c05Valid(q) && len(q.buffer) == len(c.buf))
	v.Ensures("one more sample", c05Count(q) == c.n+1)
	v.Ensures("the samples before it are kept in order", v.Forall(0, c.n, func(i int) bool {
		return c05Same(c05At(q.buffer, q.tail, i), c05At(c.buf, c.tail, i))
	}))
	v.Ensures("the new sample is last, with its time", c05Same(c05At(q.buffer, q.tail, c.n), timedSample{sample, time}))
}

func (c *c05) removed(sample [2]float64, time int64) {
	q := c.q
	v.Ensures("an empty queue is waited for", c.n > 0)
	v.Ensures("positions stay valid", c05Valid(q) && len(q.buffer) == len(c.buf))
	v.Ensures("the oldest sample leaves, with its time", c05Same(timedSample{sample, time}, c05At(c.buf, c.tail, 0)))
	v.Ensures("one sample less", c05Count(q) == c.n-1)
	v.Ensures("the others are kept in order", v.Forall(1, c.n, func(i int) bool {
		return c05Same(c05At(q.buffer, q.tail, i-1), c05At(c.buf, c.tail, i))
	}))
}

func (c *c05) peeked(sample [2]float64, time int64) {
	v.Ensures("an empty queue is waited for", c.n > 0)
	v.Ensures("the oldest sample is seen, with its time", c05Same(timedSample{sample, time}, c05At(c.buf, c.tail, 0)))
	v.Ensures("looking changes nothing", c.unchanged())
}

// The operations on any queue.
func C05_Add(n, head, tail int, l, r float64, time int64) {
	c := c05Any(n, head, tail)
	v.Requires(c.n < n)
	c.q.Add([2]float64{l, r}, time)
	c.added([2]float64{l, r}, time)
	v.Ensures("the length is the number of samples", c.q.Len() == c.n+1 && c.q.Cap() == n)
	v.Ensures("full exactly at the capacity", c.q.full() == (c.n+1 == n) && !c.q.empty())
}

func C05_Remove(n, head, tail int) {
	c := c05Any(n, head, tail)
	v.Requires(c.n > 0)
	s, t := c.q.Remove()
	c.removed(s, t)
	v.Ensures("the length is the number of samples", c.q.Len() == c.n-1 && c.q.Cap() == n)
	v.Ensures("empty exactly without samples", c.q.empty() == (c.n == 1) && !c.q.full())
}

func C05_Peek(n, head, tail int) {
	c := c05Any(n, head, tail)
	v.Requires(c.n > 0)
	s, t := c.q.Peek()
	c.peeked(s, t)
	s2, t2 := c.q.Remove()
	v.Ensures("the sample seen is the next one removed", c05Same(timedSample{s, t}, timedSample{s2, t2}))
}

func C05_Len(n, head, tail int) {
	c := c05Any(n, head, tail)
	v.Ensures("the length is the number of samples", c.q.Len() == c.n)
	v.Ensures("never more than the capacity", c.n <= c.q.Cap() && c.q.Cap() == n)
	v.Ensures("full exactly at the capacity", c.q.full() == (c.n == n))
	v.Ensures("empty exactly without samples", c.q.empty() == (c.n == 0))
	v.Ensures("asking changes nothing", c.unchanged())
}

// A new queue is empty and has the capacity asked for.
func C05_New(n int) {
	v.Requires(1 <= n && n < 1<<20)
	q := newTimedSampleQueue(n)
	v.Ensures("a new queue is empty", q.Len() == 0 && q.empty() && q.Cap() == n)
	v.Ensures("and valid", c05Valid(q))
}

// The same operations while other goroutines use the queue: each acts on the content the queue has at that
// moment, and waits as long as it cannot act.
//
//govc:norun
func C05_AddShared(n, head, tail int, l, r float64, time int64) {
	c := c05Any(n, head, tail)
	c.others()
	c.q.Add([2]float64{l, r}, time)
	c.added([2]float64{l, r}, time)
}

//govc:norun
func C05_RemoveShared(n, head, tail int) {
	c := c05Any(n, head, tail)
	c.others()
	s, t := c.q.Remove()
	c.removed(s, t)
}

//govc:norun
func C05_PeekShared(n, head, tail int) {
	c := c05Any(n, head, tail)
	c.others()
	s, t := c.q.Peek()
	c.peeked(s, t)
}

//govc:norun
func C05_LenShared(n, head, tail int) {
	c := c05Any(n, head, tail)
	c.others()
	l := c.q.Len()
	v.Ensures("the length is the number of samples", l == c.n)
	v.Ensures("asking changes nothing", c.unchanged())
}

// Whoever waits is woken when he can go on: a producer waits while the queue is full, a consumer while it is empty.
// Waking only one of those who wait is enough only if it is done after every change.
//
//govc:norun
func C05_Wake(n, head, tail int, add bool, l, r float64, time int64) {
	all, one := 0, 0
	v.External("(*sync.Cond).Broadcast", func(*sync.Cond) { all++ })
	v.External("(*sync.Cond).Signal", func(*sync.Cond) { one++ })
	c := c05Any(n, head, tail)
	w := newTimedSampleQueue(n) // a queue for which somebody may be waiting
	if !add {
		w.head = n
	}
	if add {
		v.Requires(c.n < n)
		w.Add([2]float64{l, r}, time)
	} else {
		v.Requires(c.n > 0)
		w.Remove()
	}
	v.Ensures("waiting goroutines are woken after a change", all+one > 0)
	single := all == 0
	all, one = 0, 0
	if add {
		c.q.Add([2]float64{l, r}, time)
	} else {
		c.q.Remove()
	}
	v.Ensures("waking one of them happens after every change", !single || all+one > 0)
	v.Ensures("waiting goroutines are woken whenever the queue was empty or full", all+one > 0 || add && c.n > 0 || !add && c.n < n)
}

// c05In waits for f to return.
func c05In(f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(2500 * time.Millisecond):
		return false
	}
}

// A queue takes as many samples as its capacity says, and gives them back in order (executed).
//
//govc:bounded
func C05_Fill(seed int) {
	n := v.AnyInt(1, 40)
	q := newTimedSampleQueue(n)
	for round := 0; round < 3; round++ {
		k := v.AnyInt(0, n)
		if round == 1 {
			k = n
		}
		v.Ensures("a queue takes as many samples as its capacity", c05In(func() {
			for i := 0; i < k; i++ {
				q.Add([2]float64{float64(i), float64(-i)}, int64(i))
			}
		}))
		v.Ensures("the length is the number of samples", q.Len() == k && q.Cap() == n)
		for i := 0; i < k; i++ {
			s, t := q.Peek()
			r, u := q.Remove()
			v.Ensures("the sample seen is the next one removed", s == r && t == u)
			v.Ensures("samples leave in order, with their times", r == [2]float64{float64(i), float64(-i)} && u == int64(i))
		}
		v.Ensures("the length is the number of samples", q.Len() == 0)
	}
}

// Producers and consumers at the same time (executed).
//
//govc:bounded
func C05_Run(seed int) {
	n := v.AnyInt(1, 6)
	q := newTimedSampleQueue(n)
	producers, consumers := v.AnyInt(1, 3), v.AnyInt(1, 3)
	each := consumers * v.AnyInt(0, 60)
	got := make([][]int64, consumers)
	v.Ensures("whoever waits for the queue is woken", c05In(func() {
		var wg sync.WaitGroup
		for p := 0; p < producers; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for i := 0; i < each; i++ {
					q.Add([2]float64{float64(p), float64(i)}, int64(p*1000+i))
				}
			}(p)
		}
		for c := 0; c < consumers; c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				for i := 0; i < each*producers/consumers; i++ {
					if consumers == 1 {
						q.Peek()
					}
					s, t := q.Remove()
					if int64(s[0])*1000+int64(s[1]) != t {
						t = -1
					}
					got[c] = append(got[c], t)
				}
			}(c)
		}
		wg.Wait()
	}))
	seen := map[int64]bool{}
	for _, g := range got {
		last := make([]int64, producers)
		for _, t := range g {
			v.Ensures("samples keep their times", t >= 0 && t < int64(producers)*1000)
			v.Ensures("no sample leaves twice", !seen[t])
			seen[t] = true
			v.Ensures("samples leave in the order they were added", last[t/1000] <= t)
			last[t/1000] = t
		}
	}
	v.Ensures("no sample is lost", len(seen) == producers*each && q.Len() == 0)
}
