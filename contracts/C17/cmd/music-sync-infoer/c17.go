//go:build verif && go1.21

package main

import (
	"sort"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	v "github.com/LogicalOverflow/music-sync/verifspec"
)

const (
	c17Second  = 1000000000
	c17Day     = 86400 * c17Second
	c17MaxRate = 100000
)

// c17Chunks is any list of chunks in the range of real use.
func c17Chunks(n int) []upcomingChunk {
	l := make([]upcomingChunk, n)
	v.HavocSlice(l)
	v.Assume(v.Forall(0, n, func(i int) bool { return c17Real(l[i]) }))
	return l
}

// c17Real: times up to the year 2116, chunks of at most a day.
func c17Real(c upcomingChunk) bool {
	return 0 <= c.startTime && c.startTime < 1<<62 && c.startIndex < 1<<62 && c.size <= 86400*c17MaxRate
}

func c17End(c upcomingChunk, rate int) int64 {
	return c.startTime + int64(c.size)*c17Second/int64(rate)
}

// c17At states what the position is, and what is left of the chunks. p is the number of chunks that have passed.
func c17At(old, kept []upcomingChunk, p int, sample, now int64, rate int) {
	n := len(old)
	v.Ensures("exactly the chunks that ended are dropped", len(kept) == n-p)
	v.Ensures("the other chunks stay as they were, in order", len(kept) == n-p && v.Forall(0, n-p, func(i int) bool { return kept[i] == old[i+p] }))
	if p == n {
		v.Ensures("without a chunk the position is 0", sample == 0)
		return
	}
	elapsed := now - old[p].startTime
	d := (sample-int64(old[p].startIndex))*c17Second - elapsed*int64(rate)
	v.Ensures("the position is that of the first chunk not over", -c17Second < d && d < c17Second)
}

// The position at now. p is the number of chunks that have passed: all before p ended before now, p did not.
//
//govc:norun
func C17_Sample(now int64, rate, p int) {
	v.Requires(0 <= now && now < 1<<62 && 1 <= rate && rate <= c17MaxRate)
	n := v.AnyInt(0, 1<<40)
	old := c17Chunks(n)
	v.Requires(0 <= p && p <= n && v.Forall(0, p, func(i int) bool { return c17End(old[i], rate) < now }))
	if p < n {
		v.Requires(now <= c17End(old[p], rate) && now-old[p].startTime <= c17Day && now-old[p].startTime >= -c17Day)
	}
	schedule.SampleRate = rate
	s := &state{Chunks: append([]upcomingChunk(nil), old...)}
	v.Guarded("the list of chunks", &s.ChunksMutex, &s.Chunks)
	v.Inv(func(i int) bool { return 0 <= i && i <= p })
	v.Inv(func(i int) bool {
		return len(s.Chunks) == n && v.Forall(0, n-p, func(k int) bool { return s.Chunks[k] == old[k+p] })
	})
	sample := s.currentSample(now)
	c17At(old, s.Chunks, p, sample, now, rate)
}

// Dropping chunks. p is the number of chunks that have passed.
//
//govc:norun
func C17_Drop(now int64, rate, p int) {
	v.Requires(0 <= now && now < 1<<62 && 1 <= rate && rate <= c17MaxRate)
	n := v.AnyInt(0, 1<<40)
	old := c17Chunks(n)
	v.Requires(0 <= p && p <= n && v.Forall(0, p, func(i int) bool { return c17End(old[i], rate) < now }))
	v.Requires(p == n || now <= c17End(old[p], rate))
	schedule.SampleRate = rate
	s := &state{Chunks: append([]upcomingChunk(nil), old...)}
	v.Guarded("the list of chunks", &s.ChunksMutex, &s.Chunks)
	v.Inv(func(i int) bool { return 0 <= i && i <= p })
	v.Inv(func(i int) bool {
		return len(s.Chunks) == n && v.Forall(0, n-p, func(k int) bool { return s.Chunks[k] == old[k+p] })
	})
	s.removeOldChunks(now)
	v.Ensures("exactly the chunks that ended are dropped", len(s.Chunks) == n-p)
	v.Ensures("the other chunks stay as they were, in order", len(s.Chunks) == n-p && v.Forall(0, n-p, func(i int) bool { return s.Chunks[i] == old[i+p] }))
}

// c17Sorted describes the sorting of a list of chunks in order followed by one more, x: x comes after the first q chunks.
func c17Sorted(old []upcomingChunk, x upcomingChunk, q int, l []upcomingChunk) bool {
	return len(l) == len(old)+1 && v.Forall(0, len(old)+1, func(i int) bool {
		if i < q {
			return l[i] == old[i]
		} else if i == q {
			return l[i] == x
		}
		return l[i] == old[i-1]
	})
}

// A chunk announced is added as it was announced to the chunks known, in order, all beginning at different indices.
//
//govc:norun
func C17_Arrive(start int64, first, size uint64, q int) {
	k := v.AnyInt(0, 1<<40)
	old := make([]upcomingChunk, k)
	v.HavocSlice(old)
	v.Requires(v.Forall(0, k-1, func(i int) bool { return old[i].startIndex < old[i+1].startIndex }))
	v.Requires(0 <= q && q <= k && v.Forall(0, q, func(i int) bool { return old[i].startIndex < first }))
	v.Requires(v.Forall(q, k, func(i int) bool { return first < old[i].startIndex }))
	currentState = &state{Chunks: append([]upcomingChunk(nil), old...)}
	v.Guarded("the list of chunks", &currentState.ChunksMutex, &currentState.Chunks)
	x := upcomingChunk{startTime: start, startIndex: first, size: size}
	// there is one order only, so any way of sorting will do
	sorted := func(s []upcomingChunk) {
		appended := v.And(len(s) == k+1, v.And(s[k] == x, v.Forall(0, k, func(i int) bool { return s[i] == old[i] })))
		v.HavocSlice(s)
		v.Assume(v.Or(!appended, c17Sorted(old, x, q, s)))
	}
	slice := func(d interface{}, less func(i, j int) bool) {
		s := d.([]upcomingChunk)
		i, j := v.AnyInt(0, k), v.AnyInt(0, k)
		v.Assert("chunks are ordered by stream index", i >= len(s) || j >= len(s) || less(i, j) == (s[i].startIndex < s[j].startIndex))
		sorted(s)
	}
	v.External("sort.Sort", func(d sort.Interface) { sorted([]upcomingChunk(d.(chunksByStartIndex))) })
	v.External("sort.Stable", func(d sort.Interface) { sorted([]upcomingChunk(d.(chunksByStartIndex))) })
	v.External("sort.Slice", slice)
	v.External("sort.SliceStable", slice)
	// the ways an insertion can go: by moving entries from the end, or by looking for the place
	v.Inv(func(i int, l []upcomingChunk) bool { return q <= i && i <= k && c17Sorted(old, x, i, l) })
	v.Inv(func(i int) bool { return q <= i && i <= k && c17Sorted(old, x, i, currentState.Chunks) })
	v.Inv(func(i int) bool { return q <= i && i <= k })
	v.Inv(func(i int) bool { return 0 <= i && i <= q })
	(&infoerPackageHandler{}).HandleChunkInfo(&comm.ChunkInfo{StartTime: start, FirstSampleIndex: first, ChunkSize: size}, nil)
	v.Ensures("one chunk is added", len(currentState.Chunks) == k+1)
	v.Ensures("a chunk is added as announced, in its place", currentState.Chunks[q] == x)
	v.Ensures("the chunks known before stay in order", c17Sorted(old, x, q, currentState.Chunks))
}

// The list is put in order by stream index, every chunk staying whole.
func C17_Order(i, j, k int) {
	n := v.AnyInt(1, v.Bound(1<<40, 8))
	s := make([]upcomingChunk, n)
	v.HavocSlice(s)
	i, j, k = c17In(i, n), c17In(j, n), c17In(k, n)
	old := v.Snap(s)
	l := chunksByStartIndex(s)
	v.Ensures("all chunks are put in order", l.Len() == n)
	v.Ensures("chunks are ordered by stream index", l.Less(i, j) == (s[i].startIndex < s[j].startIndex))
	l.Swap(i, j)
	o := k
	if k == i {
		o = j
	} else if k == j {
		o = i
	}
	v.Ensures("a chunk moves as a whole", s[k] == old[o])
}

func c17In(i, n int) int {
	if i < 0 || i >= n {
		return 0
	}
	return i
}

// Chunks arriving in any order, and the positions at increasing times (executed).
//
//govc:bounded
func C17_Run(seed int) {
	rate := []int{1, 7, 1000, 44100, 48000, 96000, c17MaxRate}[v.AnyInt(0, 6)]
	schedule.SampleRate = rate
	currentState = &state{}
	var known []upcomingChunk
	start, size := int64(v.AnyInt(0, 3))*c17Second, uint64(v.AnyInt(1, 3*rate))
	n := v.AnyInt(0, 40)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
		j := v.AnyInt(0, i)
		idx[i], idx[j] = idx[j], idx[i]
	}
	now := start - c17Second*int64(v.AnyInt(0, 2))
	for len(idx) > 0 || v.AnyInt(0, 3) > 0 {
		if len(idx) > 0 && v.AnyInt(0, 2) > 0 {
			c := upcomingChunk{startTime: start + int64(idx[0])*int64(size)*c17Second/int64(rate), startIndex: 1000 + uint64(idx[0])*size, size: size - uint64(v.AnyInt(0, int(size)/2))}
			if v.AnyInt(0, 5) == 0 { // the server's clock was set
				c.startTime += int64(v.AnyInt(0, 5)) * c17Second
			}
			idx = idx[1:]
			newInfoerPackageHandler().HandleChunkInfo(&comm.ChunkInfo{StartTime: c.startTime, FirstSampleIndex: c.startIndex, ChunkSize: c.size}, nil)
			k := len(known)
			for k > 0 && known[k-1].startIndex > c.startIndex {
				k--
			}
			known = append(known[:k], append([]upcomingChunk{c}, known[k:]...)...)
		}
		if v.AnyInt(0, 2) == 0 {
			if v.AnyBool() && len(known) > 0 {
				now = c17End(known[v.AnyInt(0, len(known)-1)], rate) + int64(v.AnyInt(-1, 1))
			} else {
				now += int64(v.AnyInt(0, c17Second))
			}
			old := append([]upcomingChunk(nil), known...)
			p := 0
			for p < len(known) && c17End(known[p], rate) < now {
				p++
			}
			known = known[p:]
			if v.AnyBool() {
				currentState.removeOldChunks(now)
			}
			sample := currentState.currentSample(now)
			if n := len(currentState.Chunks); n == len(old)-p {
				c17At(old, currentState.Chunks, p, sample, now, rate)
			}
		}
		v.Ensures("the chunks not over are known", len(currentState.Chunks) == len(known))
		for i := range known {
			v.Ensures("the chunks are known as announced and in order", currentState.Chunks[i] == known[i])
		}
	}
}
