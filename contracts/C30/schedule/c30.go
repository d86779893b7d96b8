//go:build verif && go1.21

package schedule

import (
	"context"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/timing"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/faiface/beep/mp3"
	"github.com/golang/protobuf/proto"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sync"
	"time"
)

// c30Stream is the stream being cut into chunks and what was sent of it so far.
type c30Stream struct {
	size      int
	duration  time.Duration
	first     uint64    // the stream index of the first sample
	start     int64     // the start time of the stream
	filled    int       // chunks read
	low, high []float64 // the samples read last
	chunks    int       // chunks sent
	infos     int       // chunks announced
	watched   int       // the chunk looked at closer
	kept      bool      // it has been sent, with
	sentLow   []float64 // these samples
	sentHigh  []float64
	keptLow   []float64 // which were then
	keptHigh  []float64
}

func (s *c30Stream) startOf(n int) int64 { return s.start + int64(n)*int64(s.duration) }

func (s *c30Stream) indexOf(n int) uint64 { return s.first + uint64(n*s.size) }

func c30Same(a, b []float64) bool {
	return len(a) == len(b) && v.Forall(0, len(a), func(i int) bool { return v.SameFloat(a[i], b[i]) })
}

// keeps states that the samples of the watched chunk are still those sent (sending happens in the background).
func (s *c30Stream) keeps() bool {
	return !s.kept || c30Same(s.sentLow, s.keptLow) && c30Same(s.sentHigh, s.keptHigh)
}

type c30Sender struct{ s *c30Stream }

func (x c30Sender) SendMessage(m proto.Message) error {
	s := x.s
	n := s.filled - 1
	v.Assert("nothing is sent before the first chunk is read", n >= 0)
	switch m := m.(type) {
	case *comm.QueueChunkRequest:
		v.Assert("every chunk is sent once", s.chunks == n)
		v.Assert("chunks are numbered without gaps", m.ChunkId == int64(n))
		v.Assert("a chunk is stamped with the stream start time plus its number times the chunk duration", m.StartTime == s.startOf(n))
		v.Assert("a chunk carries the stream index of its first sample", m.FirstSampleIndex == s.indexOf(n))
		v.Assert("a chunk carries exactly the next samples", c30Same(m.SampleLow, s.low) && c30Same(m.SampleHigh, s.high))
		v.Cover("a chunk")
		if n == s.watched {
			s.kept, s.sentLow, s.sentHigh, s.keptLow, s.keptHigh = true, m.SampleLow, m.SampleHigh, s.low, s.high
		}
		s.chunks++
	case *comm.ChunkInfo:
		v.Assert("every chunk is announced once", s.infos == n)
		v.Assert("a chunk is announced with its start time", m.StartTime == s.startOf(n))
		v.Assert("a chunk is announced with its index", m.FirstSampleIndex == s.indexOf(n))
		v.Assert("a chunk is announced with its size", m.ChunkSize == uint64(s.size))
		v.Cover("an announcement")
		s.infos++
	default:
		v.Assert("only chunks and their announcements are sent", false)
	}
	return v.Any[error]()
}

// Streaming, for as long as it may go on.
//
//govc:norun
//govc:endless
func C30_Stream(first uint64, watched int) {
	StreamChunkSize, StreamChunkTime = v.Any[int](), v.Any[time.Duration]()
	StreamDelay, StreamStartDelay = v.Any[time.Duration](), v.Any[time.Duration]()
	v.Requires(0 < StreamChunkSize && StreamChunkSize <= 1<<40 && 0 < StreamChunkTime && 0 <= watched)
	s := &c30Stream{size: StreamChunkSize, duration: StreamChunkTime, first: first, watched: watched}
	ss := &serverState{sender: c30Sender{s}, playlist: &playback.Playlist{}}
	slept := false
	v.External("time.Sleep", func(d time.Duration) {
		v.Assert("streaming waits for the start delay", d == StreamStartDelay && !slept && s.filled == 0)
		slept = true
	})
	v.External("github.com/LogicalOverflow/music-sync/timing.GetSyncedTime", func() int64 {
		v.Assert("the start time is taken once, after the start delay", slept && s.start == 0)
		now := v.Any[int64]()
		s.start = now + int64(StreamDelay)
		v.Assume(s.start != 0)
		return now
	})
	v.External("time.Tick", func(d time.Duration) <-chan time.Time {
		v.Assert("a chunk is sent every chunk duration", d == s.duration)
		return v.NewSource[time.Time]()
	})
	v.External("(*github.com/LogicalOverflow/music-sync/playback.Playlist).Fill", func(pl *playback.Playlist, l, h []float64) uint64 {
		v.Assert("the samples come from the playlist", pl == ss.playlist)
		v.Assert("every chunk is sent and announced", s.chunks == s.filled && s.infos == s.filled)
		v.Assert("a chunk has the chunk size", len(l) == s.size && len(h) == s.size)
		n := s.filled
		v.HavocSlice(l)
		v.HavocSlice(h)
		v.Assert("sent samples are not overwritten", s.keeps())
		s.low, s.high = append([]float64(nil), l...), append([]float64(nil), h...)
		s.filled++
		return s.indexOf(n)
	})
	v.Inv(func(m int) bool { return s.filled == m && s.chunks == m && s.infos == m })
	v.Inv(func() bool { return s.keeps() })
	v.Inv(func() bool { return s.start != 0 })
	ss.streamMusic()
	v.Ensures("streaming never ends", false)
}

// c30Log collects what is sent.
type c30Log struct {
	mu     sync.Mutex
	chunks map[int64]*comm.QueueChunkRequest
	infos  []*comm.ChunkInfo
	twice  bool
	others bool
}

func (l *c30Log) SendMessage(m proto.Message) error {
	m = proto.Clone(m)
	l.mu.Lock()
	defer l.mu.Unlock()
	switch m := m.(type) {
	case *comm.QueueChunkRequest:
		l.twice = l.twice || l.chunks[m.ChunkId] != nil
		l.chunks[m.ChunkId] = m
	case *comm.ChunkInfo:
		l.infos = append(l.infos, m)
	default:
		l.others = true
	}
	return nil
}

// announced counts the announcements of c as it is.
func (l *c30Log) announced(c *comm.QueueChunkRequest, size int) int {
	n := 0
	for _, in := range l.infos {
		if in.StartTime == c.StartTime && in.FirstSampleIndex == c.FirstSampleIndex && in.ChunkSize == uint64(size) {
			n++
		}
	}
	return n
}

// all tells whether the first n chunks have been sent and announced.
func (l *c30Log) all(n, size int) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	for i := 0; i < n; i++ {
		if c := l.chunks[int64(i)]; c == nil || l.announced(c, size) == 0 {
			return false
		}
	}
	return true
}

var c30Song [][2]float64

// c30Decoded are the samples of the song at path.
func c30Decoded(path string) [][2]float64 {
	if c30Song == nil {
		f, err := os.Open(path)
		v.Requires(err == nil)
		s, _, err := mp3.Decode(f)
		v.Requires(err == nil)
		defer s.Close()
		c30Song = make([][2]float64, 40000)
		n, _ := s.Stream(c30Song)
		c30Song = c30Song[:n]
	}
	return c30Song
}

// The same with a real song, real time and goroutines (executed).
//
//govc:bounded
func C30_Run(seed int) {
	size, ms := v.AnyInt(1, 300), v.AnyInt(1, 2)
	oldDir, oldSize, oldTime, oldDelay, oldStart := playback.AudioDir, StreamChunkSize, StreamChunkTime, StreamDelay, StreamStartDelay
	pc := reflect.ValueOf(Server).Pointer()
	src, _ := runtime.FuncForPC(pc).FileLine(pc)
	playback.AudioDir = filepath.Join(filepath.Dir(src), "..", "playback", "_playback_test_files")
	song := c30Decoded(filepath.Join(playback.AudioDir, "okay.mp3"))
	StreamChunkSize, StreamChunkTime, StreamDelay, StreamStartDelay = size, time.Duration(ms)*time.Millisecond+time.Duration(v.AnyInt(0, 999)), time.Duration(v.AnyInt(0, 100))*time.Second, time.Millisecond
	duration := int64(StreamChunkTime)
	pl := playback.NewPlaylist(1000, []string{"okay.mp3"}, 16)
	pl.SetPlaying(true)
	l := &c30Log{chunks: map[int64]*comm.QueueChunkRequest{}}
	ss := &serverState{sender: l, playlist: pl}
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan struct{})
	go func() { pl.StreamLoop(ctx); close(ended) }()
	before := timing.GetSyncedTime() + int64(StreamDelay) + int64(StreamStartDelay)
	go ss.streamMusic()
	want := v.AnyInt(1, 10)
	for t0 := time.Now(); !l.all(want, size) && time.Since(t0) < 2*time.Second; {
		time.Sleep(time.Millisecond)
	}
	after := timing.GetSyncedTime() + int64(StreamDelay)
	cancel()
	pl.SetPos(0)
	for stopped := false; !stopped; {
		select {
		case <-ended:
			stopped = true
		case <-time.After(time.Millisecond):
		}
	}
	time.Sleep(5 * time.Duration(ms) * time.Millisecond) // streaming now waits for samples, for ever
	playback.AudioDir, StreamChunkSize, StreamChunkTime, StreamDelay, StreamStartDelay = oldDir, oldSize, oldTime, oldDelay, oldStart
	l.mu.Lock()
	defer l.mu.Unlock()
	v.Ensures("only chunks and announcements, each chunk once, are sent", !l.others && !l.twice)
	c0 := l.chunks[0]
	v.Ensures("chunks are numbered from 0", c0 != nil)
	v.Ensures("the stream starts after the start delay, by the stream delay later", before <= c0.StartTime && c0.StartTime <= after)
	for n := 0; n < want; n++ {
		c := l.chunks[int64(n)]
		v.Ensures("chunks are numbered without gaps", c != nil)
		v.Ensures("a chunk is stamped with the stream start time plus its number times the chunk duration", c.StartTime == c0.StartTime+int64(n)*duration)
		v.Ensures("a chunk carries the stream index of its first sample", c.FirstSampleIndex == uint64(n*size))
		v.Ensures("a chunk has the chunk size", len(c.SampleLow) == size && len(c.SampleHigh) == size)
		for i := 0; i < size && n*size+i < len(song); i++ {
			v.Ensures("a chunk carries exactly the next samples", c.SampleLow[i] == song[n*size+i][0] && c.SampleHigh[i] == song[n*size+i][1])
		}
		v.Ensures("a chunk is announced once as it is", l.announced(c, size) == 1)
	}
}
