//go:build verif && go1.21

package playback

import (
	"context"
	"errors"
	"io"
	"math"
	"os"
	"time"

	"github.com/faiface/beep"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c03Song is any song: at every call a block of any content and length. It remembers where in the stream
// its last block has to be and what it contained.
type c03Song struct {
	pl    *Playlist
	base  int          // stream position at which the last block starts
	n     int          // its length
	block [][2]float64 // its content
	ended bool
	jumps bool
	calls int
}

// c03Landed: the stream from the last block on is that block, low and high side by side, and then only silence.
func (s *c03Song) landed() bool {
	sent := v.Sent(s.pl.low)
	return sent >= s.base+s.n && v.Sent(s.pl.high) == sent &&
		v.Forall(0, s.n, func(i int) bool {
			return v.SameFloat(v.ChanAt(s.pl.low, s.base+i), s.block[i][0]) && v.SameFloat(v.ChanAt(s.pl.high, s.base+i), s.block[i][1])
		}) &&
		v.Forall(s.base+s.n, sent, func(i int) bool {
			return math.IsNaN(v.ChanAt(s.pl.low, i)) && math.IsNaN(v.ChanAt(s.pl.high, i))
		})
}

func (s *c03Song) Stream(buf [][2]float64) (int, bool) {
	v.Assert("every block is streamed once, in order, and only silence in between", s.landed())
	n := v.AnyInt(0, len(buf))
	ok := v.AnyBool()
	v.HavocSlice(buf[:n])
	s.block = make([][2]float64, n)
	copy(s.block, buf)
	s.base = v.Sent(s.pl.low)
	s.n = n
	s.calls++
	if s.jumps && v.AnyBool() {
		s.pl.SetPos(v.Any[int]())
		s.ended = true
	}
	if !ok || n < len(buf) {
		s.ended = true
	}
	return n, ok
}
func (s *c03Song) Err() error       { return nil }
func (s *c03Song) Len() int         { return v.AnyInt(0, 1<<40) }
func (s *c03Song) Position() int    { return 0 }
func (s *c03Song) Seek(p int) error { return nil }
func (s *c03Song) Close() error     { return nil }

var _ beep.StreamSeekCloser = (*c03Song)(nil)

// c03Playlist is a playlist that has already produced w pairs of samples; others may pause and resume it at any time.
func c03Playlist(w uint64, pause bool) *Playlist {
	v.Requires(w < 1<<60)
	pl := &Playlist{forceNext: make(chan bool, 2), low: v.NewSink[float64](), high: v.NewSink[float64](), sampleIndexWrite: w, playing: true, playingLast: true}
	if pause {
		v.Volatile(&pl.playing)
	}
	return pl
}

// numbered: the write index is the number of pairs produced.
func c03Numbered(pl *Playlist, w uint64) bool {
	return v.Sent(pl.low) == v.Sent(pl.high) && pl.sampleIndexWrite == w+uint64(v.Sent(pl.low))
}

func c03Invs(s *c03Song, w uint64) {
	v.Inv(func() bool { return s.landed() })
	v.Inv(func() bool { return !s.ended })
	v.Inv(func() bool { return len(s.block) == s.n })
	v.Inv(func() bool { return s.base+s.n == v.Sent(s.pl.low) })
	v.Inv(func() bool { return s.calls > 0 || s.n == 0 && s.base == 0 })
	v.Inv(func() bool { return c03Numbered(s.pl, w) })
}

// A song played to its end (or cut off by a jump) without a pause: exactly its blocks.
func C03_Song(w uint64) {
	pl := c03Playlist(w, false)
	s := &c03Song{pl: pl, jumps: true}
	c03Invs(s, w)
	pl.pushStreamer(s)
	v.Ensures("the last block is complete", s.landed())
	v.Ensures("nothing follows the last block", v.Sent(pl.low) == s.base+s.n && s.calls > 0)
	v.Ensures("the write index is the number of pairs produced", c03Numbered(pl, w))
}

// A song with any pauses: exactly its blocks, and between them only silence.
func C03_SongPaused(w uint64) {
	pl := c03Playlist(w, true)
	s := &c03Song{pl: pl, jumps: true}
	c03Invs(s, w)
	pl.pushStreamer(s)
	v.Ensures("all blocks are complete and in order, and only silence in between", s.landed())
	v.Ensures("the write index is the number of pairs produced", c03Numbered(pl, w))
}

// While paused no sample of the song is read, whatever happens.
func C03_Paused(w uint64) {
	pl := c03Playlist(w, false)
	pl.playing = false
	s := &c03Song{pl: pl}
	pl.forceNext <- true
	c03Invs(s, w)
	pl.pushStreamer(s)
	v.Ensures("no sample of the song is read", s.calls == 0)
	v.Ensures("only silence is produced", s.landed() && v.Sent(pl.low) > 0)
	v.Ensures("the write index is the number of pairs produced", c03Numbered(pl, w))
}

// The break between two songs is exactly the configured number of silence markers.
func C03_Break(w uint64, size int) {
	pl := c03Playlist(w, false)
	pl.nanBreakSize = size
	v.Requires(size < 1<<40)
	pl.pushNanBreak()
	if size < 0 {
		size = 0
	}
	v.Ensures("exactly the configured number", v.Sent(pl.low) == size)
	v.Ensures("silence markers only", v.Forall(0, size, func(i int) bool { return math.IsNaN(v.ChanAt(pl.low, i)) && math.IsNaN(v.ChanAt(pl.high, i)) }))
	v.Ensures("the write index is the number of pairs produced", c03Numbered(pl, w))
}

// A buffer is produced sample by sample, left and right at the same position.
func C03_Buffer(w uint64, buf [][2]float64) {
	pl := c03Playlist(w, false)
	old := v.Snap(buf)
	pl.pushBuffer(buf)
	v.Ensures("every sample once, in order, left and right paired", v.Sent(pl.low) == len(old) && v.Forall(0, len(old), func(i int) bool {
		return v.SameFloat(v.ChanAt(pl.low, i), old[i][0]) && v.SameFloat(v.ChanAt(pl.high, i), old[i][1])
	}))
	v.Ensures("the write index is the number of pairs produced", c03Numbered(pl, w))
}

// c03Ctx is a context that is canceled after a number of checks.
type c03Ctx struct {
	rounds int
	never  chan struct{}
	done   chan struct{}
}

func (c *c03Ctx) Deadline() (time.Time, bool)     { return time.Time{}, false }
func (c *c03Ctx) Err() error                      { return nil }
func (c *c03Ctx) Value(k interface{}) interface{} { return nil }
func (c *c03Ctx) Done() <-chan struct{} {
	if c.rounds <= 0 {
		return c.done
	}
	c.rounds--
	return c.never
}

var _ context.Context = (*c03Ctx)(nil)

// One round of the stream loop: the song, then exactly the break.
func C03_StreamLoopRound(w uint64, song string, size int, broken bool) {
	v.Requires(0 <= size && size < 1<<40)
	v.Requires(song != "")
	pl := c03Playlist(w, false)
	pl.nanBreakSize = size
	pl.songs = []string{song}
	s := &c03Song{pl: pl, jumps: true}
	v.External("os.Open", func(name string) (*os.File, error) { return new(os.File), nil })
	v.External("(*os.File).Close", func(x *os.File) error { return nil })
	v.External("github.com/faiface/beep/mp3.Decode", func(r io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		if broken {
			return nil, beep.Format{}, errors.New("broken")
		}
		return s, beep.Format{}, nil
	})
	c03Invs(s, w)
	done := make(chan struct{})
	close(done)
	pl.StreamLoop(&c03Ctx{rounds: 1, never: make(chan struct{}), done: done})
	v.Ensures("the write index is the number of pairs produced", c03Numbered(pl, w))
	if broken {
		v.Cover("broken")
		v.Ensures("a song that cannot be opened produces nothing", v.Sent(pl.low) == 0)
		return
	}
	v.Cover("streamed")
	v.Ensures("the song and then only silence", s.calls > 0 && s.landed())
	v.Ensures("exactly the configured break follows the song", v.Sent(pl.low) == s.base+s.n+size)
}

// A block handed out holds the next samples of both channels and is numbered by its first sample.
func C03_Fill(n int, r uint64) {
	v.Requires(0 <= n && n < 1<<20)
	low, high := make([]float64, n), make([]float64, n)
	v.Requires(r < 1<<60)
	pl := &Playlist{low: v.NewSource[float64](), high: v.NewSource[float64](), sampleIndexRead: r}
	i0, j0 := v.Received(pl.low), v.Received(pl.high)
	at := pl.Fill(low, high)
	v.Ensures("numbered by the first sample", at == r)
	v.Ensures("the next block is contiguous", pl.sampleIndexRead == r+uint64(len(low)))
	v.Ensures("the next samples of the low channel", v.Received(pl.low) == i0+len(low) && v.Forall(0, len(low), func(i int) bool { return v.SameFloat(low[i], v.ChanAt(pl.low, i0+i)) }))
	v.Ensures("the next samples of the high channel", v.Received(pl.high) == j0+len(low) && v.Forall(0, len(low), func(i int) bool { return v.SameFloat(high[i], v.ChanAt(pl.high, j0+i)) }))
}

// A new playlist has produced and handed out nothing and remembers the break size.
func C03_New(size int, songs []string, nanBreak int) {
	v.Requires(0 <= size && size < 1<<20)
	pl := NewPlaylist(size, songs, nanBreak)
	v.Ensures("both indices start at 0", pl.sampleIndexRead == 0 && pl.sampleIndexWrite == 0)
	v.Ensures("nothing is buffered", len(pl.low) == 0 && len(pl.high) == 0 && cap(pl.low) == size && cap(pl.high) == size && pl.low != pl.high)
	v.Ensures("the break size is kept", pl.nanBreakSize == nanBreak)
}
