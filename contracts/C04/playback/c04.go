//go:build verif && go1.21

package playback

import (
	"context"
	"errors"
	"io"
	"os"
	"time"

	"github.com/faiface/beep"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c04Env hears the announcements.
type c04Env struct {
	pl *Playlist
	w  uint64 // write index before the contract's run

	songs    int
	start    uint64
	name     string
	length   int64
	startAt  int // samples produced when the song was announced
	toggles  int
	last     bool // last announced state
	index    uint64
	paused   bool // the state was paused at some moment since the last block
	resumed  bool // the last announcement since the last block was a resume
	base, n  int  // the last block
	calls    int
	songLen  int
	mayPause bool
	ended    bool
}

func c04New(w uint64, name string, last bool, volatile bool) *c04Env {
	v.Requires(w < 1<<60)
	pl := NewPlaylist(0, nil, 0)
	pl.low, pl.high = v.NewSink[float64](), v.NewSink[float64]()
	pl.sampleIndexWrite = w
	pl.currentSong = name
	pl.playingLast = last
	e := &c04Env{pl: pl, w: w, last: last, paused: !last, mayPause: volatile, songLen: v.AnyInt(0, 1<<40)}
	pl.SetNewSongHandler(func(start uint64, filename string, length int64) {
		e.songs++
		e.start, e.name, e.length = start, filename, length
		e.startAt = v.Sent(pl.low)
	})
	pl.SetPauseToggleHandler(func(playing bool, sample uint64) {
		v.Assert("a toggle is announced only when the state changed", playing != e.last)
		if e.mayPause {
			v.Assert("a toggle is announced with the index of the next sample", sample == e.w+uint64(v.Sent(pl.low)))
		}
		e.toggles++
		e.last = playing
		e.index = sample
		e.resumed = playing
		if !playing {
			e.paused = true
		}
	})
	if volatile {
		v.Volatile(&pl.playing)
	}
	return e
}

func (e *c04Env) Stream(buf [][2]float64) (int, bool) {
	at := v.Sent(e.pl.low)
	v.Assert("song samples are only produced while playing is the announced state", e.last)
	v.Assert("silence is only produced after an announced pause", at == e.base+e.n || e.paused)
	v.Assert("the first sample after a resume is the announced one", !e.resumed || e.index == e.w+uint64(at))
	e.paused, e.resumed = false, false
	n := v.AnyInt(0, len(buf))
	ok := v.AnyBool()
	v.HavocSlice(buf[:n])
	e.base, e.n = at, n
	e.calls++
	return n, ok
}
func (e *c04Env) Err() error       { return nil }
func (e *c04Env) Len() int         { return e.songLen }
func (e *c04Env) Position() int    { return 0 }
func (e *c04Env) Seek(p int) error { return nil }
func (e *c04Env) Close() error     { return nil }

var _ beep.StreamSeekCloser = (*c04Env)(nil)

func (e *c04Env) invs() {
	v.Inv(func() bool { return v.Sent(e.pl.low) == v.Sent(e.pl.high) })
	v.Inv(func() bool { return e.pl.sampleIndexWrite == e.w+uint64(v.Sent(e.pl.low)) })
	v.Inv(func() bool { return e.pl.playingLast == e.last })
	v.Inv(func() bool { return v.Sent(e.pl.low) == e.base+e.n || e.paused })
	v.Inv(func() bool { return e.last || e.paused })
	v.Inv(func() bool { return !e.resumed })
	v.Inv(func() bool { return e.songs == 1 })
	v.Inv(func() bool { return e.toggles == 0 || e.mayPause })
}

// One evaluation of the playing state: announced exactly if it differs from the last announced one.
func C04_Toggle(w uint64, last, playing bool) {
	e := c04New(w, "song", last, false)
	e.pl.SetPlaying(playing)
	e.pl.callPauseToggleHandler()
	v.Settle()
	if playing != last {
		v.Cover("changed")
		v.Ensures("a change is announced once", e.toggles == 1)
		v.Ensures("with the new state", e.last == playing)
		v.Ensures("with the index of the first sample it affects", e.index == w)
	} else {
		v.Cover("unchanged")
		v.Ensures("nothing is announced while the state is unchanged", e.toggles == 0)
	}
	e.pl.callPauseToggleHandler()
	v.Settle()
	v.Ensures("and not again", e.toggles == 0 || playing != last && e.toggles == 1)
	e.pl.SetPlaying(!playing)
	n := e.toggles
	e.pl.callPauseToggleHandler()
	v.Settle()
	v.Ensures("the next change is announced too", e.toggles == n+1 && e.last == !playing)
	v.Ensures("the state set is the state reported", e.pl.Playing() == !playing)
}

// A whole song with any pauses and resumes at any moments.
//
//govc:norun
func C04_Song(w uint64, name string, last bool) {
	e := c04New(w, name, last, true)
	e.invs()
	e.pl.pushStreamer(e)
	v.Ensures("the song is announced exactly once", e.songs == 1)
	v.Ensures("with its name", e.name == name)
	v.Ensures("with its length", e.length == int64(e.songLen))
	v.Ensures("with the index of its first sample", e.start == w && e.startAt == 0)
}

func C04_SongUndisturbed(w uint64, name string, last bool, size int) {
	e := c04New(w, name, last, false)
	e.pl.SetPlaying(true)
	e.invs()
	e.pl.pushStreamer(c04Once{e})
	v.Settle()
	v.Ensures("the song is announced exactly once", e.songs == 1)
	v.Ensures("with its name", e.name == name)
	v.Ensures("with its length", e.length == int64(e.songLen))
	v.Ensures("with the index of its first sample", e.start == w && e.base == 0)
	v.Ensures("a resume is announced with the index of the first sample it affects", last || e.index == w)
	v.Ensures("a toggle is announced exactly if the state changed", e.toggles == 0 && last || e.toggles == 1 && !last)
}

// c04Once streams one block.
type c04Once struct{ *c04Env }

func (o c04Once) Stream(buf [][2]float64) (int, bool) {
	n, _ := o.c04Env.streamQuiet(buf)
	return n, false
}

func (e *c04Env) streamQuiet(buf [][2]float64) (int, bool) {
	n := v.AnyInt(0, len(buf))
	v.HavocSlice(buf[:n])
	e.base, e.n = v.Sent(e.pl.low), n
	e.calls++
	return n, true
}

// c04Ctx is a context that is canceled after a number of checks.
type c04Ctx struct {
	rounds int
	never  chan struct{}
	done   chan struct{}
}

func (c *c04Ctx) Deadline() (time.Time, bool)     { return time.Time{}, false }
func (c *c04Ctx) Err() error                      { return nil }
func (c *c04Ctx) Value(k interface{}) interface{} { return nil }
func (c *c04Ctx) Done() <-chan struct{} {
	if c.rounds <= 0 {
		return c.done
	}
	c.rounds--
	return c.never
}

var _ context.Context = (*c04Ctx)(nil)

// One round of the stream loop: exactly the songs that start streaming are announced.
func C04_StreamLoopRound(w uint64, songs []string, pos int, last, broken bool) {
	v.Requires(len(songs) > 0)
	v.Requires(v.Forall(0, len(songs), func(i int) bool { return songs[i] != "" }))
	v.Requires(0 <= pos && pos < len(songs))
	e := c04New(w, "before", last, true)
	e.pl.songs = songs
	e.pl.position = pos
	v.External("os.Open", func(name string) (*os.File, error) { return new(os.File), nil })
	v.External("(*os.File).Close", func(x *os.File) error { return nil })
	v.External("github.com/faiface/beep/mp3.Decode", func(r io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		if broken {
			return nil, beep.Format{}, errors.New("broken")
		}
		return e, beep.Format{}, nil
	})
	e.invs()
	done := make(chan struct{})
	close(done)
	e.pl.StreamLoop(&c04Ctx{rounds: 1, never: make(chan struct{}), done: done})
	if broken {
		v.Cover("broken")
		v.Ensures("a song that does not start is not announced", e.songs == 0)
		return
	}
	v.Cover("streamed")
	v.Ensures("the song is announced exactly once", e.songs == 1)
	v.Ensures("with its name", e.name == songs[pos])
	v.Ensures("the current song is the one announced", e.pl.CurrentSong() == songs[pos])
	v.Ensures("with its length", e.length == int64(e.songLen))
	v.Ensures("with the index of its first sample", e.start == w && e.startAt == 0)
}

// A fresh playlist counts from 0 and has playing as its last known state, as its listeners do.
func C04_New(size int) {
	v.Requires(0 <= size && size < 1<<20)
	pl := NewPlaylist(size, nil, 0)
	toggles, songs := 0, 0
	state := true
	pl.SetPauseToggleHandler(func(playing bool, sample uint64) { toggles++; state = playing })
	pl.SetNewSongHandler(func(start uint64, filename string, length int64) { songs++ })
	playing := pl.Playing()
	pl.callPauseToggleHandler()
	v.Settle()
	v.Ensures("listeners assume a playing stream until told otherwise", state == playing && toggles <= 1 && songs == 0)
}
