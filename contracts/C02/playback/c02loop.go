//go:build verif && go1.21

package playback

import (
	"context"
	"errors"
	"io"
	"math"
	"os"
	"time"

	"github.com/faiface/beep"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c02Ctx is a context that is canceled after a number of checks.
type c02Ctx struct {
	rounds int
	never  chan struct{}
	done   chan struct{}
}

func c02Rounds(n int) *c02Ctx {
	c := &c02Ctx{rounds: n, never: make(chan struct{}), done: make(chan struct{})}
	close(c.done)
	return c
}

func (c *c02Ctx) Deadline() (time.Time, bool)     { return time.Time{}, false }
func (c *c02Ctx) Err() error                      { return nil }
func (c *c02Ctx) Value(k interface{}) interface{} { return nil }
func (c *c02Ctx) Done() <-chan struct{} {
	if c.rounds <= 0 {
		return c.done
	}
	c.rounds--
	return c.never
}

var _ context.Context = (*c02Ctx)(nil)

// c02Files is what opening songs does: any file may be missing or broken.
type c02Files struct {
	opens, decodes int
	opened         bool
	song           *c02Song
}

func (f *c02Files) attach() {
	v.External("os.Open", func(name string) (*os.File, error) {
		f.opens++
		if v.AnyBool() {
			return nil, errors.New("missing")
		}
		return new(os.File), nil
	})
	v.External("(*os.File).Close", func(x *os.File) error { return nil })
	v.External("github.com/faiface/beep/mp3.Decode", func(r io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		f.decodes++
		if v.AnyBool() {
			return nil, beep.Format{}, errors.New("broken")
		}
		f.opened = true
		return f.song, beep.Format{}, nil
	})
}

// song names are never empty (commands and start-up only add names of files)
func c02Named(songs []string) {
	v.Requires(v.Forall(0, len(songs), func(i int) bool { return songs[i] != "" }))
}

// One round of the stream loop, from any state: a song that cannot be opened is skipped by one, a song
// that is opened is streamed to its end (or to a jump) and then playback is one song further (or at the
// target).
func C02_StreamLoopRound(songs []string, pos int) {
	c02Named(songs)
	pl := c02Playlist(songs, pos, true)
	v.Requires(len(songs) > 0)
	s := &c02Song{pl: pl, jumps: true}
	f := &c02Files{song: s}
	f.attach()
	v.Inv(func(s *c02Song) bool { return !s.jumped && !s.ended && !s.after })
	v.Inv(func(s *c02Song) bool {
		return len(pl.forceNext) == 0 && pl.position == c02Mod(pos, len(songs))
	})
	pl.StreamLoop(c02Rounds(1))
	v.Ensures("one song is opened", f.opens == 1)
	at := c02Mod(pos, len(songs))
	if !f.opened {
		v.Cover("not opened")
		v.Ensures("a song that cannot be opened is skipped by one", pl.position == at+1)
		return
	}
	v.Ensures("the current song is the one at the position", pl.currentSong == songs[at])
	if s.jumped {
		v.Cover("jumped")
		v.Ensures("the jump target is next", pl.position == s.target)
	} else {
		v.Cover("ended")
		v.Ensures("playback moves on by exactly one song", s.ended && pl.position == at+1)
	}
}

// The song opened is the one at the position, below the audio directory.
func C02_SongOpened(songs []string, pos int) {
	v.Requires(len(songs) > 0)
	c02Named(songs)
	pl := c02Playlist(songs, pos, true)
	joined, opened, base, dir := "", "", "", AudioDir
	v.External("path.Join", func(e ...string) string {
		if len(e) == 2 {
			dir, base = e[0], e[1]
		}
		joined = v.Any[string]()
		return joined
	})
	v.External("os.Open", func(name string) (*os.File, error) {
		opened = name
		return nil, errors.New("missing")
	})
	pl.StreamLoop(c02Rounds(1))
	v.Ensures("below the audio directory", dir == AudioDir && base == songs[c02Mod(pos, len(songs))])
	v.Ensures("that file is opened", opened == joined)
}

// A jump requested while a song is being opened is served, whether or not it opens.
func C02_JumpWhileOpening(songs []string, pos, target int) {
	v.Requires(len(songs) > 0)
	c02Named(songs)
	pl := c02Playlist(songs, pos, true)
	v.External("os.Open", func(name string) (*os.File, error) {
		pl.SetPos(target)
		return nil, errors.New("missing")
	})
	pl.StreamLoop(c02Rounds(1))
	v.Ensures("the jump target is next", pl.position == target)
}

// With an empty playlist nothing but silence is produced.
func C02_StreamLoopEmpty(pos int) {
	pl := c02Playlist(nil, pos, true)
	f := &c02Files{}
	f.attach()
	v.Inv(func(m int) bool { return v.Sent(pl.low) == m && v.Sent(pl.high) == m })
	v.Inv(func(m int) bool {
		return v.Forall(0, m, func(i int) bool { return math.IsNaN(v.ChanAt(pl.low, i)) && math.IsNaN(v.ChanAt(pl.high, i)) })
	})
	pl.StreamLoop(c02Rounds(1))
	v.Ensures("no song is opened", f.opens == 0)
	v.Ensures("only silence is produced", v.Sent(pl.low) > 0 && v.Forall(0, v.Sent(pl.low), func(i int) bool { return math.IsNaN(v.ChanAt(pl.low, i)) && math.IsNaN(v.ChanAt(pl.high, i)) }))
	v.Ensures("position unchanged", pl.position == pos)
}
