//go:build verif && go1.21

package playback

import (
	"github.com/faiface/beep"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

func c02Mod(a, n int) int {
	r := a % n
	if r < 0 {
		r += n
	}
	return r
}

// c02Playlist is any playlist, with 0 to 2 jump requests pending.
func c02Playlist(songs []string, pos int, playing bool) *Playlist {
	pl := &Playlist{songs: songs, position: pos, playing: playing, forceNext: make(chan bool, 2), low: v.NewSink[float64](), high: v.NewSink[float64]()}
	return pl
}

// The next song is the one at the position modulo the length, whatever the position; the empty
// playlist yields no song.
func C02_NextSong(songs []string, pos int, pending bool) {
	pl := c02Playlist(songs, pos, true)
	if pending {
		pl.forceNext <- true
	}
	old := v.Snap(songs)
	s := pl.nextSong()
	if len(old) == 0 {
		v.Cover("empty")
		v.Ensures("empty playlist yields no song", s == "")
		return
	}
	v.Cover("not empty")
	v.Ensures("the song at the position modulo the length", s == old[c02Mod(pos, len(old))])
	v.Ensures("the position still names that song", c02Mod(pl.position, len(old)) == c02Mod(pos, len(old)))
	v.Ensures("the position can be advanced without overflow", pl.position >= 0 && pl.position < len(old))
	v.Ensures("playlist unchanged", len(pl.songs) == len(old) && v.Forall(0, len(old), func(i int) bool { return pl.songs[i] == old[i] }))
}

// The position set while there are no songs is the one streamed once there are some.
func C02_EmptyFirst(pos int, jump bool, a, b, c string) {
	pl := c02Playlist(nil, 0, true)
	if jump {
		pl.SetPos(pos)
	} else {
		pl.position = pos
	}
	v.Ensures("empty playlist yields no song", pl.nextSong() == "")
	v.Ensures("0 on an empty playlist", pl.Pos() == 0)
	pl.AddSong(a)
	pl.AddSong(b)
	pl.AddSong(c)
	want := a
	if c02Mod(pos, 3) == 1 {
		want = b
	} else if c02Mod(pos, 3) == 2 {
		want = c
	}
	v.Ensures("the reported position is the one set", pl.Pos() == c02Mod(pos, 3))
	v.Ensures("the song at the position set", pl.nextSong() == want)
}

// Pos reports the index of the song that nextSong chooses.
func C02_Pos(songs []string, pos int) {
	pl := c02Playlist(songs, pos, true)
	p := pl.Pos()
	if len(songs) == 0 {
		v.Ensures("0 on an empty playlist", p == 0)
		return
	}
	v.Ensures("position modulo the length", p == c02Mod(pos, len(songs)))
	v.Ensures("the song reported is the song streamed", pl.nextSong() == songs[p])
	v.Ensures("choosing the song does not change the reported position", pl.Pos() == p)
}

// A jump sets the position, leaves a request pending and never blocks.
//
//govc:noblock
func C02_SetPos(songs []string, pos, pend, target int) {
	v.Requires(0 <= pend && pend <= 2)
	pl := c02Playlist(songs, pos, true)
	if pend > 0 {
		pl.forceNext <- true
	}
	if pend > 1 {
		pl.forceNext <- true
	}
	pl.SetPos(target)
	v.Ensures("position is the target", pl.position == target)
	v.Ensures("a jump is pending", len(pl.forceNext) > 0)
	if len(songs) > 0 {
		v.Ensures("the target is the next song", pl.nextSong() == songs[c02Mod(target, len(songs))])
		v.Ensures("the jump is served", !pl.shouldBreakStreamerPushLoop(5, true, 5))
	}
}

// After a block of a song: a pending jump cuts the song off and keeps the target, the end of the
// song advances by one, otherwise nothing changes.
func C02_ShouldBreak(songs []string, pos, pend, n, size int, ok bool) {
	v.Requires(0 <= pend && pend <= 2)
	v.Requires(0 <= n && n <= size)
	v.Requires(0 <= pos && pos < 1<<48)
	pl := c02Playlist(songs, pos, true)
	if pend > 0 {
		pl.forceNext <- true
	}
	if pend > 1 {
		pl.forceNext <- true
	}
	r := pl.shouldBreakStreamerPushLoop(n, ok, size)
	if pend > 0 {
		v.Ensures("a jump cuts the song off", r)
		v.Ensures("the jump target is kept", pl.position == pos)
		v.Ensures("the jump is served once", len(pl.forceNext) == 0)
	} else if !ok || n < size {
		v.Ensures("the song ends", r)
		v.Ensures("exactly one song further", pl.position == pos+1)
	} else {
		v.Ensures("the song goes on", !r)
		v.Ensures("same position", pl.position == pos)
	}
}

// c02Song is any song; while one of its blocks is read, jumps may be requested.
type c02Song struct {
	pl     *Playlist
	jumped bool
	target int
	ended  bool
	after  bool // a block was read after the song had to end
	jumps  bool
}

func (s *c02Song) Stream(buf [][2]float64) (int, bool) {
	if s.jumped || s.ended {
		s.after = true
	}
	n := v.AnyInt(0, len(buf))
	ok := v.AnyBool()
	v.HavocSlice(buf[:n])
	if s.jumps && v.AnyBool() {
		s.target = v.Any[int]()
		s.pl.SetPos(s.target)
		s.jumped = true
	}
	if !ok || n < len(buf) {
		s.ended = true
	}
	return n, ok
}
func (s *c02Song) Err() error       { return nil }
func (s *c02Song) Len() int         { return v.AnyInt(0, 1<<40) }
func (s *c02Song) Position() int    { return 0 }
func (s *c02Song) Seek(p int) error { return nil }
func (s *c02Song) Close() error     { return nil }

var _ beep.StreamSeekCloser = (*c02Song)(nil)

// A whole song: it goes on until it ends or a jump is requested; then the position is one further,
// or the target of the last jump.
func C02_PushStreamer(songs []string, pos int) {
	v.Requires(0 <= pos && pos < 1<<48)
	pl := c02Playlist(songs, pos, true)
	s := &c02Song{pl: pl, jumps: true}
	v.Inv(func(s *c02Song) bool { return !s.jumped && !s.ended && !s.after })
	v.Inv(func(s *c02Song) bool { return len(pl.forceNext) == 0 && pl.position == pos })
	pl.pushStreamer(s)
	v.Ensures("nothing is streamed after the end or a jump", !s.after)
	v.Ensures("it stops only at the end or at a jump", s.ended || s.jumped)
	if s.jumped {
		v.Cover("jumped")
		v.Ensures("the target is next", pl.position == s.target)
	} else {
		v.Cover("ended")
		v.Ensures("one song further", pl.position == pos+1)
	}
}

// c02Env lets other goroutines request jumps whenever the position is not locked.
type c02Env struct {
	jumped bool
	target int
}

func (e *c02Env) attach(pl *Playlist) {
	v.Guarded("the position", &pl.posMutex, &pl.position)
	v.OnLock(&pl.posMutex, func() {
		if v.AnyBool() {
			e.target = v.Any[int]()
			pl.position = e.target
			if len(pl.forceNext) < 2 {
				pl.forceNext <- true
			}
			e.jumped = true
		}
	})
}

// However jumps from other goroutines interleave with the end of a block: the song is cut off exactly
// if a jump was requested, and then the target of the last jump is next.
func C02_ShouldBreakRace(songs []string, pos, n, size int, ok bool) {
	v.Requires(0 <= n && n <= size)
	v.Requires(0 <= pos && pos < 1<<48)
	pl := c02Playlist(songs, pos, true)
	e := &c02Env{}
	e.attach(pl)
	r := pl.shouldBreakStreamerPushLoop(n, ok, size)
	if e.jumped {
		v.Ensures("a jump cuts the song off", r)
		v.Ensures("the target is not advanced past", pl.position == e.target)
	} else if !ok || n < size {
		v.Ensures("exactly one song further", r && pl.position == pos+1)
	} else {
		v.Ensures("the song goes on", !r && pl.position == pos)
	}
}

// Choosing a song while jumps arrive: the song chosen is the one of the last jump.
func C02_NextSongRace(songs []string, pos int) {
	v.Requires(len(songs) > 0)
	pl := c02Playlist(songs, pos, true)
	e := &c02Env{}
	e.attach(pl)
	s := pl.nextSong()
	if e.jumped {
		v.Ensures("the target is streamed", s == songs[c02Mod(e.target, len(songs))])
	} else {
		v.Ensures("the song at the position", s == songs[c02Mod(pos, len(songs))])
	}
}

// Reading and setting the position are made under its lock too.
func C02_PositionLocked(songs []string, pos, target int) {
	pl := c02Playlist(songs, pos, true)
	e := &c02Env{}
	e.attach(pl)
	p := pl.Pos()
	v.Ensures("within the playlist", p >= 0 && (p < len(songs) || p == 0))
	pl.SetPos(target)
	v.Ensures("last jump wins", pl.position == target && len(pl.forceNext) > 0)
}
