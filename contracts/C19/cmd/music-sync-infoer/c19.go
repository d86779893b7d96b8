//go:build verif && go1.21

package main

import (
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/gdamore/tcell"
)

const (
	c19Infoer = "(*github.com/LogicalOverflow/music-sync/cmd/music-sync-infoer.state)."
	c19Second = 1000000000
	c19Max    = 86400 * 100000 // a day at the greatest sample rate
)

// c19Shown states what is shown for a position, a song (if known) and its paused time.
func c19Shown(x *playbackInformation, now, sample int64, song upcomingSong, known bool, paused int64, playing bool, volume float64, rate int) {
	v.Ensures("what is shown is of the time asked for", x.Now == now)
	v.Ensures("the position shown is the current one", x.CurrentSample == sample)
	v.Ensures("the song shown is the current one", x.CurrentSong.startIndex == song.startIndex && x.CurrentSong.filename == song.filename &&
		x.CurrentSong.length == song.length && x.CurrentSong.metadata == song.metadata && len(x.CurrentSong.lyrics) == len(song.lyrics))
	v.Ensures("the paused time shown is that of the song", x.PausesInCurrentSong == paused && x.Playing == playing)
	v.Ensures("the volume shown is the current one", v.SameFloat(x.Volume, volume))
	if !known {
		v.Ensures("without a song all is zero", x.TimeInSong == 0 && x.SongLength == 0 && x.ProgressInSong == 0)
		return
	}
	played := sample - int64(song.startIndex) - paused
	v.Ensures("the time shown is that of the samples played", int64(x.TimeInSong) == played*c19Second/int64(rate))
	v.Ensures("the length shown is the song's", int64(x.SongLength) == song.length*c19Second/int64(rate))
	if song.length > 0 {
		v.Ensures("the progress shown is that of the samples played", v.SameFloat(x.ProgressInSong, float64(played)/float64(song.length)))
	} else {
		v.Ensures("a song without length makes no progress", x.ProgressInSong == 0)
	}
}

// What is shown follows from one position, one song and one paused time. (What those are: C17 and C18.)
//
//govc:norun
func C19_Info(now int64, rate int, song upcomingSong, known bool, sample, paused int64, playing bool, volume float64) {
	v.Requires(1 <= rate && rate <= 100000 && volume == volume)
	v.Requires(-c19Max <= sample && song.startIndex < 1<<62 && sample < 1<<62 && -c19Max <= song.length && song.length <= c19Max)
	if known {
		v.Requires(int64(song.startIndex) < sample && 0 <= paused && paused <= sample-int64(song.startIndex) && sample-int64(song.startIndex) <= c19Max)
	}
	schedule.SampleRate = rate
	s := &state{Volume: volume}
	v.Guarded("the volume", &s.VolumeMutex, &s.Volume)
	samples, songs := 0, 0
	find := func(at int64) {
		v.Assert("the song is that of the position", samples == 1 && at == sample)
		songs++
	}
	v.External(c19Infoer+"currentSample", func(x *state, at int64) int64 {
		v.Assert("the position is that of the time asked for", x == s && at == now)
		samples++
		return sample
	})
	v.External(c19Infoer+"songAt", func(x *state, at int64) (upcomingSong, bool) { find(at); return song, known })
	v.External(c19Infoer+"removeOldPauses", func(x *state, cs upcomingSong) {
		v.Assert("only toggles of earlier songs are dropped", songs == 1 && cs.startIndex == song.startIndex)
	})
	v.External(c19Infoer+"pausesInCurrentSong", func(x *state, at int64, cs upcomingSong) (int64, bool) {
		v.Assert("the paused time is that of the song and position", songs == 1 && at == sample && cs.startIndex == song.startIndex)
		return paused, playing
	})
	x := s.Info(now)
	v.Ensures("the position and the song are evaluated once", samples == 1 && songs == 1)
	c19Shown(x, now, sample, song, known, paused, playing, volume, rate)
}

// songAt finds the song C18 speaks about and tells whether there is one. q is the number of songs before the position.
//
//govc:norun
func C19_SongAt(sample int64, q int) {
	n := v.AnyInt(0, 1<<40)
	l := make([]upcomingSong, n)
	v.HavocSlice(l)
	v.Assume(v.Forall(0, n, func(i int) bool { return l[i].startIndex < 1<<62 }))
	v.Requires(0 <= q && q <= n)
	v.Requires(v.Forall(0, q, func(i int) bool { return int64(l[i].startIndex) < sample }))
	v.Requires(v.Forall(q, n, func(i int) bool { return sample <= int64(l[i].startIndex) }))
	s := &state{Songs: append([]upcomingSong(nil), l...)}
	v.Guarded("the list of songs", &s.SongsMutex, &s.Songs)
	v.Inv(func(i int) bool { return q-1 <= i && i < n })
	v.Inv(func(i int) bool { return 0 <= i && i <= n-q })
	v.Inv(func(i int, known bool) bool { return 0 <= i && i <= q && known == (i > 0) })
	v.Inv(func(i int, s upcomingSong) bool {
		return 0 <= i && i <= q && (i == 0 || s.startIndex == l[i-1].startIndex && s.length == l[i-1].length && s.filename == l[i-1].filename)
	})
	got, known := s.songAt(sample)
	v.Ensures("a song is known exactly if one has begun", known == (q > 0))
	v.Ensures("the song known is the last one begun", q == 0 || got.startIndex == l[q-1].startIndex && got.length == l[q-1].length && got.filename == l[q-1].filename)
}

// The volume shown is the one last set.
//
//govc:norun
func C19_Volume(volume float64) {
	currentState = &state{}
	v.Guarded("the volume", &currentState.VolumeMutex, &currentState.Volume)
	newInfoerPackageHandler().HandleSetVolumeRequest(&comm.SetVolumeRequest{Volume: volume}, nil)
	v.Ensures("the volume is the one set", v.SameFloat(currentState.currentVolume(), volume))
}

type c19Screen struct {
	tcell.Screen
	cells int
}

func (s *c19Screen) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) { s.cells++ }
func (s *c19Screen) Clear()                                                           {}
func (s *c19Screen) Show()                                                            {}

// What is shown over any states, and drawing it on screens of all sizes (executed).
//
//govc:bounded
func C19_Run(seed int) {
	rate := []int{1, 8, 44100, 48000, 100000}[v.AnyInt(0, 4)]
	schedule.SampleRate = rate
	s := &state{Volume: float64(v.AnyInt(0, 10)) / 10}
	start, first := int64(v.AnyInt(0, 3))*c19Second, uint64(v.AnyInt(0, 2)*7)
	for i := v.AnyInt(0, 5); i > 0; i-- {
		s.Chunks = append(s.Chunks, upcomingChunk{startTime: start, startIndex: first, size: uint64(3 * rate)})
		start += 3 * c19Second
		first += uint64(3 * rate)
	}
	at := uint64(v.AnyInt(0, 2))
	for i := v.AnyInt(0, 3); i > 0; i-- {
		song := upcomingSong{filename: "s", startIndex: at, length: int64(v.AnyInt(0, 5)) * int64(rate)}
		for k := v.AnyInt(0, 5); k > 0; k-- {
			song.lyrics = append(song.lyrics, nil)
		}
		s.Songs = append(s.Songs, song)
		at += uint64(v.AnyInt(1, 5*rate))
	}
	at = uint64(v.AnyInt(0, 3))
	for i := v.AnyInt(0, 6); i > 0; i-- {
		s.Pauses = append(s.Pauses, pauseToggle{playing: i%2 == 0, toggleIndex: at})
		at += uint64(v.AnyInt(1, 3*rate))
	}
	now := int64(v.AnyInt(0, 20000)) * c19Second / 1000
	chunks := append([]upcomingChunk(nil), s.Chunks...)
	sample := (&state{Chunks: chunks}).currentSample(now)
	known, song := false, upcomingSong{filename: "None"}
	for _, x := range s.Songs {
		if int64(x.startIndex) < sample {
			known, song = true, x
		}
	}
	paused, playing := (&state{Pauses: append([]pauseToggle(nil), s.Pauses...)}).pausesInCurrentSong(sample, song)
	x := s.Info(now)
	c19Shown(x, now, sample, song, known, paused, playing, s.Volume, rate)
	x.CurrentSong.filename = v.Any[string]()
	x.CurrentSong.metadata.Title = v.Any[string]()
	if v.AnyInt(0, 3) == 0 {
		x.ProgressInSong = []float64{math.NaN(), math.Inf(1), -1, 2, 1}[v.AnyInt(0, 4)]
		x.TimeInSong = time.Duration(v.Any[int64]())
	}
	lyricsHistorySize = v.AnyInt(0, 20)
	d := &drawer{Screen: &c19Screen{}, w: v.AnyInt(0, 40), h: v.AnyInt(0, 30)}
	v.Ensures("drawing does not crash", !v.CatchPanic(func() {
		drawPlaybackInfo(d, x)
		drawLyrics(d, x)
	}))
}

type c19Cells struct {
	tcell.Screen
	cells map[[2]int]rune
}

func (s *c19Cells) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) {
	s.cells[[2]int{x, y}] = mainc
}

// c19Clock reads a time written as hours, minutes and seconds.
func c19Clock(text string) (seconds int64, ok bool) {
	for _, p := range strings.Split(text, ":") {
		n, err := strconv.Atoi(p)
		if err != nil {
			return 0, false
		}
		seconds = seconds*60 + int64(n)
	}
	return seconds, true
}

// What can be read on the screen is the time, the length and the progress (executed).
//
//govc:bounded
func C19_Drawn(seed int) {
	currentState = &state{}
	length := time.Duration(v.AnyInt(0, 400000)) * time.Second
	if v.AnyBool() {
		length = time.Duration(v.AnyInt(0, 7300)) * time.Second
	}
	length += time.Duration(v.AnyInt(0, 999)) * time.Millisecond
	share := v.AnyInt(0, 1000)
	x := &playbackInformation{CurrentSong: upcomingSong{filename: "song"}, SongLength: length, TimeInSong: length / 1000 * time.Duration(share), Playing: v.AnyBool(), Volume: 0.1}
	x.ProgressInSong = float64(share) / 1000
	screen := &c19Cells{cells: map[[2]int]rune{}}
	w, h := v.AnyInt(60, 120), v.AnyInt(10, 40)
	drawPlaybackInfo(&drawer{Screen: screen, w: w, h: h}, x)
	clock, filled := false, 0.0
	for y := 0; y < h; y++ {
		row := make([]rune, w)
		full := 0.0
		for i := range row {
			row[i] = ' '
			if r := screen.cells[[2]int{i, y}]; r != 0 {
				row[i] = r
			}
			if row[i] == '█' {
				full++
			} else if row[i] == '▌' {
				full += 0.5
			}
		}
		if full > 0 {
			filled = full
		}
		for _, word := range strings.FieldsFunc(string(row), func(r rune) bool { return r != ':' && r != '/' && (r < '0' || r > '9') }) {
			if parts := strings.Split(word, "/"); len(parts) == 2 {
				at, ok1 := c19Clock(parts[0])
				of, ok2 := c19Clock(parts[1])
				v.Ensures("the time and length can be read", ok1 && ok2)
				v.Ensures("the time on the screen is the one shown, in whole seconds", at == int64(x.TimeInSong/time.Second))
				v.Ensures("the length on the screen is the one shown, in whole seconds", of == int64(length/time.Second))
				clock = true
			}
		}
	}
	v.Ensures("the time is on the screen", clock)
	v.Ensures("the bar is as long as the progress", math.Abs(filled-float64(w-2)*x.ProgressInSong) <= 1)
}
