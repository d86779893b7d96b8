//go:build verif && go1.21

package main

import (
	"strings"
	"time"

	"github.com/LogicalOverflow/music-sync/metadata"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/gdamore/tcell"
)

const c20Pkg = "github.com/LogicalOverflow/music-sync/cmd/music-sync-infoer."

// c20Lyrics is any lyrics: every line has any number of words, or none.
func c20Lyrics() []metadata.LyricsLine {
	n := v.AnyInt(0, v.Bound(1<<40, 8))
	l := make([]metadata.LyricsLine, n)
	v.HavocSlice(l)
	return l
}

// c20Time is any time in a song, in the range of real use.
func c20Time(t time.Duration) time.Duration {
	if t < 0 || t > 1<<60 {
		return 0
	}
	return t
}

// c20Begins tells whether the line begins after t.
func c20Begins(l metadata.LyricsLine, t time.Duration) bool {
	return len(l) > 0 && int64(t)/1000000 < l[0].Timestamp
}

// c20Text is the text of the words due shortly after t, among the first k words of the line.
func c20Text(l metadata.LyricsLine, t time.Duration) func(k int) string {
	return v.Rec("", func(k int, prev string) string {
		if k < len(l) && l[k].Timestamp < int64(t)/1000000+100 {
			return prev + l[k].Caption
		}
		return prev
	})
}

// The number of lines begun. p is the index of the first line that has not begun.
//
//govc:norun
func C20_Next(t time.Duration, p int) {
	song := upcomingSong{lyrics: c20Lyrics()}
	t = c20Time(t)
	n := len(song.lyrics)
	v.Requires(0 <= p && p <= n && v.Forall(0, p, func(i int) bool { return !c20Begins(song.lyrics[i], t) }))
	v.Requires(p == n || c20Begins(song.lyrics[p], t))
	v.Inv(func(i int) bool { return 0 <= i && i <= p })
	v.Ensures("the lines shown end at the first line that begins later", lyricsNextLine(song, t) == p)
}

// The text of a line.
func C20_Line(t time.Duration, index int) {
	song := upcomingSong{lyrics: c20Lyrics()}
	t = c20Time(t)
	if v.Bound(0, 1) == 1 {
		index = v.AnyInt(-1, len(song.lyrics))
	}
	if index < 0 || index >= len(song.lyrics) {
		v.Ensures("where there is no line it is blank", lyricsBuildLine(index, song, t) == "")
		return
	}
	l := song.lyrics[index]
	text := c20Text(l, t)
	v.Inv(func(i int, line string) bool { return line == text(i) })
	v.Inv(func(i int, line *strings.Builder) bool { return line.String() == text(i) })
	v.Ensures("a line shows exactly the words due, in order", lyricsBuildLine(index, song, t) == text(len(l)))
}

// The lines shown. (What a line is: C20_Line; where they end: C20_Next.) w is any row.
//
//govc:norun
func C20_History(t time.Duration, height, next, w int) {
	song := upcomingSong{lyrics: c20Lyrics()}
	t = c20Time(t)
	n := len(song.lyrics)
	v.Requires(0 <= height && height < 1<<20 && 0 <= next && next <= n && 0 <= w && w < height)
	texts := make([]string, n)
	v.HavocSlice(texts)
	line := func(i int) string {
		if i < 0 || i >= n {
			return ""
		}
		return texts[i]
	}
	v.External(c20Pkg+"lyricsNextLine", func(s upcomingSong, at time.Duration) int {
		v.Assert("the lines are those of the song and time", len(s.lyrics) == n && at == t)
		return next
	})
	v.External(c20Pkg+"lyricsBuildLine", func(i int, s upcomingSong, at time.Duration) string {
		v.Assert("a line is that of the song and time", len(s.lyrics) == n && at == t)
		return line(i)
	})
	v.Inv(func(i int, lines []string) bool { return !(w < i) || w < len(lines) && lines[w] == line(next-1-w) })
	lines := lyricsHistory(height, song, t)
	v.Ensures("as many lines are shown as fit", len(lines) == height)
	v.Ensures("the lines begun are shown, the newest first", lines[w] == line(next-1-w))
}

// The lines are drawn one above the other, the newest at the bottom, in a box that fits. w is any line, the newest is 0.
//
//govc:norun
func C20_Draw(t time.Duration, w, width, height, history int) {
	v.Requires(0 <= w && 0 <= width && width < 1<<20 && 0 <= height && height < 1<<20 && 0 <= history && history < 1<<20)
	lyricsHistorySize = history
	info := &playbackInformation{CurrentSong: upcomingSong{filename: v.Any[string](), lyrics: c20Lyrics()}, TimeInSong: t}
	d := &drawer{w: width, h: height}
	fit := height - 7
	if history < fit {
		fit = history
	}
	var lines []string
	got, drawn, other := 0, 0, 0
	v.External(c20Pkg+"lyricsHistory", func(h int, s upcomingSong, at time.Duration) []string {
		v.Assert("as many lines are shown as fit", h == fit && fit >= 0)
		v.Assert("the lines are those of the current song and time", s.filename == info.CurrentSong.filename && len(s.lyrics) == len(info.CurrentSong.lyrics) && at == t)
		lines = make([]string, h)
		v.HavocSlice(lines)
		got++
		return lines
	})
	v.External("(*"+c20Pkg+"drawer).drawString", func(x *drawer, col, row int, style tcell.Style, s string) {
		if got == 1 && row == height-7-w && w < fit {
			v.Assert("a line is drawn as it is", s == lines[w] && col == 1)
			drawn++
		} else if row < height-7-fit || row > height-7 {
			other++
		}
	})
	v.External("(*"+c20Pkg+"drawer).drawBox", func(x *drawer, col, row, wd, ht int, style tcell.Style) {
		v.Assert("the box is around the lines", row < height-6-fit && row+ht > height-6 && col <= 0)
	})
	v.Inv(func(i int) bool { return (w < i && w < fit && drawn == 1) || (!(w < i && w < fit) && drawn == 0) })
	v.Inv(func(i int) bool { return other == 0 })
	drawLyrics(d, info)
	v.Ensures("the lines are drawn if any fits", got == 1 || fit <= 0)
	v.Ensures("every line is drawn once", w >= fit || drawn == 1)
	v.Ensures("nothing is drawn elsewhere", other == 0)
}

type c20Screen struct {
	tcell.Screen
	cells map[[2]int]rune
}

func (s *c20Screen) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) {
	s.cells[[2]int{x, y}] = mainc
}

// The lines as they are drawn (executed).
//
//govc:bounded
func C20_Run(seed int) {
	captions := []string{"", "a", "word ", "é", "日 本", "long caption ", "x"}
	song := upcomingSong{}
	ts := int64(v.AnyInt(0, 300))
	for n := v.AnyInt(0, 8); n > 0; n-- {
		l := metadata.LyricsLine{}
		if v.AnyBool() {
			l = nil
		}
		for k := v.AnyInt(0, 4); k > 0; k-- {
			l = append(l, metadata.LyricsAtom{Timestamp: ts, Caption: captions[v.AnyInt(0, len(captions)-1)]})
			ts += int64(v.AnyInt(0, 150))
		}
		if v.AnyInt(0, 6) == 0 {
			ts = int64(v.AnyInt(0, 500)) // out of order
		}
		song.lyrics = append(song.lyrics, l)
	}
	t := time.Duration(v.AnyInt(0, 1200))*time.Millisecond + time.Duration(v.AnyInt(0, 999999))
	ms := int64(t / time.Millisecond)
	next := 0
	for next < len(song.lyrics) && !(len(song.lyrics[next]) > 0 && song.lyrics[next][0].Timestamp > ms) {
		next++
	}
	lyricsHistorySize = v.AnyInt(0, 18)
	d := &drawer{Screen: &c20Screen{cells: map[[2]int]rune{}}, w: 200, h: v.AnyInt(0, 30)}
	if v.CatchPanic(func() { drawLyrics(d, &playbackInformation{CurrentSong: song, TimeInSong: t}) }) {
		v.Ensures("drawing lyrics does not crash", false)
	}
	rows := d.h - 7
	if lyricsHistorySize < rows {
		rows = lyricsHistorySize
	}
	cells := d.Screen.(*c20Screen).cells
	for at := range cells {
		v.Ensures("exactly as many lines are drawn as fit", d.h-7-rows <= at[1] && at[1] <= d.h-6)
	}
	for i := 0; i < rows; i++ {
		want := ""
		if k := next - 1 - i; k >= 0 {
			for _, a := range song.lyrics[k] {
				if a.Timestamp < ms+100 {
					want += a.Caption
				}
			}
		}
		got := ""
		for x := 1; x < d.w-1; x++ {
			if r, ok := cells[[2]int{x, d.h - 7 - i}]; ok {
				got += string(r)
			} else {
				got += "\x00"
			}
		}
		for len(got) > 0 && got[len(got)-1] == 0 {
			got = got[:len(got)-1]
		}
		v.Ensures("the lines drawn are the words due, the newest line at the bottom", got == want)
	}
}
