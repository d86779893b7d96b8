//go:build verif && go1.21

package schedule

import (
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

// c16List is any list of n toggles in the order of their stream indices.
func c16List(n int) []*comm.PauseInfo {
	l := make([]*comm.PauseInfo, n)
	v.HavocSlice(l)
	v.Assume(v.Forall(0, n, func(i int) bool { return l[i] != nil }))
	return l
}

func c16Sorted(l []*comm.PauseInfo) bool {
	return v.Forall(0, len(l), func(i int) bool {
		return v.Forall(0, i, func(j int) bool { return l[j].ToggleSampleIndex <= l[i].ToggleSampleIndex })
	})
}

// c16Forgotten states what may be forgotten of full, and that the toggle in force at every position of the newest
// song, and with it the paused time, stays the same. at is any position, k any toggle.
func c16Forgotten(full, kept []*comm.PauseInfo, song *comm.NewSongInfo, at uint64, k int) {
	n := len(full)
	r := n - len(kept)
	v.Ensures("toggles are only removed at the front", 0 <= r && v.Forall(0, len(kept), func(i int) bool { return i+r < n && kept[i] == full[i+r] }))
	v.Ensures("the most recent toggle stays", n == 0 || len(kept) > 0)
	if song == nil {
		v.Ensures("without a song nothing is removed", r == 0)
		return
	}
	start := song.FirstSampleOfSongIndex
	v.Ensures("only toggles at or before the start of the newest song are removed", v.Forall(0, r, func(i int) bool { return i < n && full[i].ToggleSampleIndex <= start }))
	if at < start || k < 0 || k >= n || full[k].ToggleSampleIndex > at || k+1 < n && full[k+1].ToggleSampleIndex <= at {
		return
	}
	// in a list in order, toggle k is in force at this position of the song
	v.Ensures("the toggle in force at every position of the song stays", !c16Sorted(full) || k >= r)
}

// Old toggles are forgotten while other goroutines forget some as well.
func C16_Forget(hasSong bool, start uint64, at uint64, k int) {
	n := v.AnyInt(0, v.Bound(1<<40, 12))
	full := c16List(n)
	ss := &serverState{pauses: append([]*comm.PauseInfo(nil), full...)}
	if hasSong {
		ss.newestSong = &comm.NewSongInfo{FirstSampleOfSongIndex: start}
	}
	song := ss.newestSong
	v.Guarded("the list of pause toggles", &ss.pausesMutex, &ss.pauses)
	v.OnLock(&ss.pausesMutex, func() {
		if !hasSong {
			return
		}
		r := n - len(ss.pauses)
		more := v.AnyInt(r, n)
		v.Assume(more == r || more < n && v.Forall(0, more+1, func(i int) bool { return full[i].ToggleSampleIndex <= start }))
		ss.pauses = append([]*comm.PauseInfo(nil), full[more:]...)
	})
	v.Inv(func(i, passed int) bool {
		return v.Forall(0, i, func(j int) bool { return j < len(ss.pauses) && ss.pauses[j].ToggleSampleIndex <= start }) && 0 <= passed && (passed == 0 || passed < i)
	})
	v.Inv(func(i int) bool {
		b := n - len(ss.pauses)
		return 0 <= b && i <= len(ss.pauses)
	})
	ss.removeOldPauses()
	v.Settle()
	c16Forgotten(full, ss.pauses, song, at, k)
}

// c16Sender counts the announcements of a toggle.
type c16Sender struct {
	playing   bool
	sample    uint64
	announced int
	last      *comm.PauseInfo
}

func (s *c16Sender) SendMessage(m proto.Message) error {
	p, ok := m.(*comm.PauseInfo)
	v.Assert("a toggle is announced as it happened", ok && p.Playing == s.playing && p.ToggleSampleIndex == s.sample)
	s.announced++
	s.last = p
	return nil
}

// A toggle is remembered, in the order of the stream however late it is handled, and announced once; old ones may
// be forgotten. p is its place.
func C16_Toggle(hasSong bool, start uint64, playing bool, sample, at uint64, k int) {
	n := v.AnyInt(0, v.Bound(1<<40, 12))
	old := c16List(n)
	p := v.AnyInt(0, n)
	v.Assume(c16Sorted(old) && v.Forall(0, p, func(i int) bool { return old[i].ToggleSampleIndex <= sample }) &&
		v.Forall(p, n, func(i int) bool { return sample < old[i].ToggleSampleIndex }))
	s := &c16Sender{playing: playing, sample: sample}
	ss := &serverState{pauses: append([]*comm.PauseInfo(nil), old...), sender: s}
	if hasSong {
		ss.newestSong = &comm.NewSongInfo{FirstSampleOfSongIndex: start}
	}
	song := ss.newestSong
	v.Guarded("the list of pause toggles", &ss.pausesMutex, &ss.pauses)
	v.Inv(func(i, passed int) bool {
		return v.Forall(0, i, func(j int) bool { return j < len(ss.pauses) && ss.pauses[j].ToggleSampleIndex <= start }) && 0 <= passed && (passed == 0 || passed < i)
	})
	v.Inv(func(i int) bool { return i <= len(ss.pauses) })
	v.Inv(func(i int) bool { // while the place of the toggle is looked for
		return p <= i && i <= n && len(ss.pauses) == n+1 && v.Forall(0, i, func(j int) bool { return ss.pauses[j] == old[j] }) &&
			v.Forall(i+1, n+1, func(j int) bool { return ss.pauses[j] == old[j-1] })
	})
	v.Inv(func(i int, m *comm.PauseInfo) bool {
		return 0 <= i && i <= n && len(ss.pauses) == n+1 && ss.pauses[i] == m
	})
	v.Inv(func(m *comm.PauseInfo) bool { return m != nil && m.Playing == playing && m.ToggleSampleIndex == sample })
	v.Inv(func(i int) bool {
		return p <= i && i <= n && len(ss.pauses) == n && v.Forall(0, n, func(j int) bool { return ss.pauses[j] == old[j] })
	})
	ss.createPauseToggleHandler()(playing, sample)
	v.Settle()
	v.Ensures("a toggle is announced once", s.announced == 1)
	full := append(append([]*comm.PauseInfo(nil), old[:p]...), s.last)
	full = append(full, old[p:]...)
	c16Forgotten(full, ss.pauses, song, at, k)
}

// c16Paused is the number of paused samples from start on before position at, counted one by one.
func c16Paused(l []*comm.PauseInfo, start, at uint64) (paused uint64, playing bool) {
	for p := start; ; p++ {
		playing = true
		for _, t := range l {
			if t.ToggleSampleIndex <= p {
				playing = t.Playing
			}
		}
		if p == at {
			return paused, playing
		}
		if !playing {
			paused++
		}
	}
}

type c16Nobody struct{}

func (c16Nobody) SendMessage(proto.Message) error { return nil }

// The paused time, counted sample by sample, over histories of songs and toggles (executed).
//
//govc:bounded
func C16_PausedTime(seed int) {
	ss := &serverState{sender: c16Nobody{}, lyricsProvider: c16Tags{}, metadataProvider: c16Tags{}}
	toggle, song := ss.createPauseToggleHandler(), ss.createNewSongHandler()
	var full []*comm.PauseInfo
	pos, start := uint64(v.AnyInt(0, 3)), uint64(0)
	steps := v.AnyInt(1, 12)
	if v.AnyInt(0, 15) == 0 {
		steps = v.AnyInt(13, 1500)
	}
	songs := 3 // of how many steps one is a song
	if v.AnyInt(0, 3) == 0 {
		songs = 500
	}
	late := func() {} // handled late
	lateAt := pos
	for k := steps; k > 0; k-- {
		p := pos
		do := func() { song(p, "song", 100) }
		if v.AnyInt(0, songs) == 0 {
			start = pos
		} else {
			playing := v.AnyBool()
			full = append(full, &comm.PauseInfo{Playing: playing, ToggleSampleIndex: pos})
			do = func() { toggle(playing, p) }
		}
		if lateAt == p {
			late()
			late = func() {}
		}
		if v.AnyInt(0, 4) == 0 {
			late()
			late, lateAt = do, p
		} else {
			do()
			late()
			late = func() {}
		}
		if v.AnyInt(0, 3) > 0 {
			pos += uint64(v.AnyInt(0, 4))
		}
	}
	late()
	v.Settle()
	if v.AnyBool() {
		ss.removeOldPauses()
	}
	for at := start; at < pos+3; at++ {
		a, pa := c16Paused(full, start, at)
		b, pb := c16Paused(ss.pauses, start, at)
		v.Ensures("forgetting toggles keeps the paused time of the newest song", a == b)
		v.Ensures("forgetting toggles keeps the playing state", pa == pb)
	}
	v.Ensures("the most recent toggle stays", len(full) == 0 || len(ss.pauses) > 0 && ss.pauses[len(ss.pauses)-1].ToggleSampleIndex == full[len(full)-1].ToggleSampleIndex)
}

type c16Tags struct{}

func (c16Tags) CollectLyrics(string) []metadata.LyricsLine       { return nil }
func (c16Tags) CollectMetadata(string) (m metadata.SongMetadata) { return }
