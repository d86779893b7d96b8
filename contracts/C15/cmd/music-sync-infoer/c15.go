//go:build verif && go1.21

package main

import (
	"sort"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c15Info is any announcement as it comes out of the decoder: no line and no word is nil.
func c15Info() *comm.NewSongInfo {
	m := &comm.NewSongInfo{FirstSampleOfSongIndex: v.Any[uint64](), SongFileName: v.Any[string](), SongLength: v.Any[int64]()}
	if v.AnyBool() {
		m.Metadata = &comm.NewSongInfo_SongMetadata{Title: v.Any[string](), Artist: v.Any[string](), Album: v.Any[string]()}
	}
	n := v.AnyInt(0, v.Bound(1<<40, 5))
	m.Lyrics = make([]*comm.NewSongInfo_SongLyricsLine, n)
	v.HavocSlice(m.Lyrics)
	v.Assume(v.Forall(0, n, func(i int) bool {
		return m.Lyrics[i] != nil && v.Forall(0, len(m.Lyrics[i].Atoms), func(j int) bool { return m.Lyrics[i].Atoms[j] != nil })
	}))
	return m
}

// c15Stored states that s is the song of the announcement m. w is any line, a any word of it.
func c15Stored(s upcomingSong, m *comm.NewSongInfo, w, a int) {
	v.Ensures("the start is stored", s.startIndex == m.FirstSampleOfSongIndex)
	v.Ensures("the name is stored", s.filename == m.SongFileName)
	v.Ensures("the length is stored", s.length == m.SongLength)
	md := metadata.SongMetadata{}
	if m.Metadata != nil {
		md = metadata.SongMetadata{Title: m.Metadata.Title, Artist: m.Metadata.Artist, Album: m.Metadata.Album}
	}
	v.Ensures("the tags are stored", s.metadata == md)
	v.Ensures("every line is stored", len(s.lyrics) == len(m.Lyrics))
	if 0 <= w && w < len(m.Lyrics) {
		x := m.Lyrics[w]
		v.Ensures("every line has exactly its words", len(s.lyrics[w]) == len(x.Atoms))
		if 0 <= a && a < len(x.Atoms) {
			v.Ensures("every word has its time and text", s.lyrics[w][a].Timestamp == x.Atoms[a].Timestamp && s.lyrics[w][a].Caption == x.Atoms[a].Caption)
		}
	}
}

// c15Same tells whether s is the same song as o, with the same lyrics.
func c15Same(s, o upcomingSong) bool {
	return s.startIndex == o.startIndex && s.length == o.length && s.filename == o.filename && s.metadata == o.metadata &&
		len(s.lyrics) == len(o.lyrics) && (len(o.lyrics) == 0 || &s.lyrics[0] == &o.lyrics[0])
}

// c15Sorted describes the sorting of a list of songs in order followed by one more, x: x comes after the first q songs.
func c15Sorted(old []upcomingSong, x upcomingSong, q int, l []upcomingSong) bool {
	return len(l) == len(old)+1 && v.Forall(0, len(old)+1, func(i int) bool {
		if i < q {
			return c15Same(l[i], old[i])
		} else if i == q {
			return c15Same(l[i], x)
		}
		return c15Same(l[i], old[i-1])
	})
}

// c15Sort stands for the sorting of the list, all songs of which begin at different indices: a song added to those of old
// goes behind the first q.
func c15Sort(old []upcomingSong, q int) {
	sorted := func(s []upcomingSong) {
		if len(s) != len(old)+1 {
			v.HavocSlice(s)
			return
		}
		x := s[len(old)]
		appended := v.Forall(0, len(old), func(i int) bool { return c15Same(s[i], old[i]) })
		v.HavocSlice(s)
		v.Assume(v.Or(!appended, c15Sorted(old, x, q, s)))
	}
	slice := func(d interface{}, less func(i, j int) bool) {
		s := d.([]upcomingSong)
		i, j := v.AnyInt(0, len(old)), v.AnyInt(0, len(old))
		v.Assert("songs are ordered by start", i >= len(s) || j >= len(s) || less(i, j) == (s[i].startIndex < s[j].startIndex))
		sorted(s)
	}
	v.External("sort.Sort", func(d sort.Interface) { sorted([]upcomingSong(d.(songsByStartIndex))) })
	v.External("sort.Stable", func(d sort.Interface) { sorted([]upcomingSong(d.(songsByStartIndex))) })
	v.External("sort.Slice", slice)
	v.External("sort.SliceStable", slice)
}

// An announcement is stored among any songs known before, which stay. q is the number of songs that begin earlier.
//
//govc:norun
func C15_Store(q int) {
	m := c15Info()
	k := v.AnyInt(0, 1<<40)
	old := make([]upcomingSong, k)
	v.HavocSlice(old)
	first := m.FirstSampleOfSongIndex
	v.Requires(v.Forall(0, k-1, func(i int) bool { return old[i].startIndex < old[i+1].startIndex }))
	v.Requires(0 <= q && q <= k && v.Forall(0, q, func(i int) bool { return old[i].startIndex < first }))
	v.Requires(v.Forall(q, k, func(i int) bool { return first < old[i].startIndex }))
	currentState = &state{Songs: append([]upcomingSong(nil), old...)}
	v.Guarded("the list of songs", &currentState.SongsMutex, &currentState.Songs)
	c15Sort(old, q)
	c15Insert(old, q)
	(&infoerPackageHandler{}).HandleNewSongInfo(m, nil)
	v.Ensures("one song is added", len(currentState.Songs) == k+1)
	v.Ensures("the songs known before stay in order", c15Sorted(old, currentState.Songs[q], q, currentState.Songs))
	c15Stored(currentState.Songs[q], m, -1, 0)
}

// c15Insert proposes how an insertion can go: by moving entries from the end, or by looking for the place.
func c15Insert(old []upcomingSong, q int) {
	k := len(old)
	v.Inv(func(i int, x upcomingSong) bool { return q <= i && i <= k && c15Sorted(old, x, i, currentState.Songs) })
	v.Inv(func(i int) bool { return q <= i && i <= k })
	v.Inv(func(i int) bool { return 0 <= i && i <= q })
}

// The lyrics of an announcement are stored. w is any line, a any word of it.
//
//govc:norun
func C15_Lyrics(w, a int) {
	m := c15Info()
	v.Requires(0 <= w && w < len(m.Lyrics))
	words := v.Snap(m.Lyrics[w].Atoms)
	currentState = &state{}
	c15Sort(nil, 0)
	at := func(i int) comm.NewSongInfo_SongLyricsAtom { return *words[i] }
	v.Inv(func(i int, lyrics []metadata.LyricsLine) bool {
		return !(w < i) || w < len(lyrics) && len(lyrics[w]) == len(words) &&
			(!(0 <= a && a < len(words)) || lyrics[w][a].Timestamp == at(a).Timestamp && lyrics[w][a].Caption == at(a).Caption)
	})
	v.Inv(func(i, j int, lyrics []metadata.LyricsLine) bool {
		return i != w || w < len(lyrics) && len(lyrics[w]) == len(words) && (!(0 <= a && a < j) || a < len(words) && lyrics[w][a].Timestamp == at(a).Timestamp && lyrics[w][a].Caption == at(a).Caption)
	})
	v.Inv(func(i, j int, atoms []metadata.LyricsAtom) bool {
		return !(0 <= a && a < j) || i != w || a < len(atoms) && a < len(words) && atoms[a].Timestamp == at(a).Timestamp && atoms[a].Caption == at(a).Caption
	})
	(&infoerPackageHandler{}).HandleNewSongInfo(m, nil)
	c15Stored(currentState.Songs[len(currentState.Songs)-1], m, w, a)
}

// Putting the list in order keeps every song whole.
func C15_Swap(i, j, k int) {
	n := v.AnyInt(1, v.Bound(1<<40, 8))
	s := make([]upcomingSong, n)
	v.HavocSlice(s)
	i, j, k = c15In(i, n), c15In(j, n), c15In(k, n)
	old := v.Snap(s)
	l := songsByStartIndex(s)
	v.Ensures("all songs are put in order", l.Len() == n)
	l.Swap(i, j)
	o := k
	if k == i {
		o = j
	} else if k == j {
		o = i
	}
	v.Ensures("a song moves as a whole", s[k].startIndex == old[o].startIndex && s[k].filename == old[o].filename && s[k].length == old[o].length && s[k].metadata == old[o].metadata)
	v.Ensures("a song keeps its lyrics", len(s[k].lyrics) == len(old[o].lyrics) && (len(s[k].lyrics) == 0 || &s[k].lyrics[0] == &old[o].lyrics[0]))
}

func c15In(i, n int) int {
	if i < 0 || i >= n {
		return 0
	}
	return i
}

// Announcements received one after the other, with everything as it runs (executed).
//
//govc:bounded
func C15_Received(seed int) {
	currentState = &state{}
	var ms []*comm.NewSongInfo
	for k := v.AnyInt(1, 6); k > 0; k-- {
		m := &comm.NewSongInfo{SongFileName: v.Any[string](), SongLength: v.Any[int64]()}
		if v.AnyBool() {
			m.Metadata = &comm.NewSongInfo_SongMetadata{Title: v.Any[string](), Artist: v.Any[string](), Album: v.Any[string]()}
		}
		for i := v.AnyInt(0, 4); i > 0; i-- {
			l := &comm.NewSongInfo_SongLyricsLine{}
			for j := v.AnyInt(0, 3); j > 0; j-- {
				l.Atoms = append(l.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: v.Any[int64](), Caption: v.Any[string]()})
			}
			m.Lyrics = append(m.Lyrics, l)
		}
		m.FirstSampleOfSongIndex = uint64(10*k) + uint64(v.AnyInt(0, 4)*25)
		for _, o := range ms {
			if o.FirstSampleOfSongIndex == m.FirstSampleOfSongIndex {
				m.FirstSampleOfSongIndex += 1000 + uint64(k)
			}
		}
		ms = append(ms, m)
		newInfoerPackageHandler().Handle(m, nil)
	}
	v.Settle()
	v.Ensures("every announced song is known", len(currentState.Songs) == len(ms))
	for _, m := range ms {
		found := false
		for _, s := range currentState.Songs {
			if s.startIndex == m.FirstSampleOfSongIndex {
				v.Ensures("every announced song is known once", !found)
				found = true
				c15Stored(s, m, -1, 0)
				for w, l := range m.Lyrics {
					c15Stored(s, m, w, -1)
					for a := range l.Atoms {
						c15Stored(s, m, w, a)
					}
				}
			}
		}
		v.Ensures("every announced song is known", found)
	}
}
