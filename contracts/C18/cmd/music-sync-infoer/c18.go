//go:build verif && go1.21

package main

import (
	"sort"

	"github.com/LogicalOverflow/music-sync/comm"
	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c18Pauses is any list of toggles in order, in the range of real use.
func c18Pauses(n int) []pauseToggle {
	l := make([]pauseToggle, n)
	v.HavocSlice(l)
	v.Assume(v.Forall(0, n, func(i int) bool { return l[i].toggleIndex < 1<<62 }))
	v.Assume(v.Forall(0, n, func(i int) bool {
		return v.Forall(0, i, func(j int) bool { return l[j].toggleIndex <= l[i].toggleIndex })
	}))
	return l
}

// c18Stretch is the length of the part of the stretch from a to b that lies in the song beginning at start.
func c18Stretch(a, b, start int64) int64 {
	if a < start {
		a = start
	}
	if b < start {
		b = start
	}
	return b - a
}

// c18Before tells whether it plays before toggle k: playing at the beginning, and then as the last toggle says.
func c18Before(l []pauseToggle, k int) bool { return k == 0 || l[k-1].playing }

// c18Total is the total length of the paused stretches of the song before toggle k.
func c18Total(l []pauseToggle, start int64) func(k int) int64 {
	return v.Rec(int64(0), func(k int, prev int64) int64 {
		if k < len(l) && !c18Before(l, k) {
			return prev + c18Stretch(int64(l[k-1].toggleIndex), int64(l[k].toggleIndex), start)
		}
		return prev
	})
}

// The playing state and the paused time at a position. q is the number of toggles before the position.
//
//govc:norun
func C18_Paused(start uint64, sample int64, q int) {
	n := v.AnyInt(0, 1<<40)
	l := c18Pauses(n)
	v.Requires(start < 1<<62 && -(1<<62) < sample && sample < 1<<62)
	v.Requires(0 <= q && q <= n)
	v.Requires(v.Forall(0, q, func(i int) bool { return int64(l[i].toggleIndex) < sample }))
	v.Requires(v.Forall(q, n, func(i int) bool { return sample <= int64(l[i].toggleIndex) }))
	total := c18Total(l, int64(start))
	s := &state{Pauses: append([]pauseToggle(nil), l...)}
	v.Guarded("the list of toggles", &s.PausesMutex, &s.Pauses)
	at := func(i int) int {
		if i < q {
			return i
		}
		return q
	}
	v.Inv(func(i int, p *pausesInCurrentSongState) bool { return p.playing == c18Before(l, at(i)) })
	v.Inv(func(i int, p *pausesInCurrentSongState) bool {
		return !p.playing || p.pausesInCurrentSong == total(at(i))
	})
	v.Inv(func(i int, p *pausesInCurrentSongState) bool {
		return p.playing || at(i) > 0 && p.pausesInCurrentSong+c18Stretch(int64(start), int64(l[at(i)-1].toggleIndex), int64(start))+int64(start)-p.pauseBegin == total(at(i))
	})
	v.Inv(func(i int) bool {
		return at(i) == 0 || int64(l[at(i)-1].toggleIndex) > int64(start) || total(at(i)) == 0
	})
	v.Inv(func(i int) bool {
		return 0 <= total(at(i)) && (at(i) == 0 || total(at(i)) <= int64(l[at(i)-1].toggleIndex))
	})
	v.Inv(func(p *pausesInCurrentSongState) bool {
		return -(1<<62) <= p.pausesInCurrentSong && p.pausesInCurrentSong <= 1<<62 && 0 <= p.pauseBegin && p.pauseBegin < 1<<62
	})
	paused, playing := s.pausesInCurrentSong(sample, upcomingSong{filename: v.Any[string](), startIndex: start, length: v.Any[int64]()})
	v.Ensures("the playing state is that of the last toggle before the position", playing == c18Before(l, q))
	want := total(q)
	if !c18Before(l, q) {
		want += c18Stretch(int64(l[q-1].toggleIndex), sample, int64(start))
	}
	v.Ensures("the paused time is that of the paused stretches of the song", sample < int64(start) || paused == want)
}

// c18Dropped states that l may be cut down to kept when the song starts at start.
func c18Dropped(l, kept []pauseToggle, start uint64) bool {
	r := len(l) - len(kept)
	return 0 <= r && r <= len(l) && v.Forall(0, len(kept), func(i int) bool { return i+r < len(l) && kept[i] == l[i+r] }) &&
		(r == 0 || r < len(l) && l[r].toggleIndex <= start || l[r-1].playing && l[r-1].toggleIndex <= start)
}

// Old toggles are dropped.
func C18_Drop(start uint64) {
	n := v.AnyInt(0, v.Bound(1<<40, 12))
	l := make([]pauseToggle, n)
	v.HavocSlice(l)
	s := &state{Pauses: append([]pauseToggle(nil), l...)}
	v.Guarded("the list of toggles", &s.PausesMutex, &s.Pauses)
	v.Inv(func(passed int) bool {
		return 0 <= passed && (passed == 0 || passed < n && l[passed].toggleIndex <= start || passed <= n && l[passed-1].playing && l[passed-1].toggleIndex <= start)
	})
	v.Inv(func(i, passed int) bool { return passed <= i })
	v.Inv(func(i, passed int) bool { return passed <= i+1 })
	v.Inv(func(passed int) bool {
		return len(s.Pauses) == n && v.Forall(0, n-passed, func(k int) bool { return s.Pauses[k] == l[k+passed] })
	})
	s.removeOldPauses(upcomingSong{filename: v.Any[string](), startIndex: start, length: v.Any[int64]()})
	v.Ensures("toggles are only dropped at the front, up to the song, and leave the state at its start", c18Dropped(l, s.Pauses, start))
}

// What C18_Drop leaves gives the same playing state and paused time at every position of the song.
//
//govc:norun
func C18_SameAfterDrop(start uint64, q int) {
	n := v.AnyInt(0, 1<<40)
	l := c18Pauses(n)
	r := v.AnyInt(0, n)
	kept := make([]pauseToggle, n-r)
	v.HavocSlice(kept)
	v.Assume(start < 1<<62 && c18Dropped(l, kept, start))
	// q toggles lie before the position, which is after the start of the song
	v.Requires(0 <= q && q <= n && v.Forall(q, n, func(i int) bool { return l[i].toggleIndex > start }))
	total, keptTotal := c18Total(l, int64(start)), c18Total(kept, int64(start))
	if r == 0 {
		v.Inv(func(k int) bool { return total(k) == keptTotal(k) })
		for k := 0; k < q; k++ {
		}
		v.Ensures("dropping nothing changes nothing", total(q) == keptTotal(q))
		return
	}
	first := r // the first toggle that matters
	if !l[r-1].playing || l[r-1].toggleIndex > start {
		first = r + 1
	}
	v.Lemma("the song begins after the toggle kept", q >= first)
	v.Inv(func(k int) bool { return total(k) == 0 })
	k := 0
	for ; k < first; k++ {
	}
	v.DropInvs()
	v.Lemma("nothing is paused in the song before", total(first) == 0)
	v.Inv(func(k int) bool { return first <= k && total(k) == keptTotal(k-r) })
	for ; k < q; k++ {
	}
	v.Ensures("dropping old toggles keeps the paused time", total(q) == keptTotal(q-r))
	v.Ensures("dropping old toggles keeps the playing state", c18Before(l, q) == c18Before(kept, q-r))
}

// The song at a position. q is the number of songs before the position, among songs in order.
//
//govc:norun
func C18_Song(sample int64, q int) {
	n := v.AnyInt(0, 1<<40)
	l := make([]upcomingSong, n)
	v.HavocSlice(l)
	v.Assume(v.Forall(0, n, func(i int) bool { return l[i].startIndex < 1<<62 }))
	v.Requires(0 <= q && q <= n)
	v.Requires(v.Forall(0, q, func(i int) bool { return int64(l[i].startIndex) < sample }))
	v.Requires(v.Forall(q, n, func(i int) bool { return sample <= int64(l[i].startIndex) }))
	s := &state{Songs: append([]upcomingSong(nil), l...)}
	v.Guarded("the list of songs", &s.SongsMutex, &s.Songs)
	c18Search(l, q)
	got := s.currentSong(sample)
	c18IsSong(got, l, q)
}

// c18Search proposes how a search for the song can go: from the end, or from the start remembering the last song begun.
func c18Search(l []upcomingSong, q int) {
	n := len(l)
	v.Inv(func(i int) bool { return q-1 <= i && i < n })
	v.Inv(func(i int) bool { return 0 <= i && i <= n-q })
	v.Inv(func(i int, known bool) bool { return 0 <= i && i <= q && known == (i > 0) })
	v.Inv(func(i int, s upcomingSong) bool {
		if i == 0 {
			return s.filename == "None" && s.startIndex == 0 && s.length == 0 && len(s.lyrics) == 0
		}
		return 0 <= i && i <= q && c18Same(s, l[i-1])
	})
}

func c18Same(s, w upcomingSong) bool {
	return s.startIndex == w.startIndex && s.filename == w.filename && s.length == w.length && s.metadata == w.metadata &&
		len(s.lyrics) == len(w.lyrics) && (len(w.lyrics) == 0 || &s.lyrics[0] == &w.lyrics[0])
}

func c18IsSong(got upcomingSong, l []upcomingSong, q int) {
	if q == 0 {
		v.Ensures("before the first song there is none", got.filename == "None" && got.startIndex == 0 && got.length == 0 && len(got.lyrics) == 0)
		return
	}
	w := l[q-1]
	v.Ensures("the current song is the last one begun", got.startIndex == w.startIndex && got.filename == w.filename && got.length == w.length && got.metadata == w.metadata)
	v.Ensures("the current song has its lyrics", len(got.lyrics) == len(w.lyrics) && (len(w.lyrics) == 0 || &got.lyrics[0] == &w.lyrics[0]))
}

// c18Sorted describes the sorting of a list of toggles in order followed by one more, x: x comes after the first q toggles.
func c18Sorted(old []pauseToggle, x pauseToggle, q int, l []pauseToggle) bool {
	return len(l) == len(old)+1 && v.Forall(0, len(old)+1, func(i int) bool {
		if i < q {
			return l[i] == old[i]
		} else if i == q {
			return l[i] == x
		}
		return l[i] == old[i-1]
	})
}

// A toggle announced is added as it was announced to the toggles known, behind all of those at its index or before.
//
//govc:norun
func C18_Arrive(playing bool, at uint64, q int) {
	k := v.AnyInt(0, 1<<40)
	old := make([]pauseToggle, k)
	v.HavocSlice(old)
	v.Requires(v.Forall(0, k-1, func(i int) bool { return old[i].toggleIndex <= old[i+1].toggleIndex }))
	v.Requires(0 <= q && q <= k && v.Forall(0, q, func(i int) bool { return old[i].toggleIndex <= at }))
	v.Requires(v.Forall(q, k, func(i int) bool { return at < old[i].toggleIndex }))
	currentState = &state{Pauses: append([]pauseToggle(nil), old...)}
	v.Guarded("the list of toggles", &currentState.PausesMutex, &currentState.Pauses)
	x := pauseToggle{playing: playing, toggleIndex: at}
	// the order has to be kept among toggles at the same index, so only stable sorting will do
	stable := func(s []pauseToggle) {
		appended := v.And(len(s) == k+1, v.And(s[k] == x, v.Forall(0, k, func(i int) bool { return s[i] == old[i] })))
		v.HavocSlice(s)
		v.Assume(v.Or(!appended, c18Sorted(old, x, q, s)))
	}
	v.External("sort.Stable", func(d sort.Interface) { stable([]pauseToggle(d.(pauseByToggleIndex))) })
	v.External("sort.SliceStable", func(d interface{}, less func(i, j int) bool) {
		s := d.([]pauseToggle)
		i, j := v.AnyInt(0, k), v.AnyInt(0, k)
		v.Assert("toggles are ordered by stream index", i >= len(s) || j >= len(s) || less(i, j) == (s[i].toggleIndex < s[j].toggleIndex))
		stable(s)
	})
	// the ways an insertion can go: by moving entries from the end, or by looking for the place
	v.Inv(func(i int, l []pauseToggle) bool { return q <= i && i <= k && c18Sorted(old, x, i, l) })
	v.Inv(func(i int) bool { return q <= i && i <= k && c18Sorted(old, x, i, currentState.Pauses) })
	v.Inv(func(i int) bool { return q <= i && i <= k })
	v.Inv(func(i int) bool { return 0 <= i && i <= q })
	(&infoerPackageHandler{}).HandlePauseInfo(&comm.PauseInfo{Playing: playing, ToggleSampleIndex: at}, nil)
	v.Ensures("one toggle is added", len(currentState.Pauses) == k+1)
	v.Ensures("a toggle is added as announced, in its place", currentState.Pauses[q] == x)
	v.Ensures("the toggles known before stay in order", c18Sorted(old, x, q, currentState.Pauses))
}

// The lists are put in order by stream index, every entry staying whole.
func C18_Order(i, j, k int) {
	n := v.AnyInt(1, v.Bound(1<<40, 8))
	i, j, k = c18In(i, n), c18In(j, n), c18In(k, n)
	o := k
	if k == i {
		o = j
	} else if k == j {
		o = i
	}
	p := make([]pauseToggle, n)
	v.HavocSlice(p)
	oldP := v.Snap(p)
	lp := pauseByToggleIndex(p)
	v.Ensures("all toggles are put in order", lp.Len() == n)
	v.Ensures("toggles are ordered by stream index", lp.Less(i, j) == (p[i].toggleIndex < p[j].toggleIndex))
	lp.Swap(i, j)
	v.Ensures("a toggle moves as a whole", p[k] == oldP[o])
	s := make([]upcomingSong, n)
	v.HavocSlice(s)
	ls := songsByStartIndex(s)
	v.Ensures("all songs are put in order", ls.Len() == n)
	v.Ensures("songs are ordered by start", ls.Less(i, j) == (s[i].startIndex < s[j].startIndex))
	first := s[o].startIndex
	ls.Swap(i, j)
	v.Ensures("a song moves", s[k].startIndex == first) // and as a whole: see C15
}

func c18In(i, n int) int {
	if i < 0 || i >= n {
		return 0
	}
	return i
}

// c18Count counts the paused samples of the song one by one.
func c18Count(l []pauseToggle, start, sample int64) (paused int64, playing bool) {
	for p := start; ; p++ {
		playing = true
		for _, t := range l {
			if int64(t.toggleIndex) < p || p < sample && int64(t.toggleIndex) == p {
				playing = t.playing
			}
		}
		if p >= sample {
			return
		}
		if !playing {
			paused++
		}
	}
}

// Songs and toggles arriving in any order, and what is shown at increasing positions (executed).
//
//govc:bounded
func C18_Run(seed int) {
	currentState = &state{}
	h := newInfoerPackageHandler()
	var songs []upcomingSong
	var toggles []pauseToggle
	pos := v.AnyInt(-5, 5)
	for k := v.AnyInt(1, 30); k > 0; k-- {
		switch v.AnyInt(0, 3) {
		case 0:
			song := upcomingSong{filename: "s", startIndex: uint64(v.AnyInt(0, 12)*5 + len(songs)%5), length: int64(v.AnyInt(-2, 5000))}
			for _, o := range songs {
				if o.startIndex == song.startIndex {
					song.startIndex += 100 + uint64(k)
				}
			}
			h.HandleNewSongInfo(&comm.NewSongInfo{FirstSampleOfSongIndex: song.startIndex, SongFileName: "s", SongLength: song.length}, nil)
			i := len(songs)
			for i > 0 && songs[i-1].startIndex > song.startIndex {
				i--
			}
			songs = append(songs[:i], append([]upcomingSong{song}, songs[i:]...)...)
		case 1, 2:
			t := pauseToggle{playing: v.AnyBool(), toggleIndex: uint64(v.AnyInt(0, 30))}
			if len(toggles) > 0 && v.AnyBool() {
				t.toggleIndex = toggles[len(toggles)-1].toggleIndex
			}
			if c := currentState.currentSong(int64(pos)); t.toggleIndex < c.startIndex {
				t.toggleIndex = c.startIndex // toggles long past do not arrive any more
			}
			h.HandlePauseInfo(&comm.PauseInfo{Playing: t.playing, ToggleSampleIndex: t.toggleIndex}, nil)
			i := len(toggles)
			for i > 0 && toggles[i-1].toggleIndex > t.toggleIndex {
				i--
			}
			toggles = append(toggles[:i], append([]pauseToggle{t}, toggles[i:]...)...)
		case 3:
			pos += v.AnyInt(0, 9)
		}
		q := 0
		for q < len(songs) && int64(songs[q].startIndex) < int64(pos) {
			q++
		}
		song := currentState.currentSong(int64(pos))
		c18IsSong(song, songs, q)
		if v.AnyBool() {
			currentState.removeOldPauses(song)
		}
		if int64(song.startIndex) <= int64(pos) || q == 0 {
			paused, playing := currentState.pausesInCurrentSong(int64(pos), song)
			wantPaused, wantPlaying := c18Count(toggles, int64(song.startIndex), int64(pos))
			v.Ensures("the playing state is that of the last toggle before the position", playing == wantPlaying)
			v.Ensures("the paused time is that of the paused stretches of the song", pos < 0 || paused == wantPaused)
		}
	}
}
