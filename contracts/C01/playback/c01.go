//go:build verif && go1.21

package playback

import v "github.com/LogicalOverflow/music-sync/verifspec"

// any playlist whose lock is free
func c01Playlist(songs []string, pos int) *Playlist {
	return &Playlist{songs: songs, position: pos, forceNext: make(chan bool, 2)}
}

func c01Clip(i, n int) int {
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return i
}

// Adding appends the song and changes nothing else.
func C01_AddSong(songs []string, pos int, song string) {
	pl := c01Playlist(songs, pos)
	old := v.Snap(songs)
	pl.AddSong(song)
	v.Ensures("length grows by one", len(pl.songs) == len(old)+1)
	v.Ensures("song appended", pl.songs[len(old)] == song)
	v.Ensures("other songs unchanged", v.Forall(0, len(old), func(i int) bool { return pl.songs[i] == old[i] }))
	v.Ensures("position unchanged", pl.position == pos)
}

// Inserting puts the song at the clipped index and shifts the ones behind it by one.
func C01_InsertSong(songs []string, pos int, song string, index int) {
	pl := c01Playlist(songs, pos)
	old := v.Snap(songs)
	pl.InsertSong(song, index)
	at := c01Clip(index, len(old))
	v.Ensures("length grows by one", len(pl.songs) == len(old)+1)
	v.Ensures("song at clipped index", pl.songs[at] == song)
	v.Ensures("songs before unchanged", v.Forall(0, at, func(i int) bool { return pl.songs[i] == old[i] }))
	v.Ensures("songs after shifted", v.Forall(at, len(old), func(i int) bool { return pl.songs[i+1] == old[i] }))
	v.Ensures("position unchanged", pl.position == pos)
}

// Removing takes out and returns the song at the clipped index.
func C01_RemoveSong(songs []string, pos int, index int) {
	pl := c01Playlist(songs, pos)
	old := v.Snap(songs)
	r := pl.RemoveSong(index)
	if len(old) == 0 {
		v.Cover("empty playlist")
		v.Ensures("empty playlist stays empty", len(pl.songs) == 0)
		v.Ensures("empty name on an empty playlist", r == "")
		return
	}
	at := c01Clip(index, len(old)-1)
	v.Ensures("length shrinks by one", len(pl.songs) == len(old)-1)
	v.Ensures("returns the song at the clipped index", r == old[at])
	v.Ensures("songs before unchanged", v.Forall(0, at, func(i int) bool { return pl.songs[i] == old[i] }))
	v.Ensures("songs after shifted", v.Forall(at, len(old)-1, func(i int) bool { return pl.songs[i] == old[i+1] }))
	v.Ensures("position unchanged", pl.position == pos)
}

// A listing equals the playlist and shares no memory with it.
func C01_Songs(songs []string, pos int, i int, x string) {
	pl := c01Playlist(songs, pos)
	old := v.Snap(songs)
	l := pl.Songs()
	v.Ensures("same length", len(l) == len(old))
	v.Ensures("same songs", v.Forall(0, len(old), func(k int) bool { return l[k] == old[k] }))
	v.Ensures("playlist unchanged", len(pl.songs) == len(old) && v.Forall(0, len(old), func(k int) bool { return pl.songs[k] == old[k] }))
	v.Requires(0 <= i && i < len(l))
	l[i] = x
	v.Ensures("changing the listing does not change the playlist", v.Forall(0, len(old), func(k int) bool { return pl.songs[k] == old[k] }))
	l2 := v.Snap(l)
	pl.songs[i] = "other"
	v.Ensures("changing the playlist does not change the listing", v.Forall(0, len(old), func(k int) bool { return l[k] == l2[k] }))
}

// Appending to a listing never writes into the playlist.
func C01_SongsAppend(songs []string, song string, x string) {
	pl := c01Playlist(songs, 0)
	l := pl.Songs()
	pl.AddSong(song)
	l = append(l, x)
	v.Ensures("playlist keeps its own new song", pl.songs[len(pl.songs)-1] == song)
	v.Ensures("listing keeps its own new song", l[len(l)-1] == x)
}

// A new playlist holds exactly the given songs.
func C01_NewPlaylist(songs []string, buf, brk int) {
	v.Requires(0 <= buf && buf <= 100000)
	old := v.Snap(songs)
	pl := NewPlaylist(buf, songs, brk)
	l := pl.Songs()
	v.Ensures("same songs", len(l) == len(old) && v.Forall(0, len(old), func(k int) bool { return l[k] == old[k] }))
}
