//go:build verif && go1.21

package schedule

import (
	"errors"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

// c15Tags knows the lyrics and the tags of one file.
type c15Tags struct {
	name   string
	lyrics []metadata.LyricsLine
	tags   metadata.SongMetadata
}

func (t *c15Tags) CollectLyrics(name string) []metadata.LyricsLine {
	v.Assert("the lyrics are those of the song", name == t.name)
	return t.lyrics
}

func (t *c15Tags) CollectMetadata(name string) metadata.SongMetadata {
	v.Assert("the tags are those of the song", name == t.name)
	return t.tags
}

type c15Sender struct {
	sent int
	last *comm.NewSongInfo
}

func (s *c15Sender) SendMessage(m proto.Message) error {
	x, ok := m.(*comm.NewSongInfo)
	v.Assert("a song announcement is sent", ok)
	s.sent++
	s.last = x
	if v.AnyBool() {
		return errors.New("not sent")
	}
	return nil
}

// c15Lyrics is any lyrics: every line has any number of words, or none.
func c15Lyrics() []metadata.LyricsLine {
	n := v.AnyInt(0, v.Bound(1<<40, 6))
	l := make([]metadata.LyricsLine, n)
	v.HavocSlice(l)
	return l
}

// The announcement of a song carries its lyrics and tags. w is any line, a any word of it.
func C15_Announcement(name string, first uint64, length int64, title, artist, album string, w, a int) {
	t := &c15Tags{name: name, lyrics: c15Lyrics(), tags: metadata.SongMetadata{Title: title, Artist: artist, Album: album}}
	lines := v.Snap(t.lyrics)
	words := 0
	if 0 <= w && w < len(lines) {
		words = len(lines[w])
	}
	word := metadata.LyricsAtom{}
	if 0 <= a && a < words {
		word = lines[w][a]
	}
	s := &c15Sender{}
	ss := &serverState{sender: s, lyricsProvider: t, metadataProvider: t}
	v.Inv(func(m int, lyrics []*comm.NewSongInfo_SongLyricsLine) bool {
		return !(0 <= w && w < m) || w < len(lyrics) && lyrics[w] != nil && len(lyrics[w].Atoms) == words &&
			(!(0 <= a && a < words) || lyrics[w].Atoms[a] != nil && lyrics[w].Atoms[a].Timestamp == word.Timestamp && lyrics[w].Atoms[a].Caption == word.Caption)
	})
	v.Inv(func(m, i int, line metadata.LyricsLine, atoms []*comm.NewSongInfo_SongLyricsAtom) bool {
		return !(0 <= a && a < m) || i != w || a < len(atoms) && atoms[a] != nil && atoms[a].Timestamp == word.Timestamp && atoms[a].Caption == word.Caption
	})
	ss.createNewSongHandler()(first, name, length)
	v.Settle()
	v.Ensures("the song is announced once", s.sent == 1)
	m := s.last
	v.Ensures("the announcement is remembered for later clients", ss.newestSong == m)
	v.Ensures("the announcement has the start, name and length", m.FirstSampleOfSongIndex == first && m.SongFileName == name && m.SongLength == length)
	v.Ensures("the announcement has the tags", m.Metadata != nil && m.Metadata.Title == title && m.Metadata.Artist == artist && m.Metadata.Album == album)
	v.Ensures("the announcement has every line", len(m.Lyrics) == len(lines))
	if 0 <= w && w < len(lines) {
		v.Ensures("every line has exactly its words", m.Lyrics[w] != nil && len(m.Lyrics[w].Atoms) == words)
		if 0 <= a && a < words {
			x := m.Lyrics[w].Atoms[a]
			v.Ensures("every word has its time and text", x != nil && x.Timestamp == word.Timestamp && x.Caption == word.Caption)
		}
	}
}
