//go:build verif && go1.21

package metadata

import (
	"bytes"
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/LogicalOverflow/music-sync/playback"
	v "github.com/LogicalOverflow/music-sync/verifspec"
)

func c15Frame(id, text string) []byte {
	b := append([]byte{3}, text...) // UTF-8
	n := len(b)
	return append(append([]byte(id), 0, 0, byte(n>>7&127), byte(n&127), 0, 0), b...)
}

func c15Text() string {
	t := []string{"a", "title", "é ü", "two words", "x\\y", "\"quoted\"", "1"}
	return t[v.AnyInt(0, len(t)-1)]
}

// What is found for a file is what the files beside it and in it say (executed).
//
//govc:bounded
func C15_Found(seed int) {
	dir, err := ioutil.TempDir("", "c15")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old := playback.AudioDir
	defer func() { playback.AudioDir = old }()
	playback.AudioDir = dir
	os.MkdirAll(filepath.Join(dir, "sub"), 0755)
	songs := []string{"a.mp3", "b.mp3", "sub/a.mp3", "c d.mp3", "E.MP3", "e", "f.g.mp3"}
	lyrics := map[string][]LyricsLine{}
	tags := map[string]SongMetadata{}
	for _, s := range songs {
		lines := make([]LyricsLine, v.AnyInt(0, 4))
		for i := range lines {
			lines[i] = make(LyricsLine, v.AnyInt(0, 3))
			for j := range lines[i] {
				lines[i][j] = LyricsAtom{Timestamp: v.Any[int64](), Caption: c15Text()}
			}
		}
		switch v.AnyInt(0, 4) {
		case 0: // no lyrics
			lines = nil
		case 1: // not lyrics
			lines = nil
			ioutil.WriteFile(filepath.Join(dir, s+".json"), []byte("[[{\"timestamp\": 1},"), 0644)
		default:
			b, _ := json.Marshal(lines)
			if v.AnyBool() { // more may be known of a word
				b = bytes.Replace(b, []byte("{"), []byte("{\"length\": 3, "), -1)
			}
			ioutil.WriteFile(filepath.Join(dir, s+".json"), b, 0644)
		}
		lyrics[s] = lines
		switch v.AnyInt(0, 4) {
		case 0: // no song
		case 1: // no tags
			ioutil.WriteFile(filepath.Join(dir, s), []byte("no tags here"), 0644)
		default:
			tags[s] = SongMetadata{Title: c15Text(), Artist: c15Text(), Album: c15Text()}
			f := append(append(c15Frame("TIT2", tags[s].Title), c15Frame("TPE1", tags[s].Artist)...), c15Frame("TALB", tags[s].Album)...)
			n := len(f)
			b := append([]byte{'I', 'D', '3', 4, 0, 0, 0, 0, byte(n >> 7 & 127), byte(n & 127)}, f...)
			ioutil.WriteFile(filepath.Join(dir, s), append(b, make([]byte, 200)...), 0644)
		}
	}
	for _, s := range songs {
		l := GetLyricsProvider().CollectLyrics(s)
		v.Ensures("the lyrics of the song are found", len(l) == len(lyrics[s]))
		for i, line := range lyrics[s] {
			v.Ensures("every line is found", len(l[i]) == len(line))
			for j, a := range line {
				v.Ensures("every word is found", l[i][j] == a)
			}
		}
		v.Ensures("the tags of the song are found", GetProvider().CollectMetadata(s) == tags[s])
	}
}
