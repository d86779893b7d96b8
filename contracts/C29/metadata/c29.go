//go:build verif && go1.21

package metadata

import (
	"encoding/json"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/dhowden/tag"

	"github.com/LogicalOverflow/music-sync/playback"
	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c29Files are the open files: any file may be missing or unreadable, and closing one may fail but closes it.
type c29Files struct {
	opened int      // files open
	last   *os.File // the file opened last, if it is still open
}

func c29Attach() *c29Files {
	fs := &c29Files{}
	v.External("github.com/LogicalOverflow/music-sync/util.IsFile", func(name string) bool { return v.AnyBool() })
	v.External("os.Open", func(name string) (*os.File, error) {
		if v.AnyBool() {
			return nil, errors.New("missing")
		}
		fs.last = new(os.File)
		fs.opened++
		return fs.last, nil
	})
	v.External("(*os.File).Close", func(f *os.File) error {
		if f != nil && f == fs.last {
			fs.last = nil
			fs.opened--
		}
		return v.Any[error]()
	})
	return fs
}

// Reading lyrics leaves no file open, whatever the file is like.
//
//govc:norun
func C29_Lyrics(song string) {
	fs := c29Attach()
	v.External("encoding/json.NewDecoder", func(r io.Reader) *json.Decoder {
		f, ok := r.(*os.File)
		v.Assert("an open file is read", ok && f != nil && f == fs.last)
		return new(json.Decoder)
	})
	v.External("(*encoding/json.Decoder).Decode", func(d *json.Decoder, x interface{}) error {
		v.Assert("an open file is read", fs.opened > 0)
		if p, ok := x.(*[]LyricsLine); ok {
			*p = v.Any[[]LyricsLine]()
		}
		return v.Any[error]()
	})
	basicLyricsProvider{}.CollectLyrics(song)
	v.Ensures("no file is left open", fs.opened == 0)
	v.Cover("the end")
}

type c29Tags struct{ tag.Metadata }

func (c29Tags) Title() string  { return v.Any[string]() }
func (c29Tags) Artist() string { return v.Any[string]() }
func (c29Tags) Album() string  { return v.Any[string]() }

// Reading tags leaves no file open, whatever the file is like.
//
//govc:norun
func C29_Tags(song string) {
	fs := c29Attach()
	v.External("github.com/dhowden/tag.ReadFrom", func(r io.ReadSeeker) (tag.Metadata, error) {
		f, ok := r.(*os.File)
		v.Assert("an open file is read", ok && f != nil && f == fs.last)
		if v.AnyBool() {
			return nil, errors.New("broken")
		}
		return c29Tags{}, nil
	})
	basicProvider{}.CollectMetadata(song)
	v.Ensures("no file is left open", fs.opened == 0)
	v.Cover("the end")
}

// c29Count is the number of files below dir this process has open.
func c29Count(dir string) int {
	n := 0
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink(filepath.Join("/proc/self/fd", fd.Name())); err == nil && strings.HasPrefix(to, dir) {
			n++
		}
	}
	return n
}

// The same with real files (executed).
//
//govc:bounded
func C29_RunFound(seed int) {
	dir, err := ioutil.TempDir("", "c29")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old := playback.AudioDir
	defer func() { playback.AudioDir = old }()
	playback.AudioDir = dir
	texts := []string{"", "[]", "[[]]", "[[{\"timestamp\":1,\"caption\":\"x\"}]]", "{", "[[{\"timestamp\":\"x\"}]]", "ID3\x03\x00\x00\x00\x00\x00\x00", "ID3", "TAG", strings.Repeat("x", 5000)}
	names := []string{"a.mp3", "b.mp3", "c.mp3"}
	for _, n := range names {
		if v.AnyInt(0, 3) > 0 {
			ioutil.WriteFile(filepath.Join(dir, n), []byte(texts[v.AnyInt(0, len(texts)-1)]), 0644)
		}
		if v.AnyInt(0, 3) > 0 {
			ioutil.WriteFile(filepath.Join(dir, n+".json"), []byte(texts[v.AnyInt(0, len(texts)-1)]), 0644)
		} else if v.AnyBool() {
			os.Mkdir(filepath.Join(dir, n+".json"), 0755)
		}
	}
	for k := 0; k < 3; k++ {
		for _, n := range append(names, "missing.mp3", "") {
			GetLyricsProvider().CollectLyrics(n)
			v.Ensures("no file is left open after reading lyrics", c29Count(dir) == 0)
			GetProvider().CollectMetadata(n)
			v.Ensures("no file is left open after reading tags", c29Count(dir) == 0)
		}
	}
}
