//go:build verif && go1.21

package playback

import (
	"context"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/faiface/beep"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// c29Files are the open files: any file may be missing or broken, and closing one may fail but closes it.
type c29Files struct {
	opened int      // files open
	last   *os.File // the file opened last, if it is still open
}

func c29Attach() *c29Files {
	fs := &c29Files{}
	v.External("os.Open", func(name string) (*os.File, error) {
		if v.AnyBool() {
			return nil, errors.New("missing")
		}
		fs.last = new(os.File)
		fs.opened++
		return fs.last, nil
	})
	v.External("(*os.File).Close", func(f *os.File) error {
		if f != nil && f == fs.last {
			fs.last = nil
			fs.opened--
		}
		return v.Any[error]()
	})
	v.External("github.com/faiface/beep/mp3.Decode", func(r io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
		f, ok := r.(*os.File)
		v.Assert("an open file is decoded", ok && f != nil && fs.last == f)
		if v.AnyBool() {
			return nil, beep.Format{}, errors.New("broken")
		}
		return &c29Song{fs, f}, beep.Format{}, nil
	})
	return fs
}

// c29Song is a decoded song: closing it closes its file, as the decoder's documentation states.
type c29Song struct {
	fs   *c29Files
	file *os.File
}

func (s *c29Song) Stream(samples [][2]float64) (int, bool) {
	v.Assert("the song is open until it has been streamed", s.fs.last == s.file)
	return v.AnyInt(0, len(samples)), v.AnyBool()
}
func (s *c29Song) Err() error {
	return v.Any[error]()
}
func (s *c29Song) Len() int {
	v.Assert("the song is open until it has been streamed", s.fs.last == s.file)
	return v.AnyInt(0, 1<<40)
}
func (s *c29Song) Position() int      { return v.AnyInt(0, 1<<40) }
func (s *c29Song) Seek(pos int) error { return s.Err() }
func (s *c29Song) Close() error       { return s.file.Close() }

// A song that cannot be opened leaves no file open, one that can leaves its own, which closing the song closes.
//
//govc:norun
func C29_Open(filename string) {
	fs := c29Attach()
	s, err := getStreamer(filename)
	if err != nil {
		v.Cover("not opened")
		v.Ensures("no file is left open when a song cannot be opened", fs.opened == 0)
		return
	}
	v.Cover("opened")
	v.Ensures("an opened song", s != nil)
	v.Ensures("at most the song's file is open", fs.opened <= 1)
	s.Close()
	v.Ensures("closing the song closes the file", fs.opened == 0)
}

type c29Ctx struct{ never, done chan struct{} }

func (c *c29Ctx) Deadline() (time.Time, bool)     { return time.Time{}, false }
func (c *c29Ctx) Err() error                      { return nil }
func (c *c29Ctx) Value(k interface{}) interface{} { return nil }
func (c *c29Ctx) Done() <-chan struct{} {
	if v.AnyBool() {
		return c.done
	}
	return c.never
}

var _ context.Context = (*c29Ctx)(nil)

// However many songs are streamed, between songs and in the end no file is open.
//
//govc:norun
func C29_StreamLoop(songs []string, pos, breakSize int, playing bool) {
	v.Requires(0 <= breakSize)
	pl := &Playlist{
		songs: songs, position: pos, nanBreakSize: breakSize, playing: playing,
		low: v.NewSink[float64](), high: v.NewSink[float64](), forceNext: make(chan bool, 2),
	}
	const playlist = "(*github.com/LogicalOverflow/music-sync/playback.Playlist)."
	v.External(playlist+"nextSong", func(pl *Playlist) string { return v.Any[string]() })
	v.External(playlist+"advance", func(pl *Playlist) {})
	v.External(playlist+"pushSample", func(pl *Playlist, low, high float64) {})
	v.External(playlist+"pushBuffer", func(pl *Playlist, buffer [][2]float64) {})
	v.External(playlist+"pushNanSamples", func(pl *Playlist, count int) {})
	v.External(playlist+"pushNanBreak", func(pl *Playlist) {})
	v.External(playlist+"callPauseToggleHandler", func(pl *Playlist) bool { return v.AnyBool() })
	v.External(playlist+"shouldBreakStreamerPushLoop", func(pl *Playlist, n int, ok bool, bufSize int) bool { return v.AnyBool() })
	v.External(playlist+"takeJump", func(pl *Playlist) bool { return v.AnyBool() })
	fs := c29Attach()
	c := &c29Ctx{make(chan struct{}), make(chan struct{})}
	close(c.done)
	v.Inv(func() bool { return fs.opened == 0 })
	pl.StreamLoop(c)
	v.Ensures("no file is left open", fs.opened == 0)
	v.Cover("the end")
}

// c29Count is the number of files below dir this process has open.
func c29Count(dir string) int {
	n := 0
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink(filepath.Join("/proc/self/fd", fd.Name())); err == nil && strings.HasPrefix(to, dir) {
			n++
		}
	}
	return n
}

// The same with real files (executed).
//
//govc:bounded
func C29_RunSongs(seed int) {
	dir, err := ioutil.TempDir("", "c29")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old := AudioDir
	defer func() { AudioDir = old }()
	AudioDir = dir
	pc := reflect.ValueOf(CombineSamples).Pointer()
	src, _ := runtime.FuncForPC(pc).FileLine(pc)
	okay, err := ioutil.ReadFile(filepath.Join(filepath.Dir(src), "_playback_test_files", "okay.mp3"))
	if err != nil {
		v.Requires(false)
	}
	ioutil.WriteFile(filepath.Join(dir, "good.mp3"), okay[:40000], 0644)
	ioutil.WriteFile(filepath.Join(dir, "broken.mp3"), append(append([]byte(nil), okay[:20000]...), make([]byte, 5000)...), 0644)
	ioutil.WriteFile(filepath.Join(dir, "bad.mp3"), make([]byte, v.AnyInt(0, 3000)), 0644)
	os.Mkdir(filepath.Join(dir, "dir.mp3"), 0755)
	names := []string{"good.mp3", "broken.mp3", "bad.mp3", "dir.mp3", "missing.mp3"}
	songs := []string{"good.mp3"}
	for k := v.AnyInt(0, 5); k > 0; k-- {
		songs = append(songs, names[v.AnyInt(0, len(names)-1)])
	}
	for _, s := range songs {
		st, err := getStreamer(s)
		if err != nil {
			v.Ensures("no file is left open when a song cannot be opened", c29Count(dir) == 0)
		} else {
			st.Close()
			v.Ensures("closing the song closes the file", c29Count(dir) == 0)
		}
	}
	pl := NewPlaylist(1024, songs, 16)
	pl.SetPlaying(true)
	pl.SetNewSongHandler(func(uint64, string, int64) {})
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { pl.StreamLoop(ctx); close(done) }()
	low, high := make([]float64, 4096), make([]float64, 4096)
	for k := 0; k < 30; k++ {
		pl.Fill(low, high)
		v.Ensures("only the song being streamed is open", c29Count(dir) <= 1)
		if k < 10 {
			for _, x := range low {
				v.Ensures("the song is open until it has been streamed", x == x)
			}
		} else if v.AnyInt(0, 3) == 0 {
			pl.SetPos(v.AnyInt(0, len(songs)))
		}
	}
	cancel()
	pl.SetPos(0)
	for stopped := false; !stopped; {
		select {
		case <-pl.low:
		case <-pl.high:
		case <-done:
			stopped = true
		}
	}
	v.Ensures("no file is left open", c29Count(dir) == 0)
}
