//go:build verif && go1.21

package playback

import (
	"context"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"sync"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

type c04Start struct {
	start  uint64
	name   string
	length int64
}

type c04Change struct {
	playing bool
	sample  uint64
}

type c04Heard struct {
	mu      sync.Mutex
	starts  []c04Start
	changes []c04Change
}

func (h *c04Heard) count() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.starts)
}

// c04Decoded are the samples of the song at the path, and the length it claims to have.
func c04Decoded(name string) ([][2]float64, int64) {
	s, err := getStreamer(name)
	if err != nil {
		return nil, -1
	}
	defer s.Close()
	r := [][2]float64{}
	buf := make([][2]float64, streamerBufferSize)
	for {
		n, ok := s.Stream(buf)
		r = append(r, buf[:n]...)
		if !ok || n < len(buf) {
			return r, int64(s.Len())
		}
	}
}

// A playlist of real songs, some of which cannot be opened, with pauses (executed).
//
//govc:bounded
func C04_Run(seed int) {
	dir, err := ioutil.TempDir("", "c04")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old := AudioDir
	defer func() { AudioDir = old }()
	AudioDir = dir
	pc := reflect.ValueOf(CombineSamples).Pointer()
	src, _ := runtime.FuncForPC(pc).FileLine(pc)
	okay, err := ioutil.ReadFile(filepath.Join(filepath.Dir(src), "_playback_test_files", "okay.mp3"))
	v.Requires(err == nil && len(okay) > 30000)
	ioutil.WriteFile(filepath.Join(dir, "a.mp3"), okay[:v.AnyInt(4000, 12000)], 0644)
	ioutil.WriteFile(filepath.Join(dir, "b.mp3"), okay[8000:v.AnyInt(14000, 20000)], 0644)
	ioutil.WriteFile(filepath.Join(dir, "a1.mp3"), okay[:v.AnyInt(4000, 12000)], 0644)
	ioutil.WriteFile(filepath.Join(dir, "bad.mp3"), make([]byte, v.AnyInt(0, 3000)), 0644)
	names := []string{"a.mp3", "b.mp3", "a1.mp3", "bad.mp3", "missing.mp3"}
	samples, lengths := map[string][][2]float64{}, map[string]int64{}
	for _, n := range names {
		samples[n], lengths[n] = c04Decoded(n)
	}
	v.Requires(lengths["a.mp3"] >= 0)
	songs := []string{"a.mp3"}
	for k := v.AnyInt(0, 5); k > 0; k-- {
		songs = append(songs, names[v.AnyInt(0, len(names)-1)])
	}
	var order []string // the songs that can be opened
	for _, s := range songs {
		if lengths[s] >= 0 {
			order = append(order, s)
		}
	}
	nans := v.AnyInt(0, 20)
	pl := NewPlaylist(v.AnyInt(0, 2000), songs, nans)
	playing := v.AnyBool()
	pl.SetPlaying(playing)
	h := &c04Heard{}
	pl.SetNewSongHandler(func(start uint64, name string, length int64) {
		h.mu.Lock()
		defer h.mu.Unlock()
		h.starts = append(h.starts, c04Start{start, name, length})
	})
	pl.SetPauseToggleHandler(func(playing bool, sample uint64) {
		h.mu.Lock()
		defer h.mu.Unlock()
		h.changes = append(h.changes, c04Change{playing, sample})
	})
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { pl.StreamLoop(ctx); close(done) }()
	var stream [][2]float64
	low, high := make([]float64, 1000), make([]float64, 1000)
	pauses := v.AnyBool()
	for k := 0; k < 200 && h.count() < len(order)+2; k++ {
		first := pl.Fill(low, high)
		v.Ensures("the stream is read without gaps", first == uint64(len(stream)))
		for i := range low {
			stream = append(stream, [2]float64{low[i], high[i]})
		}
		if !playing || pauses && v.AnyInt(0, 9) == 0 {
			playing = !playing
			pl.SetPlaying(playing)
		}
	}
	cancel()
	pl.SetPos(0)
	for stopped := false; !stopped; {
		select {
		case <-pl.low:
		case <-pl.high:
		case <-done:
			stopped = true
		}
	}
	v.Settle()
	h.mu.Lock()
	defer h.mu.Unlock()
	sort.Slice(h.starts, func(i, j int) bool { return h.starts[i].start < h.starts[j].start })
	sort.Slice(h.changes, func(i, j int) bool { return h.changes[i].sample < h.changes[j].sample })
	v.Ensures("a song starts with the stream", len(h.starts) > 0 && h.starts[0].start == 0)
	state := true
	for _, c := range h.changes {
		v.Ensures("a toggle is announced only when the state changed", c.playing != state)
		state = c.playing
	}
	for k, s := range h.starts {
		if k+1 == len(h.starts) && s.start >= uint64(len(stream)) {
			break
		}
		want := order[k%len(order)]
		v.Ensures("exactly the songs that start streaming are announced, with their names", s.name == want)
		v.Ensures("a song is announced with its length", s.length == lengths[want])
		if k+1 == len(h.starts) || h.starts[k+1].start > uint64(len(stream)) {
			break
		}
		i := 0
		for at := s.start; at < h.starts[k+1].start; at++ {
			if x := stream[at]; !math.IsNaN(x[0]) {
				v.Ensures("a song is announced with the index of its first sample", i < len(samples[want]) && x == samples[want][i])
				i++
			}
		}
		v.Ensures("a song is announced before its samples", i == len(samples[want]))
	}
	next := 0
	state = true
	for at, x := range stream {
		for next < len(h.changes) && h.changes[next].sample <= uint64(at) {
			state = h.changes[next].playing
			next++
		}
		v.Ensures("samples of songs are streamed only while playing is the announced state", state || math.IsNaN(x[0]))
	}
}
