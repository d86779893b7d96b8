//go:build verif && go1.21

package schedule

import (
	"errors"
	"fmt"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

// c22World is everything the commands can act on. The playlist operations stand for their contracts (C01, C02),
// number parsing and listing for what they return.
type c22World struct {
	ss *serverState

	numeric bool // whether the argument is a number
	integer int
	float   float64

	removed, removedAt  int
	jumps, jumpedTo     int
	switches            int
	playing             bool
	inserted            int
	volumes             int
	volumeSent          float64
	otherMessages       int
	sendError           error
	songs               []string // the playlist
	listing             []string // the files listed
	found               []string // the songs among them
	listed, filtered    int
	listError           error
	badListing, badFilt bool
}

func (w *c22World) SendMessage(m proto.Message) error {
	if vol, ok := m.(*comm.SetVolumeRequest); ok {
		w.volumes++
		w.volumeSent = vol.Volume
	} else {
		w.otherMessages++
	}
	return w.sendError
}

const c22Pl = "(*github.com/LogicalOverflow/music-sync/playback.Playlist)."

// c22New declares the world; arg is the argument that is parsed as a number.
func c22New(arg string, volume float64) *c22World {
	w := &c22World{numeric: v.Any[bool](), integer: v.Any[int](), float: v.Any[float64]()}
	failed := errors.New("failed")
	if v.Any[bool]() {
		w.sendError = failed
	}
	n := v.AnyInt(0, v.Bound(1<<40, 8))
	w.songs = make([]string, n)
	v.HavocSlice(w.songs)
	w.ss = &serverState{sender: w, playlist: playback.NewPlaylist(10, nil, 0), volume: volume}
	v.External("strconv.Atoi", func(s string) (int, error) {
		v.Assert("the argument is what is parsed", s == arg)
		if w.numeric {
			return w.integer, nil
		}
		return 0, failed
	})
	v.External("strconv.ParseInt", func(s string, base, bits int) (int64, error) {
		v.Assert("the argument is what is parsed", s == arg)
		if base != 10 || bits != 0 && bits != 64 { // not the numbers that Atoi accepts
			if v.AnyBool() {
				return v.Any[int64](), nil
			}
			return v.Any[int64](), failed
		}
		if w.numeric {
			return int64(w.integer), nil
		}
		return 0, failed
	})
	v.External("strconv.ParseFloat", func(s string, bits int) (float64, error) {
		v.Assert("the argument is what is parsed", s == arg && bits == 64)
		if w.numeric {
			return w.float, nil
		}
		return 0, failed
	})
	v.External(c22Pl+"RemoveSong", func(pl *playback.Playlist, index int) string {
		w.removed++
		w.removedAt = index
		return v.Any[string]()
	})
	v.External(c22Pl+"SetPos", func(pl *playback.Playlist, pos int) {
		w.jumps++
		w.jumpedTo = pos
	})
	v.External(c22Pl+"SetPlaying", func(pl *playback.Playlist, playing bool) {
		w.switches++
		w.playing = playing
	})
	v.External(c22Pl+"Playing", func(pl *playback.Playlist) bool { return w.playing })
	v.External(c22Pl+"AddSong", func(pl *playback.Playlist, song string) {
		w.insert(song, len(w.songs))
	})
	v.External(c22Pl+"InsertSong", func(pl *playback.Playlist, song string, index int) {
		at := index
		if at < 0 {
			at = 0
		}
		if len(w.songs) < at {
			at = len(w.songs)
		}
		w.insert(song, at)
	})
	v.External(c22Pl+"Songs", func(pl *playback.Playlist) []string {
		l := make([]string, len(w.songs))
		copy(l, w.songs)
		return l
	})
	return w
}

func (w *c22World) insert(song string, at int) {
	old := w.songs
	w.songs = make([]string, len(old)+1)
	v.HavocSlice(w.songs)
	v.Assume(v.Forall(0, at, func(i int) bool { return w.songs[i] == old[i] }))
	v.Assume(w.songs[at] == song)
	v.Assume(v.Forall(at, len(old), func(i int) bool { return w.songs[i+1] == old[i] }))
	w.inserted++
}

// untouched states that nothing but what is excepted happened.
func (w *c22World) untouched(removed, jumps, switches, inserted, volumes int) {
	v.Ensures("songs are removed as often as asked for", w.removed == removed)
	v.Ensures("there are as many jumps as asked for", w.jumps == jumps)
	v.Ensures("playing is set as often as asked for", w.switches == switches)
	v.Ensures("as many songs are queued as asked for", w.inserted == inserted)
	v.Ensures("the volume is sent as often as asked for", w.volumes == volumes)
	v.Ensures("nothing else is sent", w.otherMessages == 0)
}

// A missing argument changes nothing and is answered with the usage.
//
//govc:norun
func C22_Missing(which int, volume float64) {
	w := c22New("", volume)
	n := len(w.songs)
	v.Requires(0 <= which && which < 4)
	var cmd ssh.Command
	switch which {
	case 0:
		cmd = w.ss.removeCommand()
	case 1:
		cmd = w.ss.jumpCommand()
	case 2:
		cmd = w.ss.volumeCommand()
	case 3:
		cmd = w.ss.queueCommand()
	}
	_, ok := cmd.Exec([]string{})
	v.Ensures("a missing argument is answered with the usage", !ok)
	w.untouched(0, 0, 0, 0, 0)
	v.Ensures("the volume stays", v.SameFloat(w.ss.volume, volume))
	v.Ensures("the playlist stays", len(w.songs) == n)
}

// c22Args is any list of at least one argument starting with arg.
func c22Args(arg string) []string {
	args := make([]string, v.AnyInt(1, v.Bound(1<<40, 4)))
	v.HavocSlice(args)
	args[0] = arg
	return args
}

// Removing acts on the given position.
//
//govc:norun
func C22_Remove(arg string, volume float64) {
	w := c22New(arg, volume)
	_, ok := w.ss.removeCommand().Exec(c22Args(arg))
	v.Ensures("an argument is accepted exactly if it is a number", ok == w.numeric)
	v.Ensures("the volume stays", v.SameFloat(w.ss.volume, volume))
	if !w.numeric {
		w.untouched(0, 0, 0, 0, 0)
		return
	}
	w.untouched(1, 0, 0, 0, 0)
	v.Ensures("the song at the given position is removed", w.removedAt == w.integer)
}

// Jumping goes to the given position.
//
//govc:norun
func C22_Jump(arg string, volume float64) {
	w := c22New(arg, volume)
	_, ok := w.ss.jumpCommand().Exec(c22Args(arg))
	v.Ensures("an argument is accepted exactly if it is a number", ok == w.numeric)
	v.Ensures("the volume stays", v.SameFloat(w.ss.volume, volume))
	if !w.numeric {
		w.untouched(0, 0, 0, 0, 0)
		return
	}
	w.untouched(0, 1, 0, 0, 0)
	v.Ensures("the jump goes to the given position", w.jumpedTo == w.integer)
}

// Setting the volume stores and sends the given one.
//
//govc:norun
func C22_Volume(arg string, volume float64) {
	w := c22New(arg, volume)
	_, ok := w.ss.volumeCommand().Exec(c22Args(arg))
	v.Ensures("an argument is accepted exactly if it is a number", ok == w.numeric)
	if !w.numeric {
		w.untouched(0, 0, 0, 0, 0)
		v.Ensures("the volume stays", v.SameFloat(w.ss.volume, volume))
		return
	}
	w.untouched(0, 0, 0, 0, 1)
	v.Ensures("the given volume is stored", v.SameFloat(w.ss.volume, w.float))
	v.Ensures("the given volume is sent", v.SameFloat(w.volumeSent, w.float))
}

// Pausing and resuming set the playing state, whatever the arguments.
//
//govc:norun
func C22_Playing(resume bool, arg string, volume float64) {
	w := c22New(arg, volume)
	w.playing = v.Any[bool]()
	cmd := w.ss.pauseCommand()
	if resume {
		cmd = w.ss.resumeCommand()
	}
	var args []string
	if v.Any[bool]() {
		args = c22Args(arg)
	}
	_, ok := cmd.Exec(args)
	v.Ensures("pause and resume are accepted", ok)
	v.Ensures("the playing state is as asked for", w.playing == resume)
	w.untouched(0, 0, w.switches, 0, 0)
	v.Ensures("the volume stays", v.SameFloat(w.ss.volume, volume))
}

// Queueing inserts the songs found, together, in order and at the given position.
//
//govc:norun
//govc:looptimeout 20
func C22_Queue(pattern string, second bool, volume float64) {
	position := v.Any[string]()
	w := c22New(position, volume)
	old := w.songs
	args := []string{pattern}
	if second {
		args = []string{pattern, position}
	}
	w.listing = make([]string, v.AnyInt(0, 1<<40))
	w.found = make([]string, v.AnyInt(0, 1<<40))
	v.HavocSlice(w.found)
	if v.Any[bool]() {
		w.listError = w.sendError
	}
	audio := v.Any[string]()
	playback.AudioDir = audio
	v.External("github.com/LogicalOverflow/music-sync/util.ListGlobFiles", func(dir, p string) ([]string, error) {
		v.Assert("the pattern is looked for in the music directory", dir == audio && p == pattern)
		if w.listError != nil {
			return []string{}, w.listError
		}
		return w.listing, nil
	})
	v.External("github.com/LogicalOverflow/music-sync/util.FilterSongs", func(files []string) []string {
		if len(files) == 0 {
			return []string{}
		}
		v.Assert("songs are picked from the listing", len(files) == len(w.listing) && v.Forall(0, len(files), func(i int) bool { return files[i] == w.listing[i] }))
		return w.found
	})
	n := len(old)
	at := n
	if second && w.numeric {
		at = w.integer
		if at < 0 {
			at = 0
		}
		if n < at {
			at = n
		}
	}
	v.Inv(func(i int) bool {
		return 0 <= i && i <= len(w.found) && w.inserted == i && len(w.songs) == n+i &&
			v.Forall(0, at, func(k int) bool { return w.songs[k] == old[k] }) &&
			v.Forall(0, i, func(k int) bool { return w.songs[at+k] == w.found[k] }) &&
			v.Forall(at, n, func(k int) bool { return w.songs[k+i] == old[k] })
	})
	_, ok := w.ss.queueCommand().Exec(args)
	v.Ensures("a pattern is accepted", ok)
	m := len(w.found)
	if w.listError != nil || len(w.listing) == 0 {
		m = 0
	}
	w.untouched(0, 0, 0, m, 0)
	v.Ensures("the volume stays", v.SameFloat(w.ss.volume, volume))
	v.Ensures("exactly the songs found are queued", len(w.songs) == n+m)
	v.Ensures("the songs before stay", v.Forall(0, at, func(k int) bool { return w.songs[k] == old[k] }))
	v.Ensures("the songs found are queued together and in order", v.Forall(0, m, func(k int) bool { return w.songs[at+k] == w.found[k] }))
	v.Ensures("the songs behind stay", v.Forall(at, n, func(k int) bool { return w.songs[k+m] == old[k] }))
}

type c22Sender struct{ got []proto.Message }

func (s *c22Sender) SendMessage(m proto.Message) error {
	s.got = append(s.got, m)
	return nil
}

// Commands on a real playlist and a real music directory (executed).
//
//govc:bounded
func C22_Run(seed int) {
	dir, err := os.MkdirTemp("", "c22")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	old := playback.AudioDir
	defer func() { playback.AudioDir = old }()
	playback.AudioDir = dir
	var files []string
	for i := v.AnyInt(0, 4); i > 0; i-- {
		name := fmt.Sprintf("s%d", v.AnyInt(0, 9))
		if v.AnyInt(0, 3) == 0 {
			os.WriteFile(filepath.Join(dir, name+".txt"), nil, 0600)
		} else if _, err := os.Stat(filepath.Join(dir, name+".mp3")); err != nil {
			os.WriteFile(filepath.Join(dir, name+".mp3"), nil, 0600)
			files = append(files, name+".mp3")
		}
	}
	sort.Strings(files)
	s := &c22Sender{}
	ss := &serverState{sender: s, playlist: playback.NewPlaylist(10, nil, 0), volume: 0.5}
	var songs []string
	volume, sent, playing := 0.5, 0, false
	numbers := []string{"0", "1", "2", "-1", "-3", "7", "+1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "abc", "", "1.5", "1e1", " 1", "0x1", "0b1", "1_0", "010", "NaN", "-Inf", "0x1p-2", "1 "}
	for step := v.AnyInt(1, 8); step > 0; step-- {
		number := numbers[v.AnyInt(0, len(numbers)-1)]
		args := []string{number}
		pos, perr := strconv.Atoi(number)
		if v.AnyInt(0, 5) == 0 {
			args, perr = []string{}, errors.New("missing")
		}
		clip := func(n int) int {
			if pos < 0 {
				return 0
			}
			if n < pos {
				return n
			}
			return pos
		}
		switch v.AnyInt(0, 5) {
		case 0:
			_, ok := ss.removeCommand().Exec(args)
			v.Ensures("an argument is accepted exactly if it is a number", ok == (perr == nil))
			if at := clip(len(songs) - 1); perr == nil && len(songs) > 0 {
				songs = append(append([]string{}, songs[:at]...), songs[at+1:]...)
			}
		case 1:
			before := ss.playlist.Pos()
			_, ok := ss.jumpCommand().Exec(args)
			v.Ensures("an argument is accepted exactly if it is a number", ok == (perr == nil))
			if perr != nil {
				v.Ensures("the position stays", ss.playlist.Pos() == before)
			} else if 0 <= pos && pos < len(songs) {
				v.Ensures("the jump goes to the given position", ss.playlist.Pos() == pos)
			}
		case 2:
			f, ferr := strconv.ParseFloat(number, 64)
			_, ok := ss.volumeCommand().Exec(args)
			ferrs := len(args) == 0 || ferr != nil
			v.Ensures("an argument is accepted exactly if it is a number", ok == !ferrs)
			if !ferrs {
				volume = f
				sent++
				m, ok := s.got[len(s.got)-1].(*comm.SetVolumeRequest)
				v.Ensures("the given volume is sent", ok && v.SameFloat(m.Volume, f))
			}
		case 3:
			cmd := ss.pauseCommand()
			playing = v.AnyBool()
			if playing {
				cmd = ss.resumeCommand()
			}
			_, ok := cmd.Exec(args)
			v.Ensures("pause and resume are accepted", ok)
		default:
			at := len(songs)
			qargs := []string{"*"}
			if len(args) == 1 {
				qargs = append(qargs, number)
				if perr == nil {
					at = clip(len(songs))
				}
			}
			_, ok := ss.queueCommand().Exec(qargs)
			v.Ensures("a pattern is accepted", ok)
			songs = append(append(append([]string{}, songs[:at]...), files...), songs[at:]...)
			_, ok = ss.queueCommand().Exec([]string{})
			v.Ensures("a missing argument is answered with the usage", !ok)
		}
		got := ss.playlist.Songs()
		v.Ensures("the playlist is as the commands ask for", fmt.Sprint(got) == fmt.Sprint(songs))
		v.Ensures("the volume is as the commands ask for", v.SameFloat(ss.volume, volume))
		v.Ensures("the playing state is as the commands ask for", ss.playlist.Playing() == playing)
		v.Ensures("the volume is sent as often as asked for, and nothing else", len(s.got) == sent)
	}
}
