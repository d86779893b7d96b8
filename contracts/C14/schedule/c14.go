//go:build verif && go1.21

package schedule

import (
	"errors"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

// c14Sender checks what a new client is sent.
type c14Sender struct {
	ss     *serverState
	volume float64
	song   *comm.NewSongInfo
	list   []*comm.PauseInfo

	volumes, songs, pauses int
}

func (s *c14Sender) SendMessage(m proto.Message) error {
	switch x := m.(type) {
	case *comm.SetVolumeRequest:
		s.volumes++
		v.Assert("the current volume is sent", v.SameFloat(x.Volume, s.volume))
	case *comm.NewSongInfo:
		s.songs++
		v.Assert("the newest song is sent", x == s.song)
	case *comm.PauseInfo:
		v.Assert("the remembered toggles are sent in order, none twice", s.pauses < len(s.list) && x == s.list[s.pauses])
		s.pauses++
	default:
		v.Assert("nothing else is sent", false)
	}
	if v.AnyBool() {
		return errors.New("not sent")
	}
	return nil
}

// c14Nobody must not be sent anything.
type c14Nobody struct{}

func (c14Nobody) SendMessage(m proto.Message) error {
	v.Assert("only the new client is sent anything", false)
	return nil
}

func C14_Subscribed(channel comm.Channel, volume float64, hasSong bool) {
	ss := &serverState{volume: volume, sender: c14Nobody{}}
	n := v.AnyInt(0, v.Bound(1<<40, 20))
	list := make([]*comm.PauseInfo, n)
	v.HavocSlice(list)
	ss.pauses = list
	s := &c14Sender{ss: ss, volume: volume, list: v.Snap(list)}
	if hasSong {
		s.song = &comm.NewSongInfo{SongFileName: "song"}
		ss.newestSong = s.song
	}
	v.Guarded("the list of pause toggles", &ss.pausesMutex, &ss.pauses)
	v.Guarded("the volume", &ss.volumeMutex, &ss.volume)
	v.Guarded("the newest song", &ss.newestSongMutex, &ss.newestSong)
	v.Inv(func(i int) bool { return s.pauses == i })
	ss.createClientHandler()(channel, s)
	v.Settle()
	switch channel {
	case comm.Channel_AUDIO:
		v.Ensures("a new audio client is sent the volume once and nothing else", s.volumes == 1 && s.songs == 0 && s.pauses == 0)
	case comm.Channel_META:
		v.Ensures("a new meta client is sent the volume once", s.volumes == 1)
		v.Ensures("a new meta client is sent the newest song once, if there is one", hasSong && s.songs == 1 || !hasSong && s.songs == 0)
		v.Ensures("a new meta client is sent every remembered toggle", s.pauses == n)
	default:
		v.Ensures("other channels carry no state", s.volumes == 0 && s.songs == 0 && s.pauses == 0)
	}
}

// c14Channels makes the executed contract meet all channels often.
func C14_AllChannels(volume float64, hasSong bool) {
	c := v.AnyInt(-1, 3)
	C14_Subscribed(comm.Channel(c), volume, hasSong)
}

type c14Tags struct{}

func (c14Tags) CollectLyrics(string) []metadata.LyricsLine       { return nil }
func (c14Tags) CollectMetadata(string) (m metadata.SongMetadata) { return }

// c14Songs is the broadcasts and what a new client is sent of songs.
type c14Songs struct {
	sent int
	last *comm.NewSongInfo
}

func (s *c14Songs) SendMessage(m proto.Message) error {
	if x, ok := m.(*comm.NewSongInfo); ok {
		s.sent++
		s.last = x
	}
	return nil
}

// The newest song is the one that starts last, even if its announcement overtakes the one of the song before.
func C14_NewestSong(a, b, c uint64) {
	ss := &serverState{sender: &c14Songs{}, lyricsProvider: c14Tags{}, metadataProvider: c14Tags{}}
	h := ss.createNewSongHandler()
	h(a, "a", 1)
	h(b, "b", 2)
	h(c, "c", 3)
	v.Settle()
	s := &c14Songs{}
	ss.createClientHandler()(comm.Channel_META, s)
	v.Settle()
	v.Ensures("a new meta client is sent one song", s.sent == 1)
	first := s.last.FirstSampleOfSongIndex
	v.Ensures("it is the song that starts last", a <= first && b <= first && c <= first)
	v.Ensures("it is one of the songs", v.Or(first == a && s.last.SongFileName == "a", v.Or(first == b && s.last.SongFileName == "b", first == c && s.last.SongFileName == "c")))
}
