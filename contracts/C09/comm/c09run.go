//go:build verif && go1.21

package comm

import (
	"bytes"
	"compress/zlib"
	"errors"
	"io"
	"net"

	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

func c09Floats() []float64 {
	n := 40
	if v.AnyInt(0, 19) == 0 {
		n = 30000
	}
	r := make([]float64, v.AnyInt(0, n))
	for i := range r {
		r[i] = v.Any[float64]()
	}
	return r
}

func c09Text() string {
	return []string{"", "a", "song.mp3", "ä\u2028ö", "x\n\x00y", "0123456789012345678901234567890123456789"}[v.AnyInt(0, 5)]
}

func c09AnyMessage() proto.Message {
	i, u := v.Any[int64](), v.Any[uint64]()
	switch v.AnyInt(0, 9) {
	case 0:
		return &TimeSyncRequest{ClientSend: i}
	case 1:
		return &TimeSyncResponse{ClientSendTime: i, ServerRecvTime: v.Any[int64](), ServerSendTime: v.Any[int64]()}
	case 2:
		return &QueueChunkRequest{StartTime: i, ChunkId: v.Any[int64](), SampleLow: c09Floats(), SampleHigh: c09Floats(), FirstSampleIndex: u}
	case 3:
		return &PingMessage{}
	case 4:
		return &PongMessage{}
	case 5:
		return &SetVolumeRequest{Volume: v.Any[float64]()}
	case 6:
		return &SubscribeChannelRequest{Channel: Channel(v.AnyInt(-2, 3))}
	case 7:
		n := &NewSongInfo{FirstSampleOfSongIndex: u, SongFileName: c09Text(), SongLength: i}
		for k := v.AnyInt(0, 3); k > 0; k-- {
			l := &NewSongInfo_SongLyricsLine{}
			for j := v.AnyInt(0, 3); j > 0; j-- {
				l.Atoms = append(l.Atoms, &NewSongInfo_SongLyricsAtom{Timestamp: v.Any[int64](), Caption: c09Text()})
			}
			n.Lyrics = append(n.Lyrics, l)
		}
		if v.AnyBool() {
			n.Metadata = &NewSongInfo_SongMetadata{Title: c09Text(), Artist: c09Text(), Album: c09Text()}
		}
		return n
	case 8:
		return &ChunkInfo{StartTime: i, FirstSampleIndex: u, ChunkSize: v.Any[uint64]()}
	default:
		return &PauseInfo{Playing: v.AnyBool(), ToggleSampleIndex: u}
	}
}

// c09Same compares as sent: the encodings, so that NaNs are values like others.
func c09Same(a, b proto.Message) bool {
	x, err1 := proto.Marshal(a)
	y, err2 := proto.Marshal(b)
	return err1 == nil && err2 == nil && proto.MessageName(a) == proto.MessageName(b) && bytes.Equal(x, y)
}

// Messages sent one after another arrive, whatever way the network splits writes and reads, executed with
// the real encoding and compression.
//
//govc:bounded
func C09_RoundTrip(seed int) {
	var sent []proto.Message
	var stream []byte
	var ends []int
	for k := v.AnyInt(1, 3); k > 0; k-- {
		m := c09AnyMessage()
		wire, err := toWire(m)
		v.Ensures("a message encodes", err == nil)
		v.Ensures("the length is the envelope's", len(wire) >= 8 && c09Size(wire) == uint64(len(wire)-8))
		c := &c09Writer{want: wire}
		err = sendWire(m, c)
		c09Written(c, err)
		if err != nil {
			return
		}
		sent = append(sent, m)
		stream = append(stream, wire...)
		ends = append(ends, len(stream))
	}
	c := &c09Reader{src: stream}
	for i, m := range sent {
		c.limit = ends[i]
		r, err := readWire(c)
		if c.failed {
			v.Ensures("the read error is reported and no message is", r == nil && err == c.err)
			return
		}
		v.Ensures("no error is reported otherwise", err == nil)
		v.Ensures("exactly one frame is consumed", c.done == ends[i])
		v.Ensures("the message that was sent is delivered", c09Same(r, m))
	}
}

// c09Whole is a connection that delivers as much as it is asked for.
type c09Whole struct {
	net.Conn
	r *bytes.Reader
}

func (c *c09Whole) Read(p []byte) (int, error) { return c.r.Read(p) }

// Large messages, whether they compress well or not.
//
//govc:bounded
func C09_Large(seed int) {
	low, high := make([]float64, v.AnyInt(0, 1<<20)), make([]float64, v.AnyInt(0, 1<<18))
	if v.AnyBool() {
		low = low[:len(low)/4]
		x := uint64(v.AnyInt(1, 1<<40))
		for i := range low {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			low[i] = float64(x)
		}
	}
	m := &QueueChunkRequest{SampleLow: low, SampleHigh: high}
	wire, err := toWire(m)
	v.Ensures("a message encodes", err == nil)
	v.Ensures("the length is the envelope's", len(wire) >= 8 && c09Size(wire) == uint64(len(wire)-8))
	c := &c09Whole{r: bytes.NewReader(wire)}
	r, err := readWire(c)
	v.Ensures("no error is reported", err == nil)
	v.Ensures("the whole frame is consumed", c.r.Len() == 0)
	v.Ensures("the message that was sent is delivered", c09Same(r, m))
}

type c09Z struct {
	r      io.Reader
	closed bool
}

func (z *c09Z) Read([]byte) (int, error) { return 0, io.EOF }
func (z *c09Z) Close() error             { z.closed = true; return nil }

type c09Limited struct {
	io.Reader
	of io.Reader
	n  int64
}

// Decompressing gives everything the decompressor delivers, or an error.
//
//govc:norun
func C09_Decompress(packed []byte) {
	data := v.Any[[]byte]()
	badHead, badData := v.AnyBool(), v.AnyBool()
	z := &c09Z{}
	src := &bytes.Reader{}
	v.External("bytes.NewReader", func(b []byte) *bytes.Reader {
		v.Assert("the compressed data is read", c09Equal(b, packed))
		return src
	})
	v.External("compress/zlib.NewReader", func(r io.Reader) (io.ReadCloser, error) {
		v.Assert("the compressed data is read", z.r == nil && r == io.Reader(src))
		if badHead {
			return nil, zlib.ErrHeader
		}
		z.r = r
		return z, nil
	})
	l := &io.LimitedReader{}
	v.External("io.LimitReader", func(r io.Reader, n int64) io.Reader {
		v.Assert("the decompressed data is read, as much as is allowed and some more", r == io.Reader(z) && n > 1<<28)
		l.N = n
		return l
	})
	v.External("io/ioutil.ReadAll", func(r io.Reader) ([]byte, error) {
		v.Assert("all of it is read", r == io.Reader(z) || r == io.Reader(l))
		if badData {
			return nil, errors.New("broken data")
		}
		if r == io.Reader(l) && int64(len(data)) > l.N {
			data = data[:l.N]
		}
		return data, nil
	})
	full := v.Snap(data)
	r, err := decompress(packed)
	if badHead || badData {
		v.Cover("broken")
		v.Ensures("broken data is reported", err != nil)
	}
	if err != nil {
		v.Ensures("no data comes with an error", r == nil)
		v.Ensures("good data is not reported", badHead || badData || len(full) > 1<<28)
		return
	}
	v.Cover("decompressed")
	v.Ensures("all data is delivered", c09Equal(r, full))
}
