//go:build verif && go1.21

package comm

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"reflect"
	"time"

	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

// c10Fault is a failure that may call itself temporary or a timeout.
type c10Fault struct{ temporary, timeout bool }

func (e *c10Fault) Error() string   { return "the connection failed" }
func (e *c10Fault) Temporary() bool { return e.temporary }
func (e *c10Fault) Timeout() bool   { return e.timeout }

// c10Failure is any failure of a connection.
func c10Failure() error {
	switch v.AnyInt(0, 3) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return &c10Fault{temporary: v.AnyBool(), timeout: v.AnyBool()}
	}
	return errors.New("the connection failed")
}

// c10Conn is a connection that delivers any number of its bytes at a time and may fail at any time.
type c10Conn struct {
	net.Conn
	src    []byte
	done   int
	failed bool
	closed bool
}

func (c *c10Conn) Read(p []byte) (int, error) {
	v.Assert("nothing is read after an error", !c.failed)
	n := v.AnyInt(0, len(p))
	if n > len(c.src)-c.done {
		n = len(c.src) - c.done
	}
	if n == 0 && c.done == len(c.src) || v.AnyInt(0, 9999) == 0 {
		c.failed = true
		return 0, c10Failure()
	}
	copy(p, c.src[c.done:c.done+n])
	c.done += n
	return n, nil
}

func (c *c10Conn) Write(p []byte) (int, error) {
	if c.closed || v.AnyBool() {
		return 0, errors.New("the connection failed")
	}
	return len(p), nil
}

func (c *c10Conn) Close() error { c.closed = true; return nil }

type c10Addr struct{}

func (c10Addr) Network() string { return "tcp" }
func (c10Addr) String() string  { return "peer" }

func (c *c10Conn) RemoteAddr() net.Addr             { return c10Addr{} }
func (c *c10Conn) LocalAddr() net.Addr              { return c10Addr{} }
func (c *c10Conn) SetDeadline(time.Time) error      { return nil }
func (c *c10Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *c10Conn) SetWriteDeadline(time.Time) error { return nil }

type c10Type struct{ reflect.Type }

func (c10Type) Elem() reflect.Type { return c10Type{} }

// Any bytes at all: no crash, and either a message or an error. Decoding and decompressing may fail or deliver
// anything.
//
//govc:norun
func C10_ReadWire(src []byte) {
	c := &c10Conn{src: v.Snap(src)}
	m := &PongMessage{}
	bad := false
	fails := func() bool {
		if v.AnyBool() {
			bad = true
		}
		return bad
	}
	v.External("github.com/golang/protobuf/proto.Unmarshal", func(b []byte, x proto.Message) error {
		v.Assert("nothing is decoded after an error", !bad && !c.failed)
		if fails() {
			return errors.New("not decoded")
		}
		if e, ok := x.(*Envelope); ok {
			e.Type = v.Any[string]()
			e.Data = v.Any[[]byte]()
		}
		return nil
	})
	v.External("github.com/golang/protobuf/proto.MessageType", func(n string) reflect.Type {
		if fails() {
			return nil
		}
		return c10Type{}
	})
	v.External("reflect.New", func(t reflect.Type) reflect.Value { return reflect.Value{} })
	v.External("(reflect.Value).Interface", func(reflect.Value) interface{} { return m })
	v.External("bytes.NewReader", func(b []byte) *bytes.Reader { return &bytes.Reader{} })
	v.External("compress/zlib.NewReader", func(r io.Reader) (io.ReadCloser, error) {
		if fails() {
			return nil, zlib.ErrHeader
		}
		return c, nil
	})
	l := &io.LimitedReader{}
	v.External("io.LimitReader", func(r io.Reader, n int64) io.Reader {
		v.Assert("the decompressed size is limited", n <= 1<<28+1)
		l.N = n
		return l
	})
	v.External("io/ioutil.ReadAll", func(r io.Reader) ([]byte, error) {
		v.Assert("the decompressed size is limited", r == io.Reader(l))
		if fails() {
			return v.Any[[]byte](), errors.New("broken data")
		}
		data := v.Any[[]byte]()
		v.Assume(int64(len(data)) <= l.N)
		if int64(len(data)) == l.N && v.AnyBool() { // there was more
			bad = true
		}
		return data, nil
	})
	v.Inv(func() bool { return !c.failed && 0 <= c.done && c.done <= len(c.src) })
	v.Inv(func(read int) bool { return 0 <= read && read == c.done })
	v.Inv(func(read int) bool { return 0 <= read && read == c.done-8 })
	r, err := readWire(c)
	if err != nil {
		v.Cover("an error")
		v.Ensures("no message comes with an error", r == nil)
		return
	}
	v.Cover("a message")
	v.Ensures("no message is delivered from malformed data", !bad && !c.failed)
	v.Ensures("a message is delivered", r == proto.Message(m))
}

type c10Handler struct {
	conn    net.Conn
	got     int
	handled int
	last    proto.Message
	failed  bool
}

func (h *c10Handler) Handle(m proto.Message, c net.Conn) {
	v.Assert("only a message is handled, and with its connection", m != nil && m == h.last && c == h.conn)
	v.Assert("every message is handled once", h.got == h.handled+1)
	v.Assert("no message is handled after an error", !h.failed)
	h.handled++
}

// After an error the connection is closed and nothing of it is handled any more.
//
//govc:norun
func C10_Connection() {
	c := &c10Conn{}
	h := &c10Handler{conn: c}
	v.External("github.com/LogicalOverflow/music-sync/comm.readWire", func(from net.Conn) (proto.Message, error) {
		v.Assert("its own connection is read", from == net.Conn(c) && !c.closed)
		v.Assert("nothing is read after an error", !h.failed)
		if v.AnyBool() {
			h.failed = true
			return nil, c10Failure()
		}
		h.last = &PingMessage{}
		h.got++
		return h.last, nil
	})
	v.Inv(func() bool { return !c.closed && !h.failed && h.got == h.handled && h.got >= 0 })
	handleConnection(c, h)
	v.Ensures("handling ends with an error", h.failed)
	v.Ensures("every message before it was handled", h.got == h.handled)
	v.Ensures("the connection is closed", c.closed)
}

func c10Bytes(n int) []byte {
	b := make([]byte, v.AnyInt(0, n))
	for i := range b {
		b[i] = byte(v.AnyInt(0, 255))
	}
	return b
}

// c10Frame is a frame, mostly malformed; good tells whether it is not.
func c10Frame() (frame []byte, good bool) {
	frame, good, _ = c10FrameOf(v.AnyInt(0, 9))
	return
}

// c10FrameOf is a frame of the kind; whole tells whether it is as long as it says.
func c10FrameOf(kind int) (frame []byte, good, whole bool) {
	inner, _ := proto.Marshal(&QueueChunkRequest{StartTime: int64(v.AnyInt(0, 1<<40)), SampleLow: make([]float64, v.AnyInt(0, 9)), SampleHigh: make([]float64, v.AnyInt(0, 9))})
	name := "comm.QueueChunkRequest"
	if kind == 1 { // an unknown type
		name = []string{"", "x", "comm.Unknown", "comm.NewSongInfo.SongLyrics", "google.protobuf.Any", "\xff"}[v.AnyInt(0, 5)]
	}
	if kind == 2 { // not decodable
		inner = append(inner, 0xff, 0xff, 0xff)
	}
	packed := new(bytes.Buffer)
	w := zlib.NewWriter(packed)
	w.Write(inner)
	w.Close()
	data := packed.Bytes()
	if kind == 3 { // not compressed
		data = c10Bytes(20)
	}
	if kind == 4 { // truncated compressed data
		data = data[:v.AnyInt(0, len(data)-1)]
	}
	if kind == 5 { // damaged compressed data
		data[len(data)-1-v.AnyInt(0, 3)] ^= byte(v.AnyInt(1, 255))
	}
	env, _ := proto.Marshal(&Envelope{Type: name, Data: data})
	if kind == 6 { // a broken envelope
		env = append(env, 0xff)
	}
	size := uint64(len(env))
	if kind == 7 { // an impossible length
		size = []uint64{1 << 63, 1<<63 - 1, ^uint64(0), 1 << 62, 1 << 40, 1<<28 + 1, 1 << 32, ^uint64(7), 1<<64 - 9}[v.AnyInt(0, 8)]
	}
	if kind == 8 { // a wrong length
		size = uint64(v.AnyInt(0, len(env)-1))
	}
	frame = make([]byte, 8)
	binary.LittleEndian.PutUint64(frame, size)
	frame = append(frame, env...)
	if kind == 9 { // a truncated frame
		frame = frame[:v.AnyInt(0, len(frame)-1)]
	}
	return frame, kind == 0, kind < 7
}

type c10Counter struct{ got int }

func (h *c10Counter) Handle(m proto.Message, _ net.Conn) {
	v.Assert("only a message is handled", m != nil && !reflect.ValueOf(m).IsNil())
	h.got++
}

// Malformed frames after good ones, executed with the real decoding and decompression.
//
//govc:bounded
func C10_Malformed(seed int) {
	c := &c10Conn{}
	n := 0
	ok, complete := true, false
	for k := v.AnyInt(1, 4); k > 0; k-- {
		f, good, whole := c10FrameOf(v.AnyInt(0, 9))
		c.src = append(c.src, f...)
		complete = whole
		if !good {
			ok = false
		}
		if !ok {
			break
		}
		n++
	}
	if complete && !ok { // whatever follows the malformed frame
		for k := v.AnyInt(0, 2); k > 0; k-- {
			f, _, _ := c10FrameOf(0)
			c.src = append(c.src, f...)
		}
	}
	h := &c10Counter{}
	v.Ensures("no crash", !v.CatchPanic(func() { handleConnection(c, h) }))
	v.Ensures("the connection is closed", c.closed)
	v.Ensures("nothing after an error is handled", h.got <= n)
	v.Ensures("every message before it was handled", h.got == n || c.failed && c.done < len(c.src))
}

// A single frame.
//
//govc:bounded
func C10_Frame(seed int) {
	c := &c10Conn{}
	good := false
	c.src, good = c10Frame()
	r, err := readWire(c)
	v.Ensures("no message comes with an error", (r == nil) == (err != nil))
	v.Ensures("no message is delivered from malformed data", err != nil || good && !c.failed)
	v.Ensures("a message is delivered", err == nil || !good || c.failed)
}

// Any bytes.
//
//govc:bounded
func C10_Noise(seed int) {
	c := &c10Conn{src: c10Bytes(60)}
	if len(c.src) >= 8 && v.AnyBool() {
		binary.LittleEndian.PutUint64(c.src, uint64(v.AnyInt(0, len(c.src))))
	} else if len(c.src) >= 8 {
		c.src[4] |= 1
	}
	v.Ensures("no crash", !v.CatchPanic(func() { handleConnection(c, &c10Counter{}) }))
	v.Ensures("the connection is closed", c.closed)
}

// No message crashes the server's handlers, with and without a new-client handler.
func C10_Server(send, recv int64, channel Channel, volume float64, first, size uint64, name string) {
	var messages [10]proto.Message
	messages[0] = &TimeSyncRequest{ClientSend: send}
	messages[1] = &TimeSyncResponse{ClientSendTime: send, ServerRecvTime: recv}
	messages[2] = &QueueChunkRequest{StartTime: send, FirstSampleIndex: first}
	messages[3] = &PingMessage{}
	messages[4] = &PongMessage{}
	messages[5] = &SetVolumeRequest{Volume: volume}
	messages[6] = &SubscribeChannelRequest{Channel: channel}
	messages[7] = &NewSongInfo{FirstSampleOfSongIndex: first, SongFileName: name}
	messages[8] = &ChunkInfo{StartTime: send, ChunkSize: size}
	messages[9] = &PauseInfo{ToggleSampleIndex: size}
	m := messages[v.AnyInt(0, 9)]
	c := &c10Conn{}
	mms := &multiMessageSender{connections: []net.Conn{}, channels: map[net.Conn][]Channel{}}
	if v.AnyBool() {
		mms.AddConn(c)
	}
	NewClientHandler = nil
	if v.AnyBool() {
		NewClientHandler = func(Channel, MessageSender) {}
	}
	h := newServerPackageHandler(mms)
	h.Handle(m, c)
	v.Settle()
	NewClientHandler = nil
	v.Ensures("every message is handled without a crash and leaves the registry usable", len(mms.connections) <= 1)
}
