//go:build verif && go1.21

package comm

import (
	"errors"
	"net"
	"sync"

	"github.com/LogicalOverflow/music-sync/timing"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

type c13Conn struct {
	net.Conn
	mutex sync.Mutex
	wrote []byte
	fails bool
}

func (c *c13Conn) Write(p []byte) (int, error) {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	if c.fails {
		return 0, errors.New("a broken connection")
	}
	c.wrote = append(c.wrote, p...)
	return len(p), nil
}

func (c *c13Conn) Read(p []byte) (int, error) {
	n := copy(p, c.wrote)
	if n == 0 {
		return 0, errors.New("no more data")
	}
	c.wrote = c.wrote[n:]
	return n, nil
}
func (c *c13Conn) Close() error         { return nil }
func (c *c13Conn) RemoteAddr() net.Addr { return &net.TCPAddr{} }

// c13Handler records what it is called with.
type c13Handler struct {
	mutex sync.Mutex
	count int
	kind  int
	m     proto.Message
	c     net.Conn
}

func (h *c13Handler) called(kind int, m proto.Message, c net.Conn) {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	h.count++
	h.kind, h.m, h.c = kind, m, c
}

func (h *c13Handler) HandleTimeSyncRequest(m *TimeSyncRequest, c net.Conn)     { h.called(0, m, c) }
func (h *c13Handler) HandleTimeSyncResponse(m *TimeSyncResponse, c net.Conn)   { h.called(1, m, c) }
func (h *c13Handler) HandleQueueChunkRequest(m *QueueChunkRequest, c net.Conn) { h.called(2, m, c) }
func (h *c13Handler) HandlePingMessage(m *PingMessage, c net.Conn)             { h.called(3, m, c) }
func (h *c13Handler) HandlePongMessage(m *PongMessage, c net.Conn)             { h.called(4, m, c) }
func (h *c13Handler) HandleSetVolumeRequest(m *SetVolumeRequest, c net.Conn)   { h.called(5, m, c) }
func (h *c13Handler) HandleSubscribeChannelRequest(m *SubscribeChannelRequest, c net.Conn) {
	h.called(6, m, c)
}
func (h *c13Handler) HandleNewSongInfo(m *NewSongInfo, c net.Conn) { h.called(7, m, c) }
func (h *c13Handler) HandleChunkInfo(m *ChunkInfo, c net.Conn)     { h.called(8, m, c) }
func (h *c13Handler) HandlePauseInfo(m *PauseInfo, c net.Conn)     { h.called(9, m, c) }

// c13Message is any message of a kind; the kinds from 10 on have no handler.
func c13Message(kind int) proto.Message {
	switch kind {
	case 0:
		return &TimeSyncRequest{ClientSend: v.Any[int64]()}
	case 1:
		return &TimeSyncResponse{ClientSendTime: v.Any[int64](), ServerRecvTime: v.Any[int64](), ServerSendTime: v.Any[int64]()}
	case 2:
		return &QueueChunkRequest{StartTime: v.Any[int64](), ChunkId: v.Any[int64](), FirstSampleIndex: v.Any[uint64]()}
	case 3:
		return &PingMessage{}
	case 4:
		return &PongMessage{}
	case 5:
		return &SetVolumeRequest{Volume: v.Any[float64]()}
	case 6:
		return &SubscribeChannelRequest{Channel: v.Any[Channel]()}
	case 7:
		return &NewSongInfo{FirstSampleOfSongIndex: v.Any[uint64](), SongFileName: v.Any[string]()}
	case 8:
		return &ChunkInfo{StartTime: v.Any[int64](), FirstSampleIndex: v.Any[uint64](), ChunkSize: v.Any[uint64]()}
	case 9:
		return &PauseInfo{Playing: v.Any[bool](), ToggleSampleIndex: v.Any[uint64]()}
	case 10:
		return &Envelope{}
	case 11:
		return &NewSongInfo_SongLyricsLine{}
	}
	return &NewSongInfo_SongMetadata{}
}

// Every message reaches exactly its own handler.
func C13_Dispatch(seed int64) {
	kind := v.AnyInt(0, 12)
	m := c13Message(kind)
	c := &c13Conn{}
	h := &c13Handler{kind: -1}
	TypedPackageHandler{TypedPackageHandlerInterface: h}.Handle(m, c)
	v.Settle()
	h.mutex.Lock()
	if kind < 10 {
		v.Ensures("exactly one handler is called", h.count == 1)
		v.Ensures("it is the handler of the type", h.kind == kind)
		v.Ensures("the message is unchanged", h.m == m)
		v.Ensures("the connection is the one it came from", h.c == net.Conn(c))
	} else {
		v.Ensures("other messages are ignored", h.count == 0)
	}
	h.mutex.Unlock()
}

// What the server does with a message of any kind: the replies it sends and the registrations it makes.
//
//govc:norun
func C13_Server(seed int64, hasHandler bool) {
	kind := v.AnyInt(0, 12)
	m := c13Message(kind)
	c := &c13Conn{}
	mms := &multiMessageSender{}
	h := newServerPackageHandler(mms)
	now := v.Any[int64]()
	arrived := now
	v.External("github.com/LogicalOverflow/music-sync/timing.GetRawTime", func() int64 {
		t := v.Any[int64]()
		v.Assume(t >= now)
		now = t
		return t
	})
	sent, subscribed, told := 0, 0, 0
	v.External("github.com/LogicalOverflow/music-sync/comm.sendWire", func(r proto.Message, to net.Conn) error {
		v.Assert("replies go to the requesting connection", to == net.Conn(c))
		sent++
		switch kind {
		case 0:
			t, ok := r.(*TimeSyncResponse)
			v.Assert("a time request is answered", ok)
			v.Assert("the reply echoes the client's send time", t.ClientSendTime == m.(*TimeSyncRequest).ClientSend)
			v.Assert("the times are those between the arrival and the reply", arrived <= t.ServerRecvTime && t.ServerSendTime <= now)
			v.Assert("the receive time is not after the send time", t.ServerRecvTime <= t.ServerSendTime)
		case 3:
			_, ok := r.(*PongMessage)
			v.Assert("a ping is answered with a pong", ok)
		default:
			v.Assert("nothing else is answered", false)
		}
		if v.AnyBool() {
			return errors.New("not sent")
		}
		return nil
	})
	v.External("(*github.com/LogicalOverflow/music-sync/comm.multiMessageSender).Subscribe", func(x *multiMessageSender, s net.Conn, ch Channel) {
		v.Assert("a subscription registers its connection for its channel", kind == 6 && x == mms && s == net.Conn(c) && ch == m.(*SubscribeChannelRequest).Channel)
		subscribed++
	})
	NewClientHandler = nil
	if hasHandler {
		NewClientHandler = func(ch Channel, s MessageSender) {
			v.Assert("the new-client handler runs for a subscription, after it was registered", kind == 6 && subscribed == 1)
			sms, ok := s.(*singleMessageSender)
			v.Assert("the new-client handler runs for the channel and the connection", ch == m.(*SubscribeChannelRequest).Channel && ok && sms.connection == net.Conn(c))
			told++
		}
	}
	h.Handle(m, c)
	NewClientHandler = nil
	v.Ensures("exactly one reply", kind != 0 && kind != 3 || sent == 1)
	v.Ensures("no reply to anything else", kind == 0 || kind == 3 || sent == 0)
	v.Ensures("a subscription is registered once, and only then", kind == 6 && subscribed == 1 || kind != 6 && subscribed == 0)
	v.Ensures("the new-client handler runs once, and only then", told == 0 || hasHandler && told == 1)
	v.Ensures("the new-client handler is not forgotten", kind != 6 || !hasHandler || told == 1)
}

// The server's replies over a connection (executed).
//
//govc:bounded
func C13_Replies(seed int64) {
	c, d := &c13Conn{}, &c13Conn{}
	mms := &multiMessageSender{channels: map[net.Conn][]Channel{}}
	mms.AddConn(d)
	mms.AddConn(c)
	h := newServerPackageHandler(mms)
	var mutex sync.Mutex
	told := 0
	var ch Channel
	var to MessageSender
	known := false
	NewClientHandler = func(x Channel, s MessageSender) {
		mutex.Lock()
		defer mutex.Unlock()
		told++
		ch, to = x, s
		known = mms.isSubscribed(c, []Channel{x})
	}
	kind := v.AnyInt(0, 12)
	m := c13Message(kind)
	c.fails = v.AnyInt(0, 5) == 0
	timing.ResetOffsets(10)
	timing.UpdateOffset(0, 1<<50, 1<<50, 0)
	before := timing.GetRawTime()
	h.Handle(m, c)
	v.Settle()
	timing.ResetOffsets(10)
	NewClientHandler = nil
	mutex.Lock()
	defer mutex.Unlock()
	c.mutex.Lock()
	defer c.mutex.Unlock()
	v.Ensures("nothing is sent to other connections", len(d.wrote) == 0)
	if kind == 6 {
		v.Ensures("the new-client handler is called once, for the channel", told == 1 && ch == m.(*SubscribeChannelRequest).Channel)
		v.Ensures("the subscription was registered before", known)
		sms, ok := to.(*singleMessageSender)
		v.Ensures("the new-client handler is called for the connection", ok && sms.connection == net.Conn(c))
		v.Ensures("nothing else is registered", len(mms.channels[c]) == 1 && len(mms.channels) == 1)
	} else {
		v.Ensures("the new-client handler is called for subscriptions only", told == 0)
		v.Ensures("nothing is registered", len(mms.channels) == 0)
	}
	if c.fails {
		return
	}
	if kind == 0 {
		r, err := readWire(c)
		t, ok := r.(*TimeSyncResponse)
		v.Ensures("a time request is answered", err == nil && ok)
		v.Ensures("the reply echoes the client's send time", t.ClientSendTime == m.(*TimeSyncRequest).ClientSend)
		v.Ensures("the receive time is not after the send time", t.ServerRecvTime <= t.ServerSendTime)
		v.Ensures("the times are those between the arrival and the reply", before <= t.ServerRecvTime && t.ServerSendTime <= timing.GetRawTime())
	}
	if kind == 3 {
		r, err := readWire(c)
		_, ok := r.(*PongMessage)
		v.Ensures("a ping is answered with a pong", err == nil && ok)
	}
	v.Ensures("nothing else is sent", len(c.wrote) == 0)
}
