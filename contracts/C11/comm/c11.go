//go:build verif && go1.21

package comm

import (
	"bytes"
	"errors"
	"net"
	"sync"

	"github.com/LogicalOverflow/music-sync/util"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

type c11Conn struct {
	net.Conn
	mutex sync.Mutex
	wrote []byte
	fails error
	tried bool
}

func (c *c11Conn) Write(p []byte) (int, error) {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	c.tried = true
	if c.fails != nil {
		return 0, c.fails
	}
	c.wrote = append(c.wrote, p...)
	return len(p), nil
}

func (c *c11Conn) Read(p []byte) (int, error) {
	n := copy(p, c.wrote)
	c.wrote = c.wrote[n:]
	return n, nil
}

// c11Message is a message of every kind, with the channels it belongs to.
func c11Message(kind int) (m proto.Message, audio, meta bool) {
	switch kind {
	case 0:
		return &QueueChunkRequest{}, true, false
	case 1:
		return &SetVolumeRequest{}, true, true
	case 2:
		return &ChunkInfo{}, false, true
	case 3:
		return &NewSongInfo{}, false, true
	case 4:
		return &PauseInfo{}, false, true
	case 5:
		return &TimeSyncRequest{}, false, false
	case 6:
		return &TimeSyncResponse{}, false, false
	case 7:
		return &PingMessage{}, false, false
	case 8:
		return &PongMessage{}, false, false
	case 9:
		return &SubscribeChannelRequest{}, false, false
	}
	return &Envelope{}, false, false
}

func c11In(ch Channel, audio, meta bool) bool {
	return audio && ch == Channel_AUDIO || meta && ch == Channel_META
}

// A connection is subscribed exactly if one of its channels is asked for.
func C11_Subscribed(chs []Channel, other bool) {
	v.Impl[net.Conn, *c11Conn]()
	c, d := &c11Conn{}, &c11Conn{}
	l, ld := v.Any[[]Channel](), v.Any[[]Channel]()
	channels := map[net.Conn][]Channel{d: ld}
	if other {
		channels[c] = l
	}
	mms := &multiMessageSender{channels: channels}
	v.Inv(func(m int, a, b []Channel) bool {
		return m <= len(a) && v.Forall(0, m, func(k int) bool { return v.Forall(0, len(b), func(i int) bool { return a[k] != b[i] }) })
	})
	v.Inv(func(m int, ch Channel, list []Channel) bool {
		return m <= len(list) && v.Forall(0, m, func(i int) bool { return ch != list[i] })
	})
	var asked []Channel
	if other {
		asked = l
	}
	v.Inv(func(m int, a []Channel) bool { // the channels asked for are looked up one by one
		return m <= len(a) && v.Forall(0, m, func(k int) bool { return v.Forall(0, len(asked), func(i int) bool { return a[k] != asked[i] }) })
	})
	r := mms.isSubscribed(c, chs)
	v.Ensures("subscribed exactly if one of the channels is", r == (other &&
		v.Exists(0, len(l), func(k int) bool { return v.Exists(0, len(chs), func(i int) bool { return l[k] == chs[i] }) })))
	v.Ensures("only the question is answered", len(mms.channels[d]) == len(ld))
}

// A broadcast of any message to any registry.
//
//govc:norun
func C11_Broadcast(kind int) {
	v.Requires(0 <= kind && kind <= 10)
	v.Impl[net.Conn, *c11Conn]()
	m, audio, meta := c11Message(kind)
	conns := v.Any[[]net.Conn]()
	n := len(conns)
	v.Assume(v.Forall(0, n, func(i int) bool {
		return conns[i] != nil && v.Forall(0, i, func(j int) bool { return conns[i] != conns[j] })
	}))
	channels := v.Any[map[net.Conn][]Channel]()
	mms := &multiMessageSender{connections: conns, channels: channels}
	v.Guarded("the list of connections", &mms.mutex, &mms.connections)
	v.Guarded("the subscriptions", &mms.mutex, &mms.channels)
	subscribed := v.Any[map[net.Conn]bool]() // what isSubscribed answers for the channels of the message: C11_Subscribed
	want := func(c net.Conn) bool { return !audio && !meta || subscribed[c] }
	v.External("(*github.com/LogicalOverflow/music-sync/comm.multiMessageSender).isSubscribed", func(x *multiMessageSender, c net.Conn, chs []Channel) bool {
		v.Assert("the registry is locked while it is used", x == mms && v.Held(&mms.mutex))
		v.Assert("the channels asked for are those of the message", v.Forall(0, len(chs), func(i int) bool { return c11In(chs[i], audio, meta) }) &&
			(!audio || v.Exists(0, len(chs), func(i int) bool { return chs[i] == Channel_AUDIO })) &&
			(!meta || v.Exists(0, len(chs), func(i int) bool { return chs[i] == Channel_META })))
		return subscribed[c]
	})
	sent := map[net.Conn]int{}
	failed, reported := 0, 0
	last := errors.New("none")
	v.External("github.com/LogicalOverflow/music-sync/comm.sendWire", func(x proto.Message, c net.Conn) error {
		v.Assert("the message itself is sent", x == m)
		v.Assert("it is sent to a registered connection", v.Exists(0, n, func(j int) bool { return conns[j] == c }))
		v.Assert("the registry is locked while it is used", v.Held(&mms.mutex))
		sent[c]++
		if v.AnyBool() {
			failed++
			last = errors.New("a send failed")
			return last
		}
		return nil
	})
	v.External("(*github.com/LogicalOverflow/music-sync/util.ErrorCollector).Add", func(ec *util.ErrorCollector, err error) {
		reported++
		v.Assert("every failed send is reported, once", reported == failed && err == last)
	})
	v.External("(*github.com/LogicalOverflow/music-sync/util.ErrorCollector).Wait", func(ec *util.ErrorCollector) {})
	summary := errors.New("failed")
	v.External("(*github.com/LogicalOverflow/music-sync/util.ErrorCollector).Err", func(ec *util.ErrorCollector, base string) error {
		if reported == 0 {
			return nil
		}
		return summary
	})
	v.Inv(func(m int) bool { return reported == failed && 0 <= failed && failed <= m })
	v.Inv(func(m int) bool {
		return v.Forall(0, n, func(j int) bool {
			if j >= m || !want(conns[j]) {
				return sent[conns[j]] == 0
			}
			return sent[conns[j]] == 1
		})
	})
	err := mms.SendMessage(m)
	v.Ensures("once to every connection subscribed to a channel of the message, and to no other", v.Forall(0, n, func(j int) bool {
		if want(conns[j]) {
			return sent[conns[j]] == 1
		}
		return sent[conns[j]] == 0
	}))
	v.Ensures("failed sends are reported", (err != nil) == (failed > 0))
}

// The same broadcast over real frames (executed).
//
//govc:bounded
func C11_Executed(kind, n int) {
	v.Requires(0 <= kind && kind <= 10 && 0 <= n && n <= 6)
	m, audio, meta := c11Message(kind)
	mms := &multiMessageSender{channels: map[net.Conn][]Channel{}}
	conns := make([]*c11Conn, n)
	wanted := make([]bool, n)
	fails := 0
	for i := range conns {
		c := &c11Conn{}
		conns[i] = c
		mms.AddConn(c)
		wanted[i] = !audio && !meta
		for k := v.AnyInt(0, 3); k > 0; k-- {
			ch := Channel(v.AnyInt(0, 3))
			mms.Subscribe(c, ch)
			wanted[i] = wanted[i] || c11In(ch, audio, meta)
		}
		if v.AnyInt(0, 3) == 0 {
			c.fails = errors.New("broken connection " + string(rune('a'+i)) + ".")
			if wanted[i] {
				fails++
			}
		}
	}
	err := mms.SendMessage(m)
	v.Ensures("failed sends are reported", (err != nil) == (fails > 0))
	for i, c := range conns {
		v.Ensures("sent to every subscribed connection and to no other", c.tried == wanted[i])
		if c.fails != nil {
			v.Ensures("every failed send is reported", !wanted[i] || bytes.Count([]byte(err.Error()), []byte(c.fails.Error())) == 1)
			continue
		}
		if wanted[i] {
			r, err := readWire(c)
			v.Ensures("the message itself is sent", err == nil && proto.Equal(r, m))
		}
		v.Ensures("it is sent once", len(c.wrote) == 0)
	}
}

// A client's messages go to the server it is connected to.
//
//govc:norun
func C11_Single(kind int, fail bool) {
	v.Requires(0 <= kind && kind <= 10)
	m, _, _ := c11Message(kind)
	c := &c11Conn{}
	sent := 0
	failed := errors.New("failed")
	v.External("github.com/LogicalOverflow/music-sync/comm.sendWire", func(x proto.Message, to net.Conn) error {
		v.Assert("the message is sent to the connection", x == m && to == net.Conn(c))
		sent++
		if fail {
			return failed
		}
		return nil
	})
	err := (&singleMessageSender{connection: c}).SendMessage(m)
	v.Ensures("sent once", sent == 1)
	v.Ensures("a failed send is reported", (err != nil) == fail)
}
