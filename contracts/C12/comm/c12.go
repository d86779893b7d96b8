//go:build verif && go1.21

package comm

import (
	"errors"
	"io"
	"net"
	"time"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

type c12Conn struct {
	net.Conn
	state  int
	closed chan bool
}

func (c *c12Conn) Read([]byte) (int, error) {
	<-c.closed
	return 0, io.EOF
}
func (c *c12Conn) Close() error         { return nil }
func (c *c12Conn) RemoteAddr() net.Addr { return &net.TCPAddr{} }

func c12Registered(mms *multiMessageSender, c net.Conn) bool {
	return v.Exists(0, len(mms.connections), func(i int) bool { return mms.connections[i] == c })
}

// c12Registry is any registry: no connection twice, subscriptions of registered connections only.
func c12Registry() *multiMessageSender {
	conns := v.Any[[]net.Conn]()
	channels := v.Any[map[net.Conn][]Channel]()
	v.Assume(v.Forall(0, len(conns), func(i int) bool {
		return conns[i] != nil && v.Forall(0, i, func(j int) bool { return conns[i] != conns[j] })
	}))
	mms := &multiMessageSender{connections: conns, channels: channels}
	v.Guarded("the list of connections", &mms.mutex, &mms.connections)
	v.Guarded("the subscriptions", &mms.mutex, &mms.channels)
	return mms
}

func c12Distinct(mms *multiMessageSender) bool {
	l := mms.connections
	return v.Forall(0, len(l), func(i int) bool { return v.Forall(0, i, func(j int) bool { return l[i] != l[j] }) })
}

func c12Has(l []Channel, ch Channel) bool {
	return v.Exists(0, len(l), func(i int) bool { return l[i] == ch })
}

func c12Same(a, b []Channel) bool {
	return len(a) == len(b) && v.Forall(0, len(a), func(i int) bool { return i < len(a) && i < len(b) && a[i] == b[i] })
}

// A new connection is added, and nothing else changes.
//
//govc:norun
func C12_Add(w int) {
	v.Impl[net.Conn, *c12Conn]()
	mms := c12Registry()
	old, n := v.Snap(mms.connections), len(mms.connections)
	c, d := &c12Conn{}, v.Any[net.Conn]()
	v.Assume(!c12Registered(mms, c) && d != net.Conn(c))
	l, ok := mms.channels[d]
	l = v.Snap(l)
	mms.AddConn(c)
	v.Ensures("registered once", len(mms.connections) == n+1 && c12Registered(mms, c))
	v.Ensures("every other connection stays", !(0 <= w && w < n) || c12Registered(mms, old[w]))
	v.Ensures("no other connection appears", !c12Registered(mms, d) || v.Exists(0, n, func(i int) bool { return old[i] == d }))
	v.Ensures("no connection is registered twice", c12Distinct(mms))
	l2, ok2 := mms.channels[d]
	v.Ensures("the subscriptions stay", ok == ok2 && c12Same(l, l2))
}

// c12Search states how a search of the list goes on.
func c12Search(old []net.Conn, c net.Conn, at int, known bool) {
	v.Inv(func(i int) bool { return v.Forall(0, i, func(j int) bool { return old[j] != c }) })
	v.Inv(func(i, index int) bool { return index == at && known && i < at || index == -1 && !(known && i < at) })
	v.Inv(func(m, index int) bool { return index == at && known && at < m || index == -1 && !(known && at < m) })
}

// A connection is removed, and nothing else changes.
//
//govc:norun
func C12_Remove(at, w int, c net.Conn) {
	v.Impl[net.Conn, *c12Conn]()
	mms := c12Registry()
	old, n := v.Snap(mms.connections), len(mms.connections)
	known := 0 <= at && at < n
	if known {
		c = old[at]
	} else {
		v.Assume(c != nil && !c12Registered(mms, c))
	}
	d := v.Any[net.Conn]()
	v.Assume(d != c)
	l, ok := mms.channels[d]
	l = v.Snap(l)
	c12Search(old, c, at, known)
	v.Inv(func(m int, rest []net.Conn) bool {
		if known && at < m {
			return len(rest) == m-1 && v.Forall(0, m-1, func(k int) bool { return k < at && rest[k] == old[k] || k >= at && rest[k] == old[k+1] })
		}
		return len(rest) == m && v.Forall(0, m, func(k int) bool { return rest[k] == old[k] })
	})
	v.Inv(func(m int, removed bool) bool { return removed == (known && at < m) })
	mms.DelConn(c)
	v.Ensures("exactly one connection is taken out", len(mms.connections) == n-1 || !known && len(mms.connections) == n)
	v.Ensures("the connection is not registered any more", !c12Registered(mms, c))
	v.Ensures("every other connection stays", !(0 <= w && w < n && w != at) || c12Registered(mms, old[w]))
	v.Ensures("no other connection appears", !c12Registered(mms, d) || v.Exists(0, n, func(i int) bool { return old[i] == d }))
	v.Ensures("no connection is registered twice", c12Distinct(mms))
	_, has := mms.channels[c]
	v.Ensures("its subscriptions are forgotten", !has)
	l2, ok2 := mms.channels[d]
	v.Ensures("the subscriptions of the others stay", ok == ok2 && c12Same(l, l2))
}

func c12Channels() []Channel {
	n := v.AnyInt(0, 1<<40)
	l := make([]Channel, n, v.AnyInt(n, 1<<40))
	v.HavocSlice(l)
	return l
}

// A subscription adds one channel to one connection, if it is still registered.
//
//govc:norun
func C12_Subscribe(at, w int, c net.Conn, ch, ch2 Channel, hasOwn, hasOther bool) {
	v.Impl[net.Conn, *c12Conn]()
	mms := c12Registry()
	old, n := v.Snap(mms.connections), len(mms.connections)
	known := 0 <= at && at < n
	if known {
		c = old[at]
	} else {
		v.Assume(c != nil && !c12Registered(mms, c))
	}
	d := v.Any[net.Conn]() // any other connection
	v.Assume(d != c)
	mms.channels = map[net.Conn][]Channel{}
	if known && hasOwn {
		mms.channels[c] = c12Channels()
	}
	if hasOther {
		mms.channels[d] = c12Channels()
	}
	l, ok := mms.channels[d]
	l = v.Snap(l)
	own := v.Snap(mms.channels[c])
	_, had := mms.channels[c]
	c12Search(old, c, at, known)
	mms.Subscribe(c, ch)
	now, has := mms.channels[c]
	if known {
		v.Ensures("the channel is added to those of the connection", c12Has(now, ch))
		v.Ensures("its other channels stay", !(0 <= w && w < len(own)) || c12Has(now, own[w]))
		v.Ensures("no other channel is added", ch2 == ch || !c12Has(now, ch2) || c12Has(own, ch2))
	} else {
		v.Ensures("nothing is remembered of a connection that is gone", has == had && len(now) == 0)
	}
	l2, ok2 := mms.channels[d]
	v.Ensures("the subscriptions of the others stay", ok == ok2 && c12Same(l, l2))
	v.Ensures("the connections stay", len(mms.connections) == n && v.Forall(0, n, func(i int) bool { return mms.connections[i] == old[i] }))
}

type c12Listener struct {
	net.Listener
	last   *c12Conn
	n      int
	failed bool
}

func (l *c12Listener) Accept() (net.Conn, error) {
	if v.AnyBool() {
		l.failed = true
		return nil, errors.New("no more connections")
	}
	l.last = &c12Conn{}
	l.n++
	return l.last, nil
}
func (l *c12Listener) Close() error { return nil }

// Every accepted connection is registered before it is handled and removed afterwards.
//
//govc:norun
func C12_Acceptor(hasHandler bool) {
	mms := &multiMessageSender{channels: map[net.Conn][]Channel{}}
	l := &c12Listener{}
	added, handled, removed := 0, 0, 0
	v.External("(*github.com/LogicalOverflow/music-sync/comm.multiMessageSender).AddConn", func(x *multiMessageSender, c net.Conn) {
		v.Assert("a connection is registered once, when it is accepted", x == mms && c == net.Conn(l.last) && l.last.state == 0)
		l.last.state = 1
		added++
	})
	v.External("github.com/LogicalOverflow/music-sync/comm.handleConnection", func(c net.Conn, h packageHandler) {
		v.Assert("a connection is handled while it is registered", c == net.Conn(l.last) && l.last.state == 1)
		t, ok := h.(TypedPackageHandler)
		v.Assert("the handler is that of the registry", ok && t.TypedPackageHandlerInterface.(serverPackageHandler).sender == mms)
		l.last.state = 2
		handled++
	})
	v.External("(*github.com/LogicalOverflow/music-sync/comm.multiMessageSender).DelConn", func(x *multiMessageSender, c net.Conn) {
		v.Assert("a connection is removed once it is no longer handled", x == mms && c == net.Conn(l.last) && l.last.state == 2)
		l.last.state = 3
		removed++
	})
	NewClientHandler = nil
	if hasHandler {
		NewClientHandler = func(ch Channel, s MessageSender) {
			t, ok := s.(*singleMessageSender)
			v.Assert("the handler of new clients is called for the new connection", ch == -1 && ok && t.connection == net.Conn(l.last))
		}
	}
	v.Inv(func(m int) bool {
		return !l.failed && l.n == m && added == l.n && handled == l.n && removed == l.n
	})
	serverConnectionAcceptor(mms, l)
	NewClientHandler = nil
	v.Ensures("every connection is registered, handled and removed", added == l.n && handled == l.n && removed == l.n)
	v.Ensures("only a failing listener ends the server", l.failed)
}

// Histories of additions, removals and subscriptions (executed).
//
//govc:bounded
func C12_History(seed int) {
	steps := v.AnyInt(1, 40)
	mms := &multiMessageSender{channels: map[net.Conn][]Channel{}}
	var conns []net.Conn
	live := map[net.Conn]bool{}
	subs := map[net.Conn][]Channel{}
	for ; steps > 0; steps-- {
		switch k := v.AnyInt(0, 9); {
		case k < 3 || len(conns) == 0:
			c := &c12Conn{}
			conns = append(conns, c)
			live[c] = true
			mms.AddConn(c)
		case k < 5:
			c := conns[v.AnyInt(0, len(conns)-1)]
			delete(live, c)
			delete(subs, c)
			mms.DelConn(c)
		default:
			c, ch := conns[v.AnyInt(0, len(conns)-1)], Channel(v.AnyInt(0, 2))
			if live[c] {
				subs[c] = append(subs[c], ch)
			}
			mms.Subscribe(c, ch)
		}
		v.Ensures("the registry holds exactly the live connections", len(mms.connections) == len(live))
		for _, c := range conns {
			n := 0
			for _, d := range mms.connections {
				if c == d {
					n++
				}
			}
			v.Ensures("the registry holds every live connection once", n == 1 && live[c] || n == 0 && !live[c])
			for ch := Channel(-1); ch < 4; ch++ {
				v.Ensures("the subscriptions are exactly those asked for", c12Has(mms.channels[c], ch) == c12Has(subs[c], ch))
			}
			for ch := Channel(0); ch < 3; ch++ {
				want := false
				for _, x := range subs[c] {
					want = want || x == ch
				}
				v.Ensures("subscribed exactly to what was asked for", mms.isSubscribed(c, []Channel{ch}) == want)
			}
		}
		for c, l := range mms.channels {
			v.Ensures("no subscriptions of a connection that is gone", live[c] || len(l) == 0)
		}
	}
}

// A connection subscribed to many channels (executed).
//
//govc:bounded
func C12_Many(seed int) {
	mms := &multiMessageSender{channels: map[net.Conn][]Channel{}}
	c, d := &c12Conn{}, &c12Conn{}
	mms.AddConn(c)
	mms.AddConn(d)
	n := v.AnyInt(1, 300)
	for ch := 0; ch < n; ch++ {
		mms.Subscribe(c, Channel(ch))
		for k := 0; k <= ch; k += 1 + ch/9 {
			v.Ensures("the subscriptions are exactly those asked for", mms.isSubscribed(c, []Channel{Channel(k)}))
		}
		v.Ensures("the subscriptions are exactly those asked for", mms.isSubscribed(c, []Channel{Channel(ch)}) && !mms.isSubscribed(c, []Channel{Channel(ch + 1)}))
		v.Ensures("nobody else is subscribed", !mms.isSubscribed(d, []Channel{Channel(ch)}))
	}
}

type c12Queue struct {
	net.Listener
	conns []*c12Conn
	next  int
	more  chan bool
}

func (l *c12Queue) Accept() (net.Conn, error) {
	if l.next == len(l.conns) {
		return nil, errors.New("no more connections")
	}
	l.next++
	return l.conns[l.next-1], nil
}
func (l *c12Queue) Close() error { return nil }

// c12Soon waits until ok holds.
func c12Soon(mms *multiMessageSender, ok func() bool) bool {
	for i := 0; ; i++ {
		mms.mutex.Lock()
		r := ok()
		mms.mutex.Unlock()
		if r || i == 2000 {
			return r
		}
		time.Sleep(time.Millisecond)
	}
}

// The real acceptor with connections that close in any order (executed).
//
//govc:bounded
func C12_Accepted(seed int) {
	n := v.AnyInt(0, 6)
	mms := &multiMessageSender{channels: map[net.Conn][]Channel{}}
	l := &c12Queue{}
	for i := 0; i < n; i++ {
		l.conns = append(l.conns, &c12Conn{closed: make(chan bool)})
	}
	NewClientHandler = nil
	serverConnectionAcceptor(mms, l)
	open := n
	for _, c := range l.conns {
		c := c
		v.Ensures("an accepted connection is registered", c12Soon(mms, func() bool { return c12Registered(mms, c) }))
	}
	time.Sleep(time.Millisecond)
	for _, c := range l.conns {
		c := c
		if v.AnyBool() {
			v.Ensures("an open connection is registered", c12Soon(mms, func() bool { return len(mms.connections) == open && c12Registered(mms, c) }))
			close(c.closed)
			open--
			v.Ensures("a closed connection is removed", c12Soon(mms, func() bool { return len(mms.connections) == open && !c12Registered(mms, c) }))
		}
	}
	for _, c := range l.conns {
		select {
		case <-c.closed:
		default:
			close(c.closed)
		}
	}
	v.Ensures("closed connections are removed", c12Soon(mms, func() bool { return len(mms.connections) == 0 }))
}
