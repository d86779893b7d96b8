//go:build verif && go1.21

package comm

import (
	"bytes"
	"compress/zlib"
	"errors"
	"io"
	"net"
	"reflect"

	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

// c09Writer is a connection that takes any number of the bytes it is given and may fail at any time.
type c09Writer struct {
	net.Conn
	want   []byte
	done   int
	failed bool
	err    error
}

func (c *c09Writer) Write(p []byte) (int, error) {
	v.Assert("nothing is written after an error", !c.failed)
	v.Assert("nothing beyond the frame is written", len(p) <= len(c.want)-c.done)
	v.Assert("the frame is written in order, no byte lost or repeated", v.Forall(0, len(p), func(i int) bool { return p[i] == c.want[c.done+i] }))
	n := v.AnyInt(0, len(p))
	c.done += n
	if v.AnyInt(0, 9) == 0 {
		c.failed = true
		c.err = errors.New("the connection failed")
		return n, c.err
	}
	return n, nil
}

// Whatever a message is encoded to is written, in order and once.
//
//govc:norun
func C09_Send(m proto.Message) {
	wire := v.Any[[]byte]()
	bad := v.AnyBool()
	enc := errors.New("the message could not be encoded")
	asked := 0
	v.External("github.com/LogicalOverflow/music-sync/comm.toWire", func(x proto.Message) ([]byte, error) {
		asked++
		v.Assert("the message itself is encoded", x == m)
		if bad {
			return nil, enc
		}
		return wire, nil
	})
	c := &c09Writer{want: v.Snap(wire)}
	v.Inv(func() bool { return !c.failed && 0 <= c.done && c.done <= len(c.want) })
	v.Inv(func(send int) bool { return send == c.done })
	err := sendWire(m, c)
	if bad {
		v.Cover("not encoded")
		v.Ensures("a message that cannot be encoded is reported and nothing is written", err == enc && c.done == 0)
		return
	}
	c09Written(c, err)
}

func c09Written(c *c09Writer, err error) {
	if c.failed {
		v.Cover("failed")
		v.Ensures("the write error is reported", err == c.err)
		return
	}
	v.Cover("written")
	v.Ensures("no error is reported otherwise", err == nil)
	v.Ensures("the whole frame is written", c.done == len(c.want))
}

// c09Reader is a connection that delivers any number of its bytes at a time and may fail at any time.
type c09Reader struct {
	net.Conn
	src    []byte
	done   int
	limit  int
	failed bool
	err    error
}

func (c *c09Reader) Read(p []byte) (int, error) {
	v.Assert("nothing is read after an error", !c.failed)
	v.Assert("nothing beyond the frame is consumed", len(p) <= c.limit-c.done)
	n := v.AnyInt(0, len(p))
	if n > len(c.src)-c.done {
		n = len(c.src) - c.done
	}
	if n == 0 && c.done == len(c.src) || v.AnyInt(0, 99) == 0 {
		c.failed = true
		c.err = errors.New("the connection failed")
		return 0, c.err
	}
	copy(p, c.src[c.done:c.done+n])
	c.done += n
	return n, nil
}

// An exact number of bytes is read, in order, and nothing beyond.
func C09_ReadBytes(src []byte, n int) {
	n = v.AnyInt(0, v.Bound(1<<40, 40))
	c := &c09Reader{src: v.Snap(src), limit: n}
	v.Inv(func() bool { return !c.failed && 0 <= c.done && c.done <= n && c.done <= len(c.src) })
	v.Inv(func(read int) bool { return read == c.done })
	v.Inv(func(buf []byte) bool {
		return len(buf) == n && v.Forall(0, c.done, func(i int) bool { return buf[i] == c.src[i] })
	})
	buf, err := readBytes(c, int64(n))
	if c.failed {
		v.Cover("failed")
		v.Ensures("the first error is reported and no bytes are", err == c.err && buf == nil)
		return
	}
	v.Cover("read")
	v.Ensures("no error is reported otherwise", err == nil)
	v.Ensures("as many bytes as asked for", len(buf) == n && c.done == n)
	v.Ensures("precisely the bytes sent, in order", v.Forall(0, n, func(i int) bool { return buf[i] == c.src[i] }))
}

// A frame is an 8-byte little-endian length and that many bytes: the envelope with the type and the
// compressed encoding of the message.
//
//govc:norun
func C09_ToWire(m proto.Message) {
	inner, packed, env, name := v.Any[[]byte](), v.Any[[]byte](), v.Any[[]byte](), v.Any[string]()
	badInner, badEnv := v.AnyBool(), v.AnyBool()
	failed := errors.New("not encoded")
	encoded := 0
	v.External("github.com/golang/protobuf/proto.MessageName", func(x proto.Message) string {
		v.Assert("the name of the message's own type", x == m)
		return name
	})
	v.External("github.com/golang/protobuf/proto.Marshal", func(x proto.Message) ([]byte, error) {
		if e, ok := x.(*Envelope); ok {
			v.Assert("the envelope names the type", encoded == 1 && e.Type == name)
			v.Assert("the envelope holds the compressed message", c09Equal(e.Data, packed))
			if badEnv {
				return nil, failed
			}
			encoded++
			return env, nil
		}
		v.Assert("the message itself is encoded once", x == m && encoded == 0)
		if badInner {
			return nil, failed
		}
		encoded++
		return inner, nil
	})
	var buf *bytes.Buffer
	var zw *zlib.Writer
	var src *bytes.Reader
	copied, closed := false, false
	v.External("bytes.NewBuffer", func(b []byte) *bytes.Buffer {
		v.Assert("an empty buffer", len(b) == 0)
		return new(bytes.Buffer)
	})
	v.External("compress/zlib.NewWriterLevel", func(w io.Writer, level int) (*zlib.Writer, error) {
		b, ok := w.(*bytes.Buffer)
		v.Assert("compressed into a buffer at a valid level", zw == nil && ok && b != nil && -2 <= level && level <= 9)
		buf = b
		zw = new(zlib.Writer)
		return zw, nil
	})
	v.External("(*compress/zlib.Writer).Write", func(w *zlib.Writer, b []byte) (int, error) {
		v.Assert("the encoded message is compressed once", !copied && !closed && w == zw && c09Equal(b, inner))
		copied = true
		return len(b), nil
	})
	v.External("bytes.NewReader", func(b []byte) *bytes.Reader {
		v.Assert("the encoded message is compressed", src == nil && c09Equal(b, inner))
		src = new(bytes.Reader)
		return src
	})
	v.External("io.Copy", func(w io.Writer, r io.Reader) (int64, error) {
		v.Assert("the encoded message is compressed once", !copied && !closed && w.(*zlib.Writer) == zw && r.(*bytes.Reader) == src)
		copied = true
		return int64(len(inner)), nil
	})
	v.External("(*compress/zlib.Writer).Close", func(w *zlib.Writer) error {
		v.Assert("the compression is completed", copied && w == zw)
		closed = true
		return nil
	})
	v.External("(*bytes.Buffer).Bytes", func(b *bytes.Buffer) []byte {
		v.Assert("all compressed data is taken", closed && b == buf)
		return packed
	})
	v.Requires(m != nil)
	_, isEnv := m.(*Envelope)
	v.Requires(!isEnv)
	was := v.Snap(env)
	wire, err := toWire(m)
	if err != nil {
		v.Cover("not encoded")
		v.Ensures("no frame comes with an error", wire == nil)
		v.Ensures("an error is reported only for a message that does not encode or is too large", badInner || badEnv || len(inner) > 1<<28 || len(env) > 1<<28)
		return
	}
	v.Cover("encoded")
	v.Ensures("a message that does not encode is reported", !badInner && !badEnv && encoded == 2)
	v.Ensures("the length is the envelope's", len(wire) == 8+len(was) && c09Size(wire) == uint64(len(was)))
	v.Ensures("the envelope follows", v.Forall(0, len(was), func(i int) bool { return wire[8+i] == was[i] }))
}

func c09Equal(a, b []byte) bool {
	return len(a) == len(b) && v.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// c09Size is the little-endian number at the start of b.
func c09Size(b []byte) uint64 {
	return uint64(b[0]) + uint64(b[1])<<8 + uint64(b[2])<<16 + uint64(b[3])<<24 + uint64(b[4])<<32 + uint64(b[5])<<40 + uint64(b[6])<<48 + uint64(b[7])<<56
}

type c09Type struct{ reflect.Type }

func (c09Type) Elem() reflect.Type { return c09Type{} }

type c09Msg struct{ PingMessage }

// From any bytes, split in any way, exactly one frame is consumed and its message delivered.
//
//govc:norun
func C09_ReadWire(src []byte) {
	v.Requires(len(src) >= 8)
	size := c09Size(src)
	c := &c09Reader{src: v.Snap(src), limit: 8}
	if size <= 1<<28 {
		c.limit += int(size)
	}
	data, name := v.Any[[]byte](), v.Any[string]()
	m := &PongMessage{}
	known, packed, good := v.AnyBool(), v.AnyBool(), v.AnyBool()
	opened, filled := false, false
	var env *Envelope
	v.External("github.com/golang/protobuf/proto.Unmarshal", func(b []byte, x proto.Message) error {
		if e, ok := x.(*Envelope); ok {
			v.Assert("the envelope is what follows the length", !opened && len(b) == int(size) && v.Forall(0, len(b), func(i int) bool { return b[i] == c.src[8+i] }))
			if !v.AnyBool() {
				return errors.New("not decoded")
			}
			opened = true
			env = e
			e.Type = name
			e.Data = v.Any[[]byte]()
			return nil
		}
		v.Assert("the decompressed data is decoded into the message, once", opened && packed && !filled && x == proto.Message(m) && c09Equal(b, data))
		if !good {
			return errors.New("not decoded")
		}
		filled = true
		return nil
	})
	v.External("github.com/golang/protobuf/proto.MessageType", func(n string) reflect.Type {
		v.Assert("the type is the one named by the envelope", opened && n == name)
		if known {
			return c09Type{}
		}
		return nil
	})
	v.External("reflect.New", func(t reflect.Type) reflect.Value {
		_, ok := t.(c09Type)
		v.Assert("a message of the type", ok)
		return reflect.Value{}
	})
	v.External("(reflect.Value).Interface", func(reflect.Value) interface{} { return m })
	v.External("github.com/LogicalOverflow/music-sync/comm.decompress", func(b []byte) ([]byte, error) {
		v.Assert("the envelope's data is decompressed", opened && c09Equal(b, env.Data))
		if packed {
			return data, nil
		}
		return nil, errors.New("not decompressed")
	})
	v.Inv(func() bool { return !c.failed && 0 <= c.done && c.done <= c.limit && c.done <= len(c.src) })
	v.Inv(func(read int) bool { return read == c.done })
	v.Inv(func(read int) bool { return read == c.done-8 })
	v.Inv(func(buf []byte) bool {
		return len(buf) == 8 && c.done <= 8 && v.Forall(0, c.done, func(i int) bool { return buf[i] == c.src[i] })
	})
	v.Inv(func(buf []byte) bool {
		return len(buf) == int(size) && c.done-8 <= len(buf) && v.Forall(0, c.done-8, func(i int) bool { return buf[i] == c.src[8+i] })
	})
	r, err := readWire(c)
	if err != nil {
		v.Cover("not delivered")
		v.Ensures("no message comes with an error", r == nil)
		v.Ensures("a complete good frame is delivered", c.failed || size > 1<<28 || !opened || !known || !packed || !good)
		return
	}
	v.Cover("delivered")
	v.Ensures("exactly one frame is consumed", !c.failed && c.done == 8+int(size))
	v.Ensures("only a good frame is delivered", opened && filled)
	v.Ensures("the message is delivered", r == proto.Message(m))
}
