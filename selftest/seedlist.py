SEEDS = []


def S(id, prop, pkg, edits, test, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks))


S("prw-shared-buffer", "S01", "srpc", [
    ("srpc/packet-rw.go", "	// writeMtx is the write mutex\n", "	// out is the buffer for outgoing packets\n	out []byte\n	// writeMtx is the write mutex\n"),
    ("srpc/packet-rw.go", "func (r *PacketReadWriter) WritePacket(p *Packet) error {\n	r.writeMtx.Lock()\n	defer r.writeMtx.Unlock()\n\n", "func (r *PacketReadWriter) WritePacket(p *Packet) error {\n"),
    ("srpc/packet-rw.go", "	data := make([]byte, 4+msgSize)\n", "	if cap(r.out) < 4+msgSize {\n		r.out = make([]byte, 4+msgSize)\n	}\n	data := r.out[:4+msgSize]\n"),
    ("srpc/packet-rw.go", "	var written, n int\n", "	r.writeMtx.Lock()\n	defer r.writeMtx.Unlock()\n\n	var written, n int\n"),
], r'''
package srpc

import (
	"bytes"
	"io"
	"sync"
	"testing"
	"time"
)

// slowRw takes few bytes of the first write, and the rest once released.
type slowRw struct {
	mtx     sync.Mutex
	out     bytes.Buffer
	entered chan struct{}
	release chan struct{}
	first   bool
}

func (s *slowRw) Read([]byte) (int, error) { return 0, io.EOF }
func (s *slowRw) Close() error             { return nil }
func (s *slowRw) Write(p []byte) (int, error) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	if !s.first {
		s.first = true
		s.out.Write(p[:6])
		close(s.entered)
		<-s.release
		return 6, nil
	}
	return s.out.Write(p)
}

func TestDemo(t *testing.T) {
	rw := &slowRw{entered: make(chan struct{}), release: make(chan struct{})}
	prw := NewPacketReadWriter(rw)
	a, b := bytes.Repeat([]byte("a"), 40), bytes.Repeat([]byte("b"), 40)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		_ = prw.WritePacket(NewCallDataPacket(a, false, false, nil))
	}()
	<-rw.entered
	go func() {
		defer wg.Done()
		_ = prw.WritePacket(NewCallDataPacket(b, false, false, nil))
	}()
	time.Sleep(300 * time.Millisecond)
	close(rw.release)
	wg.Wait()
	var got []string
	rd := NewPacketReadWriter(&slowRw{})
	rd.rw = struct {
		io.Reader
		io.Writer
		io.Closer
	}{&rw.out, io.Discard, rw}
	if err := rd.ReadToHandler(NewPacketDataHandler(func(p *Packet) error {
		got = append(got, string(p.GetCallData().GetData()))
		return nil
	})); err != nil {
		t.Fatal(err)
	}
	if len(got) != 2 || got[0] != string(a) || got[1] != string(b) {
		t.Fatalf("packets were mixed: %q", got)
	}
}
''', "two concurrent writers, the first of which is interrupted by a short write of the underlying stream", "packets are encoded into a shared buffer before the write lock is taken, so a second writer overwrites the rest of a packet being written")

S("prw-prefix-alone", "S02", "srpc", [
    ("srpc/packet-rw.go", "if currLen > uint32(maxMessageSize) {", "if currLen > uint32(maxMessageSize) && bufLen > 4 {"),
], r'''
package srpc

import (
	"io"
	"testing"
)

type endless struct{ n int }

func (e *endless) Read(p []byte) (int, error) {
	e.n++
	if e.n == 1 {
		return copy(p, []byte{0x00, 0x00, 0x00, 0x40}), nil
	}
	if e.n > 1000 {
		return 0, io.ErrNoProgress
	}
	return len(p), nil
}
func (e *endless) Write(p []byte) (int, error) { return len(p), nil }
func (e *endless) Close() error                { return nil }

func TestDemo(t *testing.T) {
	e := &endless{}
	err := NewPacketReadWriter(e).ReadToHandler(func([]byte) error { return nil })
	if err == nil || e.n > 1 {
		t.Fatalf("an oversized packet was buffered for %d reads: %v", e.n, err)
	}
}
''', "a length prefix above the maximum which arrives alone in a read", "the size limit is not applied if the prefix arrived alone, so that a peer can make the reader buffer without limit")

S("start-ids-late", "S03", "srpc", [
    ("srpc/server-rpc.go", "		r.service, r.method = service, method\n", ""),
    ("srpc/server-rpc.go", "	// on the server side, the writer is closed by invokeRPC.\n", "	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {\n		r.service, r.method = serviceID, methodID\n	})\n	// on the server side, the writer is closed by invokeRPC.\n"),
], r'''
package srpc

import (
	"context"
	"runtime"
	"sync/atomic"
	"testing"
	"time"
)

type nopWriter struct{}

func (nopWriter) WritePacket(*Packet) error { return nil }
func (nopWriter) Close() error              { return nil }

type countInvoker struct{ n atomic.Int32 }

func (c *countInvoker) InvokeMethod(string, string, Stream) (bool, error) {
	c.n.Add(1)
	return true, nil
}

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for i := 0; i < 50; i++ {
		inv := &countInvoker{}
		r := NewServerRPC(context.Background(), inv, nopWriter{})
		_ = r.HandlePacket(NewCallStartPacket("s", "m", nil, false))
		err := r.HandlePacket(NewCallStartPacket("s", "m", nil, false))
		time.Sleep(5 * time.Millisecond)
		if n := inv.n.Load(); n != 1 || err == nil {
			t.Fatalf("the handler ran %d times, err=%v", n, err)
		}
	}
}
''', "a second start packet which is handled before the goroutine of the first one runs", "the call takes its ids in the handler goroutine, so a second start packet runs the handler again")

S("unimplemented-masks", "S04", "srpc", [
    ("srpc/server-rpc.go", "	if err == nil && !ok {\n", "	if !ok {\n"),
], r'''
package srpc

import (
	"context"
	"errors"
	"testing"
)

type recWriter struct {
	pkts chan *Packet
}

func (w *recWriter) WritePacket(p *Packet) error { w.pkts <- p; return nil }
func (w *recWriter) Close() error                { return nil }

type failInvoker struct{}

func (failInvoker) InvokeMethod(string, string, Stream) (bool, error) {
	return false, errors.New("lookup failed")
}

func TestDemo(t *testing.T) {
	w := &recWriter{pkts: make(chan *Packet, 8)}
	r := NewServerRPC(context.Background(), failInvoker{}, w)
	if err := r.HandlePacket(NewCallStartPacket("s", "m", nil, false)); err != nil {
		t.Fatal(err)
	}
	if e := (<-w.pkts).GetCallData().GetError(); e != "lookup failed" {
		t.Fatalf("the client is told %q", e)
	}
}
''', "an invoker which returns false together with an error", "the error of the invoker is replaced with unimplemented")

S("last-empty-message", "S08", "srpc", [
    ("srpc/common-rpc.go", "		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {\n			c.dataQueue", "		if data := pkt.GetData(); len(data) != 0 || (pkt.GetDataIsZero() && !pkt.GetComplete()) {\n			c.dataQueue"),
], r'''
package srpc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	if err := r.HandlePacket(NewCallDataPacket(nil, true, true, nil)); err != nil {
		t.Fatal(err)
	}
	if m, err := r.ReadOne(); err != nil || len(m) != 0 {
		t.Fatalf("the empty message was lost: %v %v", m, err)
	}
}
''', "a packet with an empty message which also completes the call", "the empty message is dropped")

S("cancel-drops-queue", "S07", "srpc", [
    ("srpc/common-rpc.go", "			if ctxDone && !c.dataClosed {\n", "			if ctxDone {\n"),
], r'''
package srpc

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	r := NewClientRPC(ctx, "s", "m")
	res := make(chan error, 1)
	go func() {
		_, err := r.ReadOne()
		res <- err
	}()
	time.Sleep(50 * time.Millisecond)
	// the packet gets the lock before the reader, which was woken by the cancel
	r.bcast.HoldLock(func(func(), func() <-chan struct{}) {
		go func() { _ = r.HandlePacket(NewCallDataPacket([]byte("x"), false, true, nil)) }()
		time.Sleep(50 * time.Millisecond)
		cancel()
		time.Sleep(50 * time.Millisecond)
	})
	if err := <-res; err != nil {
		t.Fatalf("the message was lost: %v", err)
	}
}
''', "a waiting reader whose context ends just before the last message of a completed call is queued", "the reader reports a cancellation instead of the message which was received before")

S("unimplemented-identity", "S16", "srpc", [
    ("srpc/client-set.go", "if err.Error() == ErrUnimplemented.Error() {", "if err == ErrUnimplemented {"),
], r'''
package srpc

import (
	"context"
	"errors"
	"testing"
)

type fakeClient struct{ err error }

func (f *fakeClient) ExecCall(context.Context, string, string, Message, Message) error { return f.err }
func (f *fakeClient) NewStream(context.Context, string, string, Message) (Stream, error) {
	return nil, f.err
}

func TestDemo(t *testing.T) {
	// errors of the remote arrive as text
	set := NewClientSet([]Client{&fakeClient{errors.New(ErrUnimplemented.Error())}, &fakeClient{}})
	if err := set.ExecCall(context.Background(), "s", "m", nil, nil); err != nil {
		t.Fatalf("the next client was not tried: %v", err)
	}
}
''', "a client whose remote side answers unimplemented, which arrives as text", "the next client of the set is not tried")

S("fallback-error", "S15", "srpc", [
    ("srpc/mux.go", "			if err != nil || handled {\n				return handled, err\n			}\n", "			if handled {\n				return true, err\n			}\n"),
], r'''
package srpc

import (
	"errors"
	"testing"
)

type errInvoker struct{ err error }

func (e *errInvoker) InvokeMethod(string, string, Stream) (bool, error) { return false, e.err }

func TestDemo(t *testing.T) {
	want := errors.New("denied")
	if _, err := NewMux(&errInvoker{want}).InvokeMethod("s", "m", nil); err != want {
		t.Fatalf("the error of the fallback is lost: %v", err)
	}
}
''', "a fallback invoker which fails without handling the call", "the failure is reported as not found and further fallbacks run")

S("close-cb-skipped", "S21", "srpc", [
    ("srpc/msg-stream.go", "	if r.closeCb != nil {\n", "	if r.closeCb != nil && err == nil {\n"),
], r'''
package srpc

import (
	"context"
	"errors"
	"testing"
)

type deadRw struct{}

func (deadRw) ReadOne() ([]byte, error)                { return nil, errors.New("dead") }
func (deadRw) WriteCallData([]byte, bool, error) error { return errors.New("dead") }
func (deadRw) WriteCallCancel() error                  { return errors.New("dead") }

func TestDemo(t *testing.T) {
	released := false
	_ = NewMsgStream(context.Background(), deadRw{}, func() { released = true }).Close()
	if !released {
		t.Fatal("the call was not released")
	}
}
''', "closing a stream whose connection is already broken", "the call is not released if the cancel packet can not be written")

S("raw-alias", "S23", "srpc", [
    ("srpc/stream-rwc.go", "	rwc.writeMsg.copy = true\n", ""),
], r'''
package srpc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := NewPipeStream(context.Background())
	buf := []byte("abc")
	if _, err := NewStreamRwc(a).Write(buf); err != nil {
		t.Fatal(err)
	}
	buf[0] = 'X' // the caller owns buf again
	out := make([]byte, 8)
	n, err := NewStreamRwc(b).Read(out)
	if err != nil || string(out[:n]) != "abc" {
		t.Fatalf("%q %v", out[:n], err)
	}
}
''', "a caller which reuses its buffer after Write returned, over a stream which queues messages", "queued messages change when the caller reuses its buffer")

S("component-init-nil", "S25", "rpcstream", [
    ("rpcstream/rpcstream.go", "	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)\n	if !ok || initInner.Init == nil {\n", "	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)\n	if !ok {\n"),
], r'''
package rpcstream

import (
	"context"
	"io"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

type fakeStream struct {
	srpc.Stream
	in []*RpcStreamPacket
}

func (f *fakeStream) Context() context.Context    { return context.Background() }
func (f *fakeStream) Send(*RpcStreamPacket) error { return nil }
func (f *fakeStream) Recv() (*RpcStreamPacket, error) {
	if len(f.in) == 0 {
		return nil, io.EOF
	}
	p := f.in[0]
	f.in = f.in[1:]
	return p, nil
}

func TestDemo(t *testing.T) {
	strm := &fakeStream{in: []*RpcStreamPacket{{Body: &RpcStreamPacket_Init{}}}}
	looked := false
	err := HandleRpcStream(strm, func(context.Context, string) (srpc.Invoker, func(), error) {
		looked = true
		return nil, nil, nil
	})
	if err != ErrUnexpectedPacket || looked {
		t.Fatalf("a stream without init message was looked up: %v", err)
	}
}
''', "a peer which sends an init packet without an init message", "a component with an empty name is looked up instead of refusing the stream")

S("proxy-init-id", "S27", "rpcstream", [
    ("rpcstream/proxy.go", "	remoteCaller, remoteComponentID, remoteCallerRel, err := getter", "	remoteCaller, _, remoteCallerRel, err := getter"),
    ("rpcstream/proxy.go", "					ComponentId: remoteComponentID,\n", "					ComponentId: componentID,\n"),
], r'''
package rpcstream

import (
	"context"
	"io"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

type fakeStream struct {
	in   []*RpcStreamPacket
	sent []*RpcStreamPacket
}

func (f *fakeStream) Context() context.Context         { return context.Background() }
func (f *fakeStream) MsgSend(srpc.Message) error       { return nil }
func (f *fakeStream) MsgRecv(srpc.Message) error       { return io.EOF }
func (f *fakeStream) CloseSend() error                 { return nil }
func (f *fakeStream) Close() error                     { return nil }
func (f *fakeStream) Send(p *RpcStreamPacket) error    { f.sent = append(f.sent, p); return nil }
func (f *fakeStream) Recv() (*RpcStreamPacket, error) {
	if len(f.in) == 0 {
		return nil, io.EOF
	}
	p := f.in[0]
	f.in = f.in[1:]
	return p, nil
}

func TestDemo(t *testing.T) {
	strm := &fakeStream{in: []*RpcStreamPacket{{Body: &RpcStreamPacket_Init{Init: &RpcStreamInit{ComponentId: "local"}}}}}
	remote := &fakeStream{}
	_ = HandleProxyRpcStream(strm, func(context.Context, string) (RpcStreamCaller[RpcStream], string, func(), error) {
		return func(context.Context) (RpcStream, error) { return remote, nil }, "remote", nil, nil
	})
	if len(remote.sent) == 0 || remote.sent[0].GetInit().GetComponentId() != "remote" {
		t.Fatalf("the remote component was named %v", remote.sent)
	}
}
''', "a proxy which maps a component to another name", "the remote side is asked for the name of the local component")

S("accept-ends-calls", "S30", "srpc", [
    ("srpc/server.go", "		go s.HandleStream(ctx, muxedStream)\n", "		hctx, hctxCancel := context.WithCancel(ctx)\n		defer hctxCancel()\n		go s.HandleStream(hctx, muxedStream)\n"),
], r'''
package srpc

import (
	"context"
	"errors"
	"io"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p/core/network"
)

type oneConn struct {
	accepts int
	strm    network.MuxedStream
}

func (c *oneConn) Close() error   { return nil }
func (c *oneConn) IsClosed() bool { return false }
func (c *oneConn) OpenStream(context.Context) (network.MuxedStream, error) {
	return nil, errors.New("closed")
}
func (c *oneConn) AcceptStream() (network.MuxedStream, error) {
	if c.accepts++; c.accepts > 1 {
		time.Sleep(100 * time.Millisecond)
		return nil, errors.New("going away")
	}
	return c.strm, nil
}

type pipeRw struct {
	network.MuxedStream
	io.Reader
}

func (p *pipeRw) Read(b []byte) (int, error)  { return p.Reader.Read(b) }
func (p *pipeRw) Write(b []byte) (int, error) { return len(b), nil }
func (p *pipeRw) Close() error                { return nil }

type ctxInvoker struct{ ch chan error }

func (c *ctxInvoker) InvokeMethod(_, _ string, strm Stream) (bool, error) {
	select {
	case <-strm.Context().Done():
		c.ch <- strm.Context().Err()
	case <-time.After(time.Second):
		c.ch <- nil
	}
	return true, nil
}

func TestDemo(t *testing.T) {
	rd, wr := io.Pipe()
	inv := &ctxInvoker{ch: make(chan error, 1)}
	go func() { _ = NewServer(inv).AcceptMuxedConn(context.Background(), &oneConn{strm: &pipeRw{Reader: rd}}) }()
	prw := NewPacketReadWriter(struct {
		io.Reader
		io.WriteCloser
	}{rd, wr})
	if err := prw.WritePacket(NewCallStartPacket("s", "m", nil, false)); err != nil {
		t.Fatal(err)
	}
	if err := <-inv.ch; err != nil {
		t.Fatalf("the running call was ended when no more streams were accepted: %v", err)
	}
}
''', "a connection which stops accepting streams while a call of it is running", "running calls are canceled as soon as the accept loop ends")

S("prefix-empty", "S19", "srpc", [
    ("srpc/strip-prefix.go", "		matched = strings.HasPrefix(id, prefix)\n		if matched {\n			matchedPrefix = prefix\n			break\n		}\n", "		if strings.HasPrefix(id, prefix) {\n			matched, matchedPrefix = true, prefix\n		}\n"),
], r'''
package srpc

import "testing"

func TestDemo(t *testing.T) {
	id, prefix := CheckStripPrefix("a/b/svc", []string{"a/b/", "a/"})
	if id != "svc" || prefix != "a/b/" {
		t.Fatalf("%q %q", id, prefix)
	}
}
''', "a list in which several prefixes match", "the last and not the first matching prefix is stripped")
