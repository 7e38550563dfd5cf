package srpc

// Demonstrations of the genuine defects found in aperturerobotics/starpc.
// Every test fails on the base commit (20d173a) and passes once repaired.
// Run with /verif/findings/run.sh.

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"runtime"
	"strings"
	"testing"
	"time"
)

type fWriter struct {
	pkts   []*Packet
	closed int
	fail   error
}

func (w *fWriter) WritePacket(p *Packet) error { w.pkts = append(w.pkts, p.CloneVT()); return w.fail }
func (w *fWriter) Close() error                { w.closed++; return nil }

// F1: a half close must not look like an empty message.
func TestF01CloseSendNoSpuriousMessage(t *testing.T) {
	w := &fWriter{}
	r := NewServerRPC(context.Background(), InvokerSlice(nil), w)
	if err := NewMsgStream(r.Context(), r, nil).CloseSend(); err != nil {
		t.Fatal(err)
	}
	peer := NewClientRPC(context.Background(), "s", "m")
	if err := peer.HandlePacket(w.pkts[0]); err != nil {
		t.Fatal(err)
	}
	if msg, err := peer.ReadOne(); err != io.EOF {
		t.Fatalf("expected EOF, got msg=%v err=%v", msg, err)
	}
}

// F2: a cancel packet which arrives before Start must not crash the process.
func TestF02CancelBeforeStart(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	r := NewClientRPC(context.Background(), "s", "m")
	if err := r.HandlePacket(NewCallCancelPacket()); err != nil {
		t.Fatal(err)
	}
}

// F3: the first terminal outcome wins.
func TestF03FirstOutcomeWins(t *testing.T) {
	for _, client := range []bool{true, false} {
		var h func(*Packet) error
		var cl func(error)
		var rd func() ([]byte, error)
		if client {
			r := NewClientRPC(context.Background(), "s", "m")
			h, cl, rd = r.HandlePacket, r.HandleStreamClose, r.ReadOne
		} else {
			r := NewServerRPC(context.Background(), InvokerSlice(nil), &fWriter{})
			h, cl, rd = r.HandlePacket, r.HandleStreamClose, r.ReadOne
		}
		if err := h(NewCallDataPacket([]byte("x"), false, true, nil)); err != nil {
			t.Fatal(err)
		}
		cl(errors.New("connection reset"))
		if m, err := rd(); err != nil || string(m) != "x" {
			t.Fatal(m, err)
		}
		if _, err := rd(); err != io.EOF {
			t.Fatalf("client=%v: completed call reported %v", client, err)
		}
	}
}

// F4: partial writes must not corrupt the framing.
type shortRwc struct{ bytes.Buffer }

func (s *shortRwc) Write(p []byte) (int, error) {
	if len(p) > 3 {
		p = p[:3]
	}
	return s.Buffer.Write(p)
}
func (s *shortRwc) Close() error { return nil }

func TestF04ShortWrite(t *testing.T) {
	s := &shortRwc{}
	pkt := NewCallDataPacket([]byte("hello world"), false, false, nil)
	if err := NewPacketReadWriter(s).WritePacket(pkt); err != nil {
		t.Fatal(err)
	}
	body, _ := pkt.MarshalVT()
	exp := binary.LittleEndian.AppendUint32(nil, uint32(len(body)))
	exp = append(exp, body...)
	if !bytes.Equal(exp, s.Bytes()) {
		t.Fatalf("corrupt frame: %x expected %x", s.Bytes(), exp)
	}
}

type nopHandler struct{ fn func(strm Stream) error }

func (nopHandler) GetServiceID() string   { return "svc" }
func (nopHandler) GetMethodIDs() []string { return []string{"m"} }
func (n nopHandler) InvokeMethod(s, m string, strm Stream) (bool, error) {
	return true, n.fn(strm)
}

func echoSrv() *Server {
	mx := NewMux()
	_ = mx.Register(nopHandler{func(strm Stream) error {
		msg := NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			return err
		}
		return strm.MsgSend(msg)
	}})
	return NewServer(mx)
}

func freeAddr(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	a := l.Addr().String()
	_ = l.Close()
	return a
}

// F5+F6: Dial and Listen interoperate, with more than one client at once.
func TestF05DialListen(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	addr := freeAddr(t)
	go func() { _ = Listen(ctx, addr, echoSrv(), nil) }()
	for i := 0; i < 2; i++ {
		var cl Client
		var err error
		for j := 0; j < 100; j++ {
			if cl, err = Dial(addr); err == nil {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if err != nil {
			t.Fatal(err)
		}
		cctx, ccancel := context.WithTimeout(ctx, 2*time.Second)
		out := NewRawMessage(nil, true)
		err = cl.ExecCall(cctx, "svc", "m", NewRawMessage([]byte("hi"), true), out)
		ccancel()
		if err != nil || string(out.GetData()) != "hi" {
			t.Fatalf("client %d: %v %q", i, err, out.GetData())
		}
	}
}

// F6: a second connection is served while the first one is open.
func TestF06AcceptConcurrent(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer lis.Close()
	go func() { _ = AcceptMuxedListener(ctx, lis, echoSrv(), nil) }()
	for i := 0; i < 2; i++ {
		nc, err := net.Dial("tcp", lis.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		defer nc.Close()
		cl, err := NewClientWithConn(nc, true, nil)
		if err != nil {
			t.Fatal(err)
		}
		cctx, ccancel := context.WithTimeout(ctx, 2*time.Second)
		out := NewRawMessage(nil, true)
		err = cl.ExecCall(cctx, "svc", "m", NewRawMessage([]byte("hi"), true), out)
		ccancel()
		if err != nil || string(out.GetData()) != "hi" {
			t.Fatalf("conn %d: %v %q", i, err, out.GetData())
		}
	}
}

// F7: Listen releases the address when it returns.
func TestF07ListenReleases(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	addr := freeAddr(t)
	done := make(chan error, 1)
	go func() { done <- Listen(ctx, addr, echoSrv(), nil) }()
	for j := 0; j < 100; j++ {
		if c, err := net.Dial("tcp", addr); err == nil {
			_ = c.Close()
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	cancel()
	<-done
	time.Sleep(50 * time.Millisecond)
	l, err := net.Listen("tcp", addr)
	if err != nil {
		t.Fatalf("address still in use after Listen returned: %v", err)
	}
	_ = l.Close()
}

type endless struct{ closed chan struct{} }

func (e *endless) Read(p []byte) (int, error) {
	select {
	case <-e.closed:
		return 0, io.EOF
	default:
		return copy(p, "x"), nil
	}
}
func (e *endless) Write(p []byte) (int, error) { return len(p), nil }
func (e *endless) Close() error                { close(e.closed); return nil }

func stacks(sub string) int {
	buf := make([]byte, 1<<20)
	return strings.Count(string(buf[:runtime.Stack(buf, true)]), sub)
}

// F8: Close stops the pump even if nobody reads.
func TestF08RwcConnCloseStopsPump(t *testing.T) {
	c := NewRwcConn(context.Background(), &endless{make(chan struct{})}, nil, nil, 1)
	time.Sleep(50 * time.Millisecond)
	_ = c.Close()
	time.Sleep(100 * time.Millisecond)
	if n := stacks("rxPump"); n != 0 {
		t.Fatalf("%d pump goroutine(s) left after Close", n)
	}
}

// F9: a failed NewStream releases the call context.
func TestF09FailedStreamReleasesContext(t *testing.T) {
	var got context.Context
	var rpc *ClientRPC
	_ = rpc
	ctx := &recCtx{Context: context.Background()}
	cl := NewClient(func(ctx context.Context, h PacketDataHandler, c CloseHandler) (PacketWriter, error) {
		got = ctx
		return nil, errors.New("nope")
	})
	_ = got
	if _, err := cl.NewStream(ctx, "s", "m", nil); err == nil {
		t.Fatal("expected error")
	}
	if err := cl.ExecCall(ctx, "s", "m", NewRawMessage(nil, true), NewRawMessage(nil, true)); err == nil {
		t.Fatal("expected error")
	}
	time.Sleep(50 * time.Millisecond)
	if n := stacks("context.(*cancelCtx).propagateCancel"); n != 0 {
		t.Fatalf("%d call contexts left", n)
	}
}

// recCtx is not one of the standard contexts: each live child costs a goroutine.
type recCtx struct{ context.Context }

func (r *recCtx) Done() <-chan struct{} { return make(chan struct{}) }

// F10: the stream context ends when the stream ends.
func TestF10StreamContextEnds(t *testing.T) {
	cl := NewClient(func(ctx context.Context, h PacketDataHandler, c CloseHandler) (PacketWriter, error) {
		return &fWriter{}, nil
	})
	strm, err := cl.NewStream(context.Background(), "s", "m", nil)
	if err != nil {
		t.Fatal(err)
	}
	_ = strm.Close()
	if strm.Context().Err() == nil {
		t.Fatal("stream context is still valid after Close")
	}
	if err := strm.MsgSend(NewRawMessage([]byte("x"), true)); err == nil {
		t.Fatal("MsgSend after Close succeeded")
	}
}

// F11: sending after a half close is an error, not a crash.
func TestF11PipeSendAfterCloseSend(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	a, b := NewPipeStream(context.Background())
	if err := a.MsgSend(NewRawMessage([]byte("1"), true)); err != nil {
		t.Fatal(err)
	}
	_ = a.CloseSend()
	if err := a.MsgSend(NewRawMessage([]byte("x"), true)); err == nil {
		t.Fatal("expected error")
	}
	m := NewRawMessage(nil, true)
	if err := b.MsgRecv(m); err != nil || string(m.GetData()) != "1" {
		t.Fatal(err)
	}
	if err := b.MsgRecv(m); err != io.EOF {
		t.Fatal(err)
	}
}

type rdRwc struct{ io.Reader }

func (rdRwc) Write(p []byte) (int, error) { return len(p), nil }
func (rdRwc) Close() error                { return nil }

// F15: a stream cut in the middle of a frame is an error.
func TestF15TruncatedFrame(t *testing.T) {
	frame := []byte{10, 0, 0, 0, 1, 2, 3}
	err := NewPacketReadWriter(rdRwc{bytes.NewReader(frame)}).ReadToHandler(func([]byte) error { return nil })
	if err == nil {
		t.Fatal("truncated frame reported as a clean end")
	}
}

// F16: cancellation is not reported as a deadline which is an hour away.
func TestF16CanceledIsNotDeadline(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	a, b := net.Pipe()
	defer b.Close()
	c := NewRwcConn(ctx, a, nil, nil, 1)
	_ = c.SetReadDeadline(time.Now().Add(time.Hour))
	cancel()
	if _, err := c.Read(make([]byte, 1)); err != context.Canceled {
		t.Fatal(err)
	}
}

// F17: bytes which do not fit into the buffer of a Read go to the next one.
func TestF17RwcConnShortRead(t *testing.T) {
	a, b := net.Pipe()
	defer b.Close()
	c := NewRwcConn(context.Background(), a, nil, nil, 1)
	go func() { _, _ = b.Write([]byte("hello world")) }()
	buf := make([]byte, 11)
	for n := 0; n < len(buf); {
		m, err := c.Read(buf[n:min(n+4, len(buf))])
		n += m
		if err != nil {
			t.Fatal(err)
		}
	}
	if string(buf) != "hello world" {
		t.Fatalf("%q", buf)
	}
}

// F17: a muxer runs over any io.ReadWriteCloser.
func TestF17MuxedConnWithRwc(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	a, b := net.Pipe()
	ac, err := NewMuxedConnWithRwc(ctx, a, true, nil)
	if err != nil {
		t.Fatal(err)
	}
	bc, err := NewMuxedConnWithRwc(ctx, b, false, nil)
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		s, err := ac.OpenStream(ctx)
		if err == nil {
			_, _ = s.Write([]byte("hello"))
		}
	}()
	s, err := bc.AcceptStream()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, 5)
	if _, err := io.ReadFull(s, buf); err != nil || string(buf) != "hello" {
		t.Fatal(err, string(buf))
	}
}

// F34: Wait returns the outcome of a call which ends while it is looked at.
func TestF34WaitOutcome(t *testing.T) {
	want := errors.New("boom")
	for i := 0; i < 3000000; i++ {
		rpc := NewClientRPC(context.Background(), "a", "b")
		started := make(chan struct{})
		go func() {
			<-started
			if i%3 == 0 {
				runtime.Gosched()
			}
			rpc.HandleStreamClose(want)
		}()
		close(started)
		if i%2 == 0 {
			runtime.Gosched()
		}
		if err := rpc.Wait(context.Background()); err != want {
			t.Fatalf("call %d: %v", i, err)
		}
	}
}

// F35: the deadline of a connection may be set while it is read from (needs -race).
func TestF35DeadlineRace(t *testing.T) {
	a, b := net.Pipe()
	c := NewRwcConn(context.Background(), a, nil, nil, 1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 100; i++ {
			_ = c.SetReadDeadline(time.Now().Add(time.Hour))
			_ = c.SetDeadline(time.Now().Add(time.Hour))
			_ = c.SetWriteDeadline(time.Now().Add(time.Hour))
		}
	}()
	go func() { _, _ = b.Write(make([]byte, 100)) }()
	buf := make([]byte, 1)
	for i := 0; i < 100; i++ {
		if _, err := c.Read(buf); err != nil {
			t.Fatal(err)
		}
	}
	<-done
}
