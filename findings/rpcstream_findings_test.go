package rpcstream

import (
	"context"
	"errors"
	"io"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

type fStrm struct {
	in  []*RpcStreamPacket
	out []*RpcStreamPacket
	closed int
}

func (f *fStrm) Context() context.Context { return context.Background() }
func (f *fStrm) MsgSend(m srpc.Message) error { return errors.New("unused") }
func (f *fStrm) MsgRecv(m srpc.Message) error { return io.EOF }
func (f *fStrm) CloseSend() error { return nil }
func (f *fStrm) Close() error     { f.closed++; return nil }
func (f *fStrm) Send(p *RpcStreamPacket) error { f.out = append(f.out, p.CloneVT()); return nil }
func (f *fStrm) Recv() (*RpcStreamPacket, error) {
	if len(f.in) == 0 {
		return nil, io.EOF
	}
	p := f.in[0]
	f.in = f.in[1:]
	return p, nil
}
func initStrm() *fStrm {
	return &fStrm{in: []*RpcStreamPacket{{Body: &RpcStreamPacket_Init{Init: &RpcStreamInit{ComponentId: "c"}}}}}
}

// F12: the release function is called also when no mux is returned.
func TestF12ReleaseWithoutMux(t *testing.T) {
	var rel int
	err := HandleRpcStream(initStrm(), func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		return nil, func() { rel++ }, nil
	})
	if err == nil || rel != 1 {
		t.Fatalf("err=%v released=%d", err, rel)
	}
}

// F13: the proxy looks at the caller, not at the release function.
func TestF13ProxyNilCaller(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	s := initStrm()
	err := HandleProxyRpcStream[RpcStream](s, func(ctx context.Context, id string) (RpcStreamCaller[RpcStream], string, func(), error) {
		return nil, "", func() {}, nil
	})
	if err != ErrNoServerForComponent {
		t.Fatal(err)
	}
	s = initStrm()
	remote := &fStrm{}
	err = HandleProxyRpcStream[RpcStream](s, func(ctx context.Context, id string) (RpcStreamCaller[RpcStream], string, func(), error) {
		return func(ctx context.Context) (RpcStream, error) { return remote, nil }, "r", nil, nil
	})
	if err != nil || len(remote.out) != 1 {
		t.Fatalf("caller without a release function was rejected: %v", err)
	}
}
