"Changes which the mutation engine (mutate/) found to be missed, and refactorings for the rules which report them now."
from cases import M, R
COM = "srpc/common-rpc.go"
SRV = "srpc/server-rpc.go"
CLI = "srpc/client-rpc.go"
SERVER = "srpc/server.go"
PKT = "srpc/packet.go"
RWC = "srpc/rwc-conn.go"
PRW = "srpc/packet-rw.go"
MUX = "srpc/mux.go"
MC = "srpc/muxed-conn.go"

INIT = "initCommonRPC(ctx, &rpc.commonRPC)\n"
M("S60", "server ctx", (SRV, INIT, "initCommonRPC(context.Background(), &rpc.commonRPC)\n"))
M("S60", "client ctx", (CLI, INIT, "initCommonRPC(context.WithoutCancel(ctx), &rpc.commonRPC)\n"))
M("S60", "no writer", (SRV, "	rpc.writer = writer\n", ""))
M("S60", "no invoker", (SRV, "&ServerRPC{invoker: invoker}", "&ServerRPC{}"))
M("S60", "swapped ids", (CLI, "	rpc.service = service\n	rpc.method = method\n", "	rpc.service = method\n	rpc.method = service\n"))
M("S60", "other cancel", (COM, "	rpc.ctx, rpc.ctxCancel = context.WithCancel(ctx)\n", "	rpc.ctx = ctx\n	_, rpc.ctxCancel = context.WithCancel(ctx)\n"))
M("S60", "ended", (COM, "	rpc.ctx, rpc.ctxCancel = context.WithCancel(ctx)\n", "	rpc.ctx, rpc.ctxCancel = context.WithCancel(ctx)\n	rpc.dataClosed = ctx.Err() != nil\n"))
M("S60", "outcome", (COM, "	rpc.ctx, rpc.ctxCancel = context.WithCancel(ctx)\n", "	rpc.ctx, rpc.ctxCancel = context.WithCancel(ctx)\n	rpc.remoteErr = ctx.Err()\n"))
M("S60", "closes", (SRV, "	rpc.writer = writer\n", "	rpc.writer = writer\n	if ctx.Err() != nil {\n		_ = writer.Close()\n	}\n"))
M("S60", "server invoker", (SERVER, "	return s.invoker\n", "	if m, ok := s.invoker.(Mux); ok {\n		return NewMux(m)\n	}\n	return s.invoker\n"))
R("fresh inline", (SRV, "	initCommonRPC(ctx, &rpc.commonRPC)\n	rpc.writer = writer\n	return rpc\n", "	rpc.commonRPC.ctx, rpc.commonRPC.ctxCancel = context.WithCancel(ctx)\n	rpc.commonRPC.writer = writer\n	return rpc\n"))
R("fresh literal", (SRV, "	rpc := &ServerRPC{invoker: invoker}\n	initCommonRPC(ctx, &rpc.commonRPC)\n	rpc.writer = writer\n	return rpc\n", "	rpc := new(ServerRPC)\n	rpc.writer, rpc.invoker = writer, invoker\n	initCommonRPC(ctx, &rpc.commonRPC)\n	return rpc\n"))

M("S14", "handler err dropped", (PKT, "		return handler(pkt)\n", "		_ = handler(pkt)\n		return nil\n"))
M("S14", "handler bad data", (PKT, "		if err := pkt.UnmarshalVT(data); err != nil {\n			return err\n		}\n		return handler(pkt)\n", "		if err := pkt.UnmarshalVT(data); err != nil && len(data) != 0 {\n			return err\n		}\n		_ = pkt.UnmarshalVT(data)\n		return handler(pkt)\n"))
M("S14", "handler swallow", (PKT, "		if err := pkt.UnmarshalVT(data); err != nil {\n			return err\n		}\n		return handler(pkt)\n", "		if err := pkt.UnmarshalVT(data); err != nil {\n			return nil\n		}\n		return handler(pkt)\n"))
M("S14", "handler reuse", (PKT, "	return func(data []byte) error {\n		pkt := &Packet{}\n", "	pkt := &Packet{}\n	return func(data []byte) error {\n"))
R("handler shape", (PKT, "		if err := pkt.UnmarshalVT(data); err != nil {\n			return err\n		}\n		return handler(pkt)\n", "		err := pkt.UnmarshalVT(data)\n		if err == nil {\n			err = handler(pkt)\n		}\n		return err\n"))

M("S06", "wait outcome race", (COM, "			// check the context before the outcome, which is set before it is canceled.\n			rpcEnded = rpcCtx.Err() != nil\n", ""), (COM, "		if rpcEnded {\n", "		rpcEnded = rpcCtx.Err() != nil\n		if rpcEnded {\n"))
M("S06", "wait other end", (COM, "		if rpcEnded {\n			// rpc must have ended w/o an error being set\n			return context.Canceled\n", "		if rpcEnded {\n			// rpc must have ended w/o an error being set\n			return nil\n"))
M("S07", "read end open", (COM, "				c.closeLocked(broadcast)\n				err = context.Canceled\n", "				err = context.Canceled\n"))

M("S17", "has none", (MUX, "			if mhMethodID == methodID {\n", "			if mhMethodID == methodID && len(handlers) > 1 {\n"))
M("S17", "has first", (MUX, "			if mhMethodID == methodID {\n				return true\n			}\n", "			return mhMethodID == methodID\n"))
M("S29", "timeout any", (MC, "if ok && timeoutErr.Timeout() && ctx.Err() != nil {", "if ok && ctx.Err() != nil || ok && !timeoutErr.Timeout() {"))
M("S32", "deadline unlocked", (RWC, "	deadline := p.rd\n	p.restMtx.Unlock()\n", "	p.restMtx.Unlock()\n	deadline := p.rd\n"))
M("S32", "deadline set unlocked", (RWC, "	p.rd = t\n	p.wd = t\n	p.restMtx.Unlock()\n", "	p.wd = t\n	p.restMtx.Unlock()\n	p.rd = t\n"))
M("S32", "addr swapped", (RWC, "	return p.laddr\n", "	if p.laddr == nil {\n		return p.raddr\n	}\n	return p.laddr\n"))
R("deadline defer", (RWC, "	p.restMtx.Lock()\n	p.rd = t\n	p.wd = t\n	p.restMtx.Unlock()\n	return nil\n", "	p.restMtx.Lock()\n	defer p.restMtx.Unlock()\n	p.rd, p.wd = t, t\n	return nil\n"))
M("S01", "close nothing", (PRW, "	return r.rw.Close()\n", "	if r.buf.Len() != 0 {\n		return nil\n	}\n	return r.rw.Close()\n"))

M("S15", "mux fallbacks", (MUX, "		fallback: fallbackInvokers,\n", "		fallback: fallbackInvokers[:min(len(fallbackInvokers), 1)],\n"))
M("S17", "mux no map", (MUX, "		services: make(map[string]muxMethods),\n", ""))
MOCK = "mock/mock.go"
M("S57", "mock nil", (MOCK, "		return nil, srpc.ErrUnimplemented\n", "		return &MockMsg{}, nil\n"))
M("S57", "mock twice", (MOCK, "	return e.MockRequestCb(ctx, msg)\n", "	if out, err := e.MockRequestCb(ctx, msg); err == nil {\n		return out, nil\n	}\n	return e.MockRequestCb(ctx, msg)\n"))
R("mock switch", (MOCK, "	if e.MockRequestCb == nil {\n		return nil, srpc.ErrUnimplemented\n	}\n	return e.MockRequestCb(ctx, msg)\n", "	if cb := e.MockRequestCb; cb != nil {\n		return cb(ctx, msg)\n	}\n	return nil, srpc.ErrUnimplemented\n"))
R("mux lazy", (MUX, "	return &mux{\n		fallback: fallbackInvokers,\n		services: make(map[string]muxMethods),\n	}\n", "	m := &mux{services: map[string]muxMethods{}}\n	m.fallback = fallbackInvokers\n	return m\n"))

PIPE = "srpc/stream-pipe.go"
M("S02", "maximum refused", (PRW, "			if currLen > uint32(maxMessageSize) {\n", "			if currLen >= uint32(maxMessageSize) {\n"))
M("S29", "timeout while live", (MC, "if ok && timeoutErr.Timeout() && ctx.Err() != nil {", "if ok && timeoutErr.Timeout() && ctx.Err() == context.DeadlineExceeded {"))
M("S32", "pump stuck", (RWC, "			select {\n			case <-p.ctx.Done():\n				return context.Canceled\n			case p.packetCh <- pktBuf[:n]:\n			}\n", "			p.packetCh <- pktBuf[:n]\n"))
M("S32", "pump clean end", (RWC, "				return context.Canceled\n			case p.packetCh <- pktBuf[:n]:", "				return nil\n			case p.packetCh <- pktBuf[:n]:"))
M("S32", "lock kept", (RWC, "	p.rd = t\n	p.restMtx.Unlock()\n	return nil\n}\n\n// SetWriteDeadline", "	p.rd = t\n	return nil\n}\n\n// SetWriteDeadline"))
M("S32", "pool empty", (RWC, "	if bufp != nil {\n		buf = *bufp.(*[]byte)\n	}\n", "	buf = *bufp.(*[]byte)\n"))
M("S33", "own data not read", (PIPE, "	case data := <-p.dataCh:\n		return msg.UnmarshalVT(data)\n	case <-p.other.closedCh:\n", "	case <-p.other.closedCh:\n"))
R("pool comma", (RWC, "	bufp := p.ar.Get()\n	if bufp != nil {\n		buf = *bufp.(*[]byte)\n	}\n", "	if bufp, ok := p.ar.Get().(*[]byte); ok && bufp != nil {\n		buf = *bufp\n	}\n"))
R("timeout nested", (MC, "			if ok && timeoutErr.Timeout() && ctx.Err() != nil {\n				return nil, context.Canceled\n			}\n			return nil, err\n", "			if ctx.Err() == nil {\n				return nil, err\n			}\n			if ok && timeoutErr.Timeout() {\n				err = context.Canceled\n			}\n			return nil, err\n"))
R("maximum local", (PRW, "			if currLen > uint32(maxMessageSize) {\n", "			if limit := uint32(maxMessageSize); limit < currLen {\n"))
R("pipe recv order", (PIPE, "	case data := <-p.dataCh:\n		return msg.UnmarshalVT(data)\n	case <-p.other.closedCh:\n", "	case <-p.other.closedCh:\n"), (PIPE, "		default:\n			return io.EOF\n		}\n	}\n}\n", "		default:\n			return io.EOF\n		}\n	case data := <-p.dataCh:\n		return msg.UnmarshalVT(data)\n	}\n}\n"))
