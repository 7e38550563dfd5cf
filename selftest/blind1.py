"""Whole functions written differently, the same behaviour."""
from cases import R

def fn(f, sig, new):
    s = open("/repo/" + f).read()
    i = s.index("\n" + sig) + 1
    j = s.index("\n}\n", i) + 3
    return (f, s[i:j], new.lstrip("\n"))

P, C = "srpc/packet-rw.go", "srpc/common-rpc.go"
R("b1 write packet", fn(P, "func (r *PacketReadWriter) WritePacket(", '''
func (r *PacketReadWriter) WritePacket(p *Packet) error {
	frame, err := encodeFrame(p)
	if err != nil {
		return err
	}

	r.writeMtx.Lock()
	defer r.writeMtx.Unlock()
	return r.writeAll(frame)
}

// encodeFrame encodes the packet with its length prefix.
func encodeFrame(p *Packet) ([]byte, error) {
	size := p.SizeVT()
	if size > math.MaxUint32 {
		return nil, errors.New("message size exceeds maximum uint32 value")
	}
	frame := make([]byte, size+4)
	binary.LittleEndian.PutUint32(frame[:4], uint32(size)) //nolint:gosec
	if _, err := p.MarshalToSizedBufferVT(frame[4:]); err != nil {
		return nil, err
	}
	return frame, nil
}

// writeAll writes all of the data.
func (r *PacketReadWriter) writeAll(data []byte) error {
	for len(data) > 0 {
		n, err := r.rw.Write(data)
		switch {
		case err != nil:
			return err
		case n == 0:
			return io.ErrShortWrite
		}
		data = data[n:]
	}
	return nil
}
'''))
R("b1 write packet append", fn(P, "func (r *PacketReadWriter) WritePacket(", '''
func (r *PacketReadWriter) WritePacket(p *Packet) error {
	body, err := p.MarshalVT()
	if err != nil {
		return err
	}
	if len(body) > math.MaxUint32 {
		return errors.New("message size exceeds maximum uint32 value")
	}
	data := binary.LittleEndian.AppendUint32(make([]byte, 0, 4+len(body)), uint32(len(body))) //nolint:gosec
	data = append(data, body...)

	r.writeMtx.Lock()
	defer r.writeMtx.Unlock()
	for off := 0; off < len(data); {
		n, werr := r.rw.Write(data[off:])
		if werr != nil {
			return werr
		}
		if n == 0 {
			return io.ErrShortWrite
		}
		off += n
	}
	return nil
}
'''))
R("b1 read loop", fn(P, "func (r *PacketReadWriter) ReadToHandler(", '''
func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
	buf := make([]byte, 2048)
	for {
		n, readErr := r.rw.Read(buf)
		closed := readErr == io.EOF || readErr == context.Canceled
		if readErr != nil && !closed {
			return readErr
		}
		if _, err := r.buf.Write(buf[:n]); err != nil {
			return err
		}
		if err := r.emitBuffered(cb); err != nil {
			return err
		}
		if closed {
			break
		}
	}
	if r.buf.Len() > 0 {
		// closed in the middle of a packet
		return io.ErrUnexpectedEOF
	}
	return nil
}

// emitBuffered emits all packets which are fully buffered.
func (r *PacketReadWriter) emitBuffered(cb PacketDataHandler) error {
	for r.buf.Len() >= 4 {
		size := r.readLengthPrefix(r.buf.Bytes()[:4])
		if size == 0 {
			return errors.New("unexpected zero len prefix")
		}
		if size > uint32(maxMessageSize) {
			return errors.Errorf("message size %v greater than maximum %v", size, maxMessageSize)
		}
		total := int(size) + 4
		if r.buf.Len() < total {
			return nil
		}
		if err := cb(r.buf.Next(total)[4:]); err != nil {
			return err
		}
	}
	return nil
}
'''))
R("b1 read pump", fn(P, "func (r *PacketReadWriter) ReadPump(", '''
func (r *PacketReadWriter) ReadPump(cb PacketDataHandler, closed CloseHandler) {
	var err error
	defer func() {
		if closed == nil {
			return
		}
		closed(err)
	}()
	err = r.ReadToHandler(cb)
}
'''))
R("b1 wait", fn(C, "func (c *commonRPC) Wait(", '''
func (c *commonRPC) Wait(ctx context.Context) error {
	for {
		waitCh, err := c.outcome()
		if err != nil {
			return err
		}
		if c.ctx.Err() != nil {
			return context.Canceled
		}
		select {
		case <-waitCh:
		case <-c.ctx.Done():
		case <-ctx.Done():
			return context.Canceled
		}
	}
}

// outcome returns the remote error and the channel to wait for changes.
func (c *commonRPC) outcome() (waitCh <-chan struct{}, err error) {
	c.bcast.HoldLock(func(_ func(), getWaitCh func() <-chan struct{}) {
		err = c.remoteErr
		waitCh = getWaitCh()
	})
	return waitCh, err
}
'''))
R("b1 readone", fn(C, "func (c *commonRPC) ReadOne(", '''
func (c *commonRPC) ReadOne() ([]byte, error) {
	var ctxDone bool
	for {
		msg, ok, waitCh, err := c.tryReadOne(ctxDone)
		if ok || err != nil {
			return msg, err
		}
		select {
		case <-waitCh:
		case <-c.ctx.Done():
			ctxDone = true
		}
	}
}

// tryReadOne takes the next message if there is one.
func (c *commonRPC) tryReadOne(ctxDone bool) (msg []byte, ok bool, waitCh <-chan struct{}, err error) {
	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		switch {
		case ctxDone && !c.dataClosed:
			c.closeLocked(broadcast)
			err = context.Canceled
		case len(c.dataQueue) > 0:
			msg, ok = c.popLocked(), true
		case c.remoteErr != nil:
			err = c.remoteErr
		case c.dataClosed:
			err = io.EOF
		default:
			waitCh = getWaitCh()
		}
	})
	return
}

// popLocked takes the first message of the queue.
func (c *commonRPC) popLocked() []byte {
	head := c.dataQueue[0]
	c.dataQueue[0] = nil
	c.dataQueue = c.dataQueue[1:]
	return head
}
'''))
R("b1 calldata", fn(C, "func (c *commonRPC) HandleCallData(", '''
func (c *commonRPC) HandleCallData(pkt *CallData) error {
	data, errStr := pkt.GetData(), pkt.GetError()
	hasData := len(data) != 0 || pkt.GetDataIsZero()
	hasErr := errStr != ""

	completed := false
	c.bcast.HoldLock(func(broadcast func(), _ func() <-chan struct{}) {
		if completed = c.dataClosed; completed {
			return
		}
		defer broadcast()
		if hasData {
			c.dataQueue = append(c.dataQueue, data)
		}
		if hasErr {
			c.remoteErr = errors.New(errStr)
		}
		c.dataClosed = hasErr || pkt.GetComplete()
	})
	if completed {
		return ErrCompleted
	}
	return nil
}
'''))
R("b1 streamclose shared", fn(C, "func (c *commonRPC) HandleStreamClose(", '''
func (c *commonRPC) HandleStreamClose(closeErr error) {
	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		c.endLocked(closeErr)
		c.ctxCancel()
		c.closeWriterLocked()
		broadcast()
	})
}

// endLocked ends the incoming data, keeping the outcome if already completed.
func (c *commonRPC) endLocked(err error) {
	if !c.dataClosed && c.remoteErr == nil {
		c.remoteErr = err
	}
	c.dataClosed = true
}

// closeWriterLocked closes the writer if the call was started.
func (c *commonRPC) closeWriterLocked() {
	if w := c.writer; w != nil {
		_ = w.Close()
	}
}
'''), fn(C, "func (c *commonRPC) closeLocked(", '''
func (c *commonRPC) closeLocked(broadcast func()) {
	c.endLocked(context.Canceled)
	c.closeWriterLocked()
	broadcast()
	c.ctxCancel()
}
'''), fn("srpc/client-rpc.go", "func (r *ClientRPC) HandleStreamClose(", '''
func (r *ClientRPC) HandleStreamClose(closeErr error) {
	r.bcast.HoldLock(func(broadcast func(), _ func() <-chan struct{}) {
		defer broadcast()
		r.endLocked(closeErr)
		r.ctxCancel()
	})
}
'''))
R("b1 start", fn("srpc/client-rpc.go", "func (r *ClientRPC) Start(", '''
func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []byte) error {
	if writer == nil {
		return ErrNilWriter
	}
	if r.ctx.Err() != nil {
		r.abort(writer)
		return context.Canceled
	}

	firstMsgEmpty := writeFirstMsg && len(firstMsg) == 0
	pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)

	var err error
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		defer broadcast()
		r.writer = writer
		if err = writer.WritePacket(pkt); err != nil {
			r.abort(writer)
		}
	})
	return err
}

// abort releases the call which could not be started.
func (r *ClientRPC) abort(writer PacketWriter) {
	r.ctxCancel()
	_ = writer.Close()
}
'''))
R("b1 handle packet generic", fn("srpc/client-rpc.go", "func (r *ClientRPC) HandlePacket(", '''
func (r *ClientRPC) HandlePacket(msg *Packet) error {
	err := msg.Validate()
	if err != nil {
		return err
	}
	body := msg.GetBody()
	if start, ok := body.(*Packet_CallStart); ok {
		return r.HandleCallStart(start.CallStart)
	}
	if data, ok := body.(*Packet_CallData); ok {
		return r.HandleCallData(data.CallData)
	}
	if cancel, ok := body.(*Packet_CallCancel); ok && cancel.CallCancel {
		return r.HandleCallCancel()
	}
	return nil
}
'''), fn("srpc/client-rpc.go", "func (r *ClientRPC) Close(", '''
func (r *ClientRPC) Close() {
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		if r.writer == nil {
			// the call did not start yet
			r.ctxCancel()
			return
		}
		_ = r.writer.WritePacket(NewCallCancelPacket())
		r.closeLocked(broadcast)
	})
}
'''))
R("b1 server packet", fn("srpc/server-rpc.go", "func (r *ServerRPC) HandlePacket(", '''
func (r *ServerRPC) HandlePacket(msg *Packet) error {
	if msg == nil {
		return nil
	}
	err := msg.Validate()
	if err == nil {
		err = r.dispatch(msg.GetBody())
	}
	return err
}

func (r *ServerRPC) dispatch(body isPacket_Body) error {
	switch b := body.(type) {
	case *Packet_CallCancel:
		if !b.CallCancel {
			break
		}
		return r.HandleCallCancel()
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	}
	return nil
}
'''))
R("b1 server start", fn("srpc/server-rpc.go", "func (r *ServerRPC) HandleCallStart(", '''
func (r *ServerRPC) HandleCallStart(pkt *CallStart) error {
	service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
	data, dataIsZero := pkt.GetData(), pkt.GetDataIsZero()

	var err error
	r.bcast.HoldLock(func(broadcast func(), _ func() <-chan struct{}) {
		switch {
		case r.service != "" || r.method != "":
			err = errors.New("call start must be sent only once")
		case r.dataClosed:
			err = ErrCompleted
		default:
			r.service = service
			r.method = method
			if dataIsZero || len(data) > 0 {
				r.dataQueue = append(r.dataQueue, data)
			}
			broadcast()
			go r.invokeRPC(service, method)
		}
	})
	return err
}
'''), fn("srpc/server-rpc.go", "func (r *ServerRPC) invokeRPC(", '''
func (r *ServerRPC) invokeRPC(serviceID, methodID string) {
	defer r.ctxCancel()
	defer func() { _ = r.writer.Close() }()

	strm := NewMsgStream(r.ctx, r, r.ctxCancel)
	found, err := r.invoker.InvokeMethod(serviceID, methodID, strm)
	if !found && err == nil {
		err = ErrUnimplemented
	}
	_ = r.WriteCallData(nil, true, err)
}
'''))
R("b1 msgstream", fn("srpc/msg-stream.go", "func (r *MsgStream) MsgSend(", '''
func (r *MsgStream) MsgSend(msg Message) error {
	if r.ctx.Err() != nil {
		return context.Canceled
	}
	data, err := msg.MarshalVT()
	if err == nil {
		err = r.rw.WriteCallData(data, false, nil)
	}
	return err
}
'''), fn("srpc/msg-stream.go", "func (r *MsgStream) MsgRecv(", '''
func (r *MsgStream) MsgRecv(msg Message) error {
	if data, err := r.rw.ReadOne(); err != nil {
		return err
	} else {
		return msg.UnmarshalVT(data)
	}
}
'''), fn("srpc/msg-stream.go", "func (r *MsgStream) Close(", '''
func (r *MsgStream) Close() error {
	if cb := r.closeCb; cb != nil {
		defer cb()
	}
	return r.rw.WriteCallCancel()
}
'''))
R("b1 client", fn("srpc/client.go", "func (c *client) ExecCall(", '''
func (c *client) ExecCall(ctx context.Context, service, method string, in, out Message) error {
	firstMsg, err := in.MarshalVT()
	if err != nil {
		return err
	}
	reply, err := c.roundTrip(ctx, service, method, firstMsg)
	if err != nil {
		return err
	}
	if err := out.UnmarshalVT(reply); err != nil {
		return errors.Wrap(ErrInvalidMessage, err.Error())
	}
	return nil
}

// roundTrip sends the request and waits for the reply.
func (c *client) roundTrip(ctx context.Context, service, method string, req []byte) ([]byte, error) {
	rpc := NewClientRPC(ctx, service, method)
	defer rpc.Close()

	writer, err := c.openStream(ctx, rpc.HandlePacketData, rpc.HandleStreamClose)
	if err != nil {
		return nil, err
	}
	if err := rpc.Start(writer, true, req); err != nil {
		return nil, err
	}
	return rpc.ReadOne()
}
'''), fn("srpc/client.go", "func (c *client) NewStream(", '''
func (c *client) NewStream(ctx context.Context, service, method string, firstMsg Message) (_ Stream, rerr error) {
	var (
		firstMsgData []byte
		hasFirst     = firstMsg != nil
	)
	if hasFirst {
		data, err := firstMsg.MarshalVT()
		if err != nil {
			return nil, err
		}
		firstMsgData = data
	}

	rpc := NewClientRPC(ctx, service, method)
	defer func() {
		if rerr != nil {
			rpc.ctxCancel()
		}
	}()

	writer, err := c.openStream(ctx, rpc.HandlePacketData, rpc.HandleStreamClose)
	if err != nil {
		return nil, err
	}
	if err := rpc.Start(writer, hasFirst, firstMsgData); err != nil {
		return nil, err
	}
	closeCb := func() {
		rpc.ctxCancel()
		_ = writer.Close()
	}
	return NewMsgStream(rpc.Context(), rpc, closeCb), nil
}
'''))
