"""Whole functions of the calls written differently, the same behaviour (third round)."""
from cases import R
from blind1 import fn
C, CL, SV, K, MS, P = "srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/client.go", "srpc/msg-stream.go", "srpc/packet-rw.go"
N, MX = "srpc/net.go", "srpc/mux.go"

R("b3 wait rpcCtx outside", fn(C, "func (c *commonRPC) Wait(", '''
func (c *commonRPC) Wait(ctx context.Context) error {
	var (
		outcome error
		changed <-chan struct{}
	)
	snapshot := func(_ func(), getWaitCh func() <-chan struct{}) {
		outcome, changed = c.remoteErr, getWaitCh()
	}
	for {
		c.bcast.HoldLock(snapshot)
		if outcome != nil {
			return outcome
		}
		select {
		case <-c.ctx.Done():
			// rpc must have ended w/o an error being set
			return context.Canceled
		default:
		}
		select {
		case <-changed:
			continue
		case <-c.ctx.Done():
			continue
		case <-ctx.Done():
			return context.Canceled
		}
	}
}
'''))
R("b3 wait for cond", fn(C, "func (c *commonRPC) Wait(", '''
func (c *commonRPC) Wait(ctx context.Context) error {
	waitCh, err := c.watch()
	for err == nil {
		select {
		case <-ctx.Done():
			return context.Canceled
		case <-c.ctx.Done():
		case <-waitCh:
		}
		waitCh, err = c.watch()
	}
	return err
}

// watch returns the outcome of the call, or a channel to wait for it.
func (c *commonRPC) watch() (<-chan struct{}, error) {
	var waitCh <-chan struct{}
	var err error
	c.bcast.HoldLock(func(_ func(), getWaitCh func() <-chan struct{}) {
		err, waitCh = c.remoteErr, getWaitCh()
	})
	if err == nil && c.ctx.Err() != nil {
		err = context.Canceled
	}
	return waitCh, err
}
'''))
R("b3 readone for cond", fn(C, "func (c *commonRPC) ReadOne(", '''
func (c *commonRPC) ReadOne() ([]byte, error) {
	var msg []byte
	var err error
	var hasMsg, ctxDone bool
	for !hasMsg && err == nil {
		var waitCh <-chan struct{}
		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
			if ctxDone && !c.dataClosed {
				c.closeLocked(broadcast)
				err = context.Canceled
				return
			}
			msg, hasMsg, err = c.nextLocked()
			waitCh = getWaitCh()
		})
		if hasMsg || err != nil {
			break
		}
		select {
		case <-c.ctx.Done():
			ctxDone = true
		case <-waitCh:
		}
	}
	return msg, err
}

// nextLocked pops the next message, or returns the outcome.
func (c *commonRPC) nextLocked() ([]byte, bool, error) {
	if len(c.dataQueue) == 0 {
		switch {
		case c.remoteErr != nil:
			return nil, false, c.remoteErr
		case c.dataClosed:
			return nil, false, io.EOF
		default:
			return nil, false, nil
		}
	}
	msg := c.dataQueue[0]
	c.dataQueue[0] = nil
	c.dataQueue = c.dataQueue[1:]
	return msg, true, nil
}
'''))
R("b3 readone closure outside", fn(C, "func (c *commonRPC) ReadOne(", '''
func (c *commonRPC) ReadOne() ([]byte, error) {
	type result struct {
		msg []byte
		has bool
		err error
	}
	var ctxDone bool
	for {
		var res result
		var waitCh <-chan struct{}
		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
			canceled := ctxDone && !c.dataClosed
			if canceled {
				// context must have been canceled locally
				c.closeLocked(broadcast)
				res.err = context.Canceled
				return
			}
			if n := len(c.dataQueue); n > 0 {
				res = result{msg: c.dataQueue[0], has: true}
				c.dataQueue[0] = nil
				c.dataQueue = c.dataQueue[1:n]
				return
			}
			if c.remoteErr != nil {
				res.err = c.remoteErr
				return
			}
			if c.dataClosed {
				res.err = io.EOF
				return
			}
			waitCh = getWaitCh()
		})
		if res.has {
			return res.msg, nil
		}
		if res.err != nil {
			return nil, res.err
		}
		select {
		case <-c.ctx.Done():
			ctxDone = true
		case <-waitCh:
		}
	}
}
'''))
R("b3 shared dispatch", fn(C, "func (c *commonRPC) WriteCallCancel(", '''
func (c *commonRPC) WriteCallCancel() error {
	pkt := NewCallCancelPacket()
	return c.writer.WritePacket(pkt)
}

// parsePacket decodes and validates a packet.
func parsePacket(data []byte) (*Packet, error) {
	pkt := &Packet{}
	if err := pkt.UnmarshalVT(data); err != nil {
		return nil, err
	}
	return pkt, nil
}

// dispatchPacket calls the handler for the body of the packet.
func (c *commonRPC) dispatchPacket(msg *Packet, onStart func(*CallStart) error) error {
	if err := msg.Validate(); err != nil {
		return err
	}
	switch b := msg.GetBody().(type) {
	case *Packet_CallStart:
		return onStart(b.CallStart)
	case *Packet_CallData:
		return c.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			return c.HandleCallCancel()
		}
	}
	return nil
}
'''), fn(SV, "func (r *ServerRPC) HandlePacketData(", '''
func (r *ServerRPC) HandlePacketData(data []byte) error {
	pkt, err := parsePacket(data)
	if err != nil {
		return err
	}
	return r.HandlePacket(pkt)
}
'''), fn(SV, "func (r *ServerRPC) HandlePacket(", '''
func (r *ServerRPC) HandlePacket(msg *Packet) error {
	if msg == nil {
		return nil
	}
	return r.dispatchPacket(msg, r.HandleCallStart)
}
'''), fn(CL, "func (r *ClientRPC) HandlePacketData(", '''
func (r *ClientRPC) HandlePacketData(data []byte) error {
	pkt, err := parsePacket(data)
	if err != nil {
		return err
	}
	return r.HandlePacket(pkt)
}
'''))
R("b3 client dispatch cancel", fn(CL, "func (r *ClientRPC) HandlePacket(", '''
func (r *ClientRPC) HandlePacket(msg *Packet) (err error) {
	if err = msg.Validate(); err != nil {
		return err
	}
	switch b := msg.Body.(type) {
	case *Packet_CallStart:
		err = r.HandleCallStart(b.CallStart)
	case *Packet_CallData:
		err = r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			err = r.HandleCallCancel()
		}
	}
	return err
}
'''), fn(CL, "func (r *ClientRPC) HandlePacketData(", '''
func (r *ClientRPC) HandlePacketData(data []byte) error {
	return NewPacketDataHandler(r.HandlePacket)(data)
}
'''))
R("b3 calldata early", fn(C, "func (c *commonRPC) HandleCallData(", '''
func (c *commonRPC) HandleCallData(pkt *CallData) (err error) {
	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		if c.dataClosed {
			err = ErrCompleted
		} else {
			c.applyCallDataLocked(pkt)
			broadcast()
		}
	})
	return err
}

func (c *commonRPC) applyCallDataLocked(pkt *CallData) {
	c.enqueueLocked(pkt.GetData(), pkt.GetDataIsZero())
	if msg := pkt.GetError(); msg != "" {
		c.remoteErr = errors.New(msg)
		c.dataClosed = true
	} else if pkt.GetComplete() {
		c.dataClosed = true
	}
}

// enqueueLocked queues the data if there is any.
func (c *commonRPC) enqueueLocked(data []byte, dataIsZero bool) {
	if len(data) == 0 && !dataIsZero {
		return
	}
	c.dataQueue = append(c.dataQueue, data)
}
'''), fn(SV, "func (r *ServerRPC) HandleCallStart(", '''
func (r *ServerRPC) HandleCallStart(pkt *CallStart) (err error) {
	service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		started := len(r.method) != 0 || len(r.service) != 0
		if started {
			err = errors.New("call start must be sent only once")
			return
		} else if r.dataClosed {
			err = ErrCompleted
			return
		}
		r.service, r.method = service, method
		r.enqueueLocked(pkt.GetData(), pkt.GetDataIsZero())
		broadcast()
	})
	if err == nil {
		go r.invokeRPC(service, method)
	}
	return err
}
'''))
R("b3 stream close order", fn(C, "func (c *commonRPC) HandleStreamClose(", '''
func (c *commonRPC) HandleStreamClose(closeErr error) {
	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		defer broadcast()
		defer c.ctxCancel()
		if !c.dataClosed {
			c.dataClosed = true
			if c.remoteErr == nil && closeErr != nil {
				c.remoteErr = closeErr
			}
		}
		if c.writer == nil {
			return
		}
		_ = c.writer.Close()
	})
}
'''), fn(C, "func (c *commonRPC) closeLocked(", '''
func (c *commonRPC) closeLocked(broadcast func()) {
	defer c.ctxCancel()
	if !c.dataClosed {
		c.dataClosed = true
		if c.remoteErr == nil {
			c.remoteErr = context.Canceled
		}
	}
	if w := c.writer; w != nil {
		w.Close()
	}
	broadcast()
}
'''))
R("b3 write call data", fn(C, "func (c *commonRPC) WriteCallData(", '''
func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
	ends := complete || err != nil
	pkt := NewCallDataPacket(data, !ends && len(data) == 0, ends, err)
	return c.writer.WritePacket(pkt)
}
'''), fn(SV, "func (r *ServerRPC) invokeRPC(", '''
func (r *ServerRPC) invokeRPC(serviceID, methodID string) {
	strm := NewMsgStream(r.ctx, r, r.ctxCancel)
	err := r.runHandler(serviceID, methodID, strm)
	r.finish(err)
}

// runHandler calls the handler of the method.
func (r *ServerRPC) runHandler(serviceID, methodID string, strm Stream) error {
	handled, err := r.invoker.InvokeMethod(serviceID, methodID, strm)
	switch {
	case err != nil:
		return err
	case !handled:
		return ErrUnimplemented
	}
	return nil
}

// finish completes the call.
func (r *ServerRPC) finish(err error) {
	_ = r.writer.WritePacket(NewCallDataPacket(nil, false, true, err))
	_ = r.writer.Close()
	r.ctxCancel()
}
'''))
R("b3 new rpcs", fn(CL, "func NewClientRPC(", '''
func NewClientRPC(ctx context.Context, service, method string) *ClientRPC {
	rpc := &ClientRPC{commonRPC: commonRPC{service: service, method: method}}
	rpc.ctx, rpc.ctxCancel = context.WithCancel(ctx)
	return rpc
}
'''), fn(SV, "func NewServerRPC(", '''
func NewServerRPC(ctx context.Context, invoker Invoker, writer PacketWriter) *ServerRPC {
	rpc := new(ServerRPC)
	rpc.invoker, rpc.writer = invoker, writer
	initCommonRPC(ctx, &rpc.commonRPC)
	return rpc
}
'''))
R("b3 start nested", fn(CL, "func (r *ClientRPC) Start(", '''
func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []byte) (err error) {
	if writer == nil {
		return ErrNilWriter
	}
	defer func() {
		if err != nil {
			r.ctxCancel()
			_ = writer.Close()
		}
	}()

	if r.ctx.Err() != nil {
		return context.Canceled
	}
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		r.writer = writer
		err = r.writeStart(writer, writeFirstMsg, firstMsg)
		broadcast()
	})
	return err
}

// writeStart writes the packet which starts the call.
func (r *ClientRPC) writeStart(writer PacketWriter, writeFirstMsg bool, firstMsg []byte) error {
	dataIsZero := false
	if writeFirstMsg && len(firstMsg) == 0 {
		dataIsZero = true
	}
	return writer.WritePacket(NewCallStartPacket(r.service, r.method, firstMsg, dataIsZero))
}
'''), fn(CL, "func (r *ClientRPC) Close(", '''
func (r *ClientRPC) Close() {
	r.bcast.HoldLock(r.closeWithLock)
}

// closeWithLock cancels the call while the lock is held.
func (r *ClientRPC) closeWithLock(broadcast func(), getWaitCh func() <-chan struct{}) {
	started := r.writer != nil
	if !started {
		r.ctxCancel()
		return
	}
	if err := r.WriteCallCancel(); err != nil {
		_ = err // the writer is closed below
	}
	r.closeLocked(broadcast)
}
'''))
R("b3 exec call shared open", fn(K, "func (c *client) ExecCall(", '''
func (c *client) ExecCall(ctx context.Context, service, method string, in, out Message) error {
	firstMsg, err := in.MarshalVT()
	if err != nil {
		return err
	}

	rpc, _, err := c.startCall(ctx, service, method, true, firstMsg)
	defer rpc.Close()
	if err != nil {
		return err
	}

	msg, err := rpc.ReadOne()
	if err == nil {
		if uerr := out.UnmarshalVT(msg); uerr != nil {
			err = errors.Wrap(ErrInvalidMessage, uerr.Error())
		}
	}
	return err
}

// startCall opens a stream and starts a call on it.
func (c *client) startCall(ctx context.Context, service, method string, hasFirst bool, firstMsg []byte) (*ClientRPC, PacketWriter, error) {
	rpc := NewClientRPC(ctx, service, method)
	writer, err := c.openStream(ctx, rpc.HandlePacketData, rpc.HandleStreamClose)
	if err == nil {
		err = rpc.Start(writer, hasFirst, firstMsg)
	}
	return rpc, writer, err
}
'''), fn(K, "func (c *client) NewStream(", '''
func (c *client) NewStream(ctx context.Context, service, method string, firstMsg Message) (Stream, error) {
	var firstMsgData []byte
	var err error
	if firstMsg != nil {
		if firstMsgData, err = firstMsg.MarshalVT(); err != nil {
			return nil, err
		}
	}

	rpc, writer, err := c.startCall(ctx, service, method, firstMsg != nil, firstMsgData)
	if err != nil {
		rpc.ctxCancel()
		return nil, err
	}
	return NewMsgStream(rpc.Context(), rpc, func() {
		defer writer.Close()
		rpc.ctxCancel()
	}), nil
}
'''))
R("b3 msgstream sendable", fn(MS, "func (r *MsgStream) MsgSend(", '''
func (r *MsgStream) MsgSend(msg Message) error {
	select {
	case <-r.ctx.Done():
		return context.Canceled
	default:
	}
	data, err := msg.MarshalVT()
	if err != nil {
		return err
	}
	return r.writeData(data, false)
}

func (r *MsgStream) writeData(data []byte, complete bool) error {
	return r.rw.WriteCallData(data, complete, nil)
}
'''), fn(MS, "func (r *MsgStream) CloseSend(", '''
func (r *MsgStream) CloseSend() error {
	return r.writeData(nil, true)
}
'''), fn(MS, "func (r *MsgStream) Close(", '''
func (r *MsgStream) Close() (err error) {
	err = r.rw.WriteCallCancel()
	if cb := r.closeCb; cb != nil {
		cb()
	}
	return
}
'''))
R("b3 read to handler", fn(P, "func (r *PacketReadWriter) ReadToHandler(", '''
func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
	buf := make([]byte, 2048)
	for isOpen := true; isOpen; {
		n, err := r.rw.Read(buf)
		switch err {
		case nil:
		case io.EOF, context.Canceled:
			isOpen = false
		default:
			return err
		}
		if _, err := r.buf.Write(buf[:n]); err != nil {
			return err
		}
		for {
			pkt, err := r.nextPacket()
			if err != nil {
				return err
			}
			if pkt == nil {
				break
			}
			if err := cb(pkt); err != nil {
				return err
			}
		}
	}
	if r.buf.Len() == 0 {
		return nil
	}
	return io.ErrUnexpectedEOF
}

// nextPacket takes the next packet from the buffer, nil if it is not complete.
func (r *PacketReadWriter) nextPacket() ([]byte, error) {
	data := r.buf.Bytes()
	if len(data) < 4 {
		return nil, nil
	}
	size := binary.LittleEndian.Uint32(data)
	switch {
	case size == 0:
		return nil, errors.New("unexpected zero len prefix")
	case size > uint32(maxMessageSize):
		return nil, errors.Errorf("message size %v greater than maximum %v", size, maxMessageSize)
	case len(data) < int(size)+4:
		return nil, nil
	}
	_ = r.buf.Next(4)
	return r.buf.Next(int(size)), nil
}
'''))
R("b3 read goto removed", fn(P, "func (r *PacketReadWriter) ReadToHandler(", '''
func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
	var currLen uint32
	buf := make([]byte, 2048)
	isOpen := true

	for isOpen {
		n, err := r.rw.Read(buf)
		if err != nil {
			if err != io.EOF && err != context.Canceled {
				return err
			}
			isOpen = false
		}
		if _, err = r.buf.Write(buf[:n]); err != nil {
			return err
		}

		for r.buf.Len() >= 4 {
			if currLen == 0 {
				if currLen, err = r.parseLen(); err != nil {
					return err
				}
			}
			if r.buf.Len() < int(currLen)+4 {
				break
			}
			pkt := r.buf.Next(int(currLen + 4))[4:]
			currLen = 0
			if err = cb(pkt); err != nil {
				return err
			}
		}
	}

	if r.buf.Len() != 0 {
		return io.ErrUnexpectedEOF
	}
	return nil
}

// parseLen parses and checks the length prefix.
func (r *PacketReadWriter) parseLen() (uint32, error) {
	size := r.readLengthPrefix(r.buf.Bytes()[:4])
	if size == 0 {
		return 0, errors.New("unexpected zero len prefix")
	}
	if size > uint32(maxMessageSize) {
		return 0, errors.Errorf("message size %v greater than maximum %v", size, maxMessageSize)
	}
	return size, nil
}
'''))
R("b3 write packet unlock", fn(P, "func (r *PacketReadWriter) WritePacket(", '''
func (r *PacketReadWriter) WritePacket(p *Packet) error {
	msgSize := p.SizeVT()
	if msgSize > math.MaxUint32 {
		return errors.New("message size exceeds maximum uint32 value")
	}
	data := make([]byte, msgSize+4)
	hdr, body := data[:4], data[4:]
	binary.LittleEndian.PutUint32(hdr, uint32(msgSize)) //nolint:gosec
	if _, err := p.MarshalToSizedBufferVT(body); err != nil {
		return err
	}

	r.writeMtx.Lock()
	err := r.writeLocked(data)
	r.writeMtx.Unlock()
	return err
}

func (r *PacketReadWriter) writeLocked(data []byte) error {
	for len(data) != 0 {
		n, err := r.rw.Write(data)
		if err == nil && n == 0 {
			err = io.ErrShortWrite
		}
		if err != nil {
			return err
		}
		data = data[n:]
	}
	return nil
}
'''))
R("b3 write written err", fn(P, "func (r *PacketReadWriter) WritePacket(", '''
func (r *PacketReadWriter) WritePacket(p *Packet) (err error) {
	r.writeMtx.Lock()
	defer r.writeMtx.Unlock()

	size := p.SizeVT()
	if size > math.MaxUint32 {
		return errors.New("message size exceeds maximum uint32 value")
	}
	data := make([]byte, 4+size)
	binary.LittleEndian.PutUint32(data, uint32(size)) //nolint:gosec
	if _, err = p.MarshalToSizedBufferVT(data[4:]); err != nil {
		return
	}
	for written, n := 0, 0; written < len(data) && err == nil; written += n {
		n, err = r.rw.Write(data[written:])
		if err == nil && n == 0 {
			err = io.ErrShortWrite
		}
	}
	return
}
'''))
R("S30 listen waits for the loop",(N,"	case <-ctx.Done():\n		return context.Canceled\n","	case <-ctx.Done():\n		_ = lis.Close()\n		<-listenErrCh\n		return context.Canceled\n"))
R("S17 search without break",(MX,"			if handler = svc[methodID]; handler != nil {\n				break\n			}","			if h, ok := svc[methodID]; ok && handler == nil {\n				handler = h\n			}"))
R("S17 register twice looked up",(MX,"	m.rmtx.Lock()\n	defer m.rmtx.Unlock()\n\n	serviceMethods := m.services[serviceID]\n","	m.rmtx.RLock()\n	serviceMethods := m.services[serviceID]\n	m.rmtx.RUnlock()\n\n	m.rmtx.Lock()\n	defer m.rmtx.Unlock()\n	if serviceMethods == nil {\n		serviceMethods = m.services[serviceID]\n	}\n"))
