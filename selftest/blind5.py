"""Refactorings of larger parts, and a further round of mutants written from the statements."""
from cases import M, R
P = "srpc/"
COM, SRV, CRPC, CLI, MUX, SET, MSG, PRW = (P + x for x in ("common-rpc.go", "server-rpc.go", "client-rpc.go", "client.go", "mux.go", "client-set.go", "msg-stream.go", "packet-rw.go"))
RS, RRW, RPX = "rpcstream/rpcstream.go", "rpcstream/read-writer.go", "rpcstream/proxy.go"

# ReadOne: the queue is taken from by a helper
R("b5 readone helper", (COM, '''			if len(c.dataQueue) != 0 {
				msg = c.dataQueue[0]
				hasMsg = true
				c.dataQueue[0] = nil
				c.dataQueue = c.dataQueue[1:]
			} else if c.dataClosed || c.remoteErr != nil {
				err = c.remoteErr
				if err == nil {
					err = io.EOF
				}
			}
''', '''			msg, hasMsg, err = c.popLocked()
'''), (COM, '''// WriteCallData writes a call data packet.
''', '''// popLocked takes the next message, or returns how the call ended.
func (c *commonRPC) popLocked() ([]byte, bool, error) {
	if len(c.dataQueue) > 0 {
		head := c.dataQueue[0]
		c.dataQueue[0] = nil
		c.dataQueue = c.dataQueue[1:]
		return head, true, nil
	}
	if c.remoteErr != nil {
		return nil, false, c.remoteErr
	}
	if c.dataClosed {
		return nil, false, io.EOF
	}
	return nil, false, nil
}

// WriteCallData writes a call data packet.
'''))
R("b5 end helper", (COM, '''		// keep the outcome of the call if it was already completed.
		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
			c.remoteErr = closeErr
		}
		c.dataClosed = true
		c.ctxCancel()
		// the writer is nil until the call was started.
		if c.writer != nil {
			_ = c.writer.Close()
		}
		broadcast()
''', '''		c.endLocked(closeErr)
		c.ctxCancel()
		broadcast()
'''), (COM, '''	// keep the outcome of the call if it was already completed.
	if c.remoteErr == nil && !c.dataClosed {
		c.remoteErr = context.Canceled
	}
	c.dataClosed = true
	// the writer is nil until the call was started.
	if c.writer != nil {
		_ = c.writer.Close()
	}
	broadcast()
	c.ctxCancel()
}''', '''	c.endLocked(context.Canceled)
	broadcast()
	c.ctxCancel()
}

// endLocked sets the outcome, unless there is one, and closes the writer.
func (c *commonRPC) endLocked(err error) {
	if !c.dataClosed && c.remoteErr == nil {
		c.remoteErr = err
	}
	c.dataClosed = true
	if w := c.writer; w != nil {
		_ = w.Close()
	}
}'''))
R("b5 server start", (SRV, '''	var err error

	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		// process start: method and service
		if r.method != "" || r.service != "" {
			err = errors.New("call start must be sent only once")
			return
		}
		if r.dataClosed {
			err = ErrCompleted
			return
		}

		service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
		r.service, r.method = service, method

		// process first data packet, if included
		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {
			r.dataQueue = append(r.dataQueue, data)
		}

		// invoke the rpc
		broadcast()
		go r.invokeRPC(service, method)
	})

	return err
}
''', '''	service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
	data := pkt.GetData()
	hasData := pkt.GetDataIsZero() || len(data) > 0

	var err error
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		started := len(r.method) != 0 || len(r.service) != 0
		switch {
		case started:
			err = errors.New("call start must be sent only once")
		case r.dataClosed:
			err = ErrCompleted
		default:
			r.service, r.method = service, method
			if hasData {
				r.dataQueue = append(r.dataQueue, data)
			}
			broadcast()
		}
	})
	if err != nil {
		return err
	}

	go r.invokeRPC(service, method)
	return nil
}
'''))
R("b5 server invoke", (SRV, '''	ok, err := r.invoker.InvokeMethod(serviceID, methodID, strm)
	if err == nil && !ok {
		err = ErrUnimplemented
	}
	outPkt := NewCallDataPacket(nil, false, true, err)
	_ = r.writer.WritePacket(outPkt)
	_ = r.writer.Close()
	r.ctxCancel()
}
''', '''	err := invoke(r.invoker, serviceID, methodID, strm)
	r.complete(err)
}

// complete sends the outcome of the call and releases it.
func (r *ServerRPC) complete(err error) {
	defer r.ctxCancel()
	w := r.writer
	_ = w.WritePacket(NewCallDataPacket(nil, false, true, err))
	_ = w.Close()
}

// invoke invokes the method, which has to exist.
func invoke(invoker Invoker, serviceID, methodID string, strm Stream) error {
	switch ok, err := invoker.InvokeMethod(serviceID, methodID, strm); {
	case err != nil:
		return err
	case !ok:
		return ErrUnimplemented
	}
	return nil
}
'''))
R("b5 client open", (CLI, '''	clientRPC := NewClientRPC(ctx, service, method)
	defer clientRPC.Close()

	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
	if err != nil {
		return err
	}

	if err := clientRPC.Start(writer, true, firstMsg); err != nil {
		return err
	}
''', '''	clientRPC := NewClientRPC(ctx, service, method)
	defer clientRPC.Close()
	if _, err := c.start(ctx, clientRPC, true, firstMsg); err != nil {
		return err
	}
'''), (CLI, '''	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
	if err != nil {
		clientRPC.ctxCancel()
		return nil, err
	}

	if err := clientRPC.Start(writer, firstMsg != nil, firstMsgData); err != nil {
		clientRPC.ctxCancel()
		return nil, err
	}
''', '''	writer, err := c.start(ctx, clientRPC, firstMsg != nil, firstMsgData)
	if err != nil {
		clientRPC.ctxCancel()
		return nil, err
	}
'''), (CLI, '''// _ is a type assertion
var _ Client = ((*client)(nil))
''', '''// start opens the stream of the call and starts it.
func (c *client) start(ctx context.Context, rpc *ClientRPC, hasMsg bool, msg []byte) (PacketWriter, error) {
	writer, err := c.openStream(ctx, rpc.HandlePacketData, rpc.HandleStreamClose)
	if err == nil {
		err = rpc.Start(writer, hasMsg, msg)
	}
	if err != nil {
		return nil, err
	}
	return writer, nil
}

// _ is a type assertion
var _ Client = ((*client)(nil))
'''))
R("b5 mux find", (MUX, '''	var handler Handler
	m.rmtx.RLock()
	if serviceID == "" {
		for _, svc := range m.services {
			if handler = svc[methodID]; handler != nil {
				break
			}
		}
	} else {
		svcMethods := m.services[serviceID]
		if svcMethods != nil {
			handler = svcMethods[methodID]
		}
	}
	m.rmtx.RUnlock()

	if handler != nil {
		return handler.InvokeMethod(serviceID, methodID, strm)
	}

	for _, invoker := range m.fallback {
		if invoker != nil {
			handled, err := invoker.InvokeMethod(serviceID, methodID, strm)
			if err != nil || handled {
				return handled, err
			}
		}
	}

	return false, nil
}
''', '''	if handler := m.find(serviceID, methodID); handler != nil {
		return handler.InvokeMethod(serviceID, methodID, strm)
	}
	return m.invokeFallback(serviceID, methodID, strm)
}

// find looks up the handler of a method.
func (m *mux) find(serviceID, methodID string) Handler {
	m.rmtx.RLock()
	defer m.rmtx.RUnlock()

	if serviceID != "" {
		return m.services[serviceID][methodID]
	}
	for _, svc := range m.services {
		if handler, ok := svc[methodID]; ok && handler != nil {
			return handler
		}
	}
	return nil
}

// invokeFallback calls the fallback invokers until one has handled the call.
func (m *mux) invokeFallback(serviceID, methodID string, strm Stream) (handled bool, err error) {
	for i := 0; i < len(m.fallback) && !handled && err == nil; i++ {
		if m.fallback[i] == nil {
			continue
		}
		handled, err = m.fallback[i].InvokeMethod(serviceID, methodID, strm)
	}
	return handled, err
}
'''))
R("b5 set switch", (SET, '''	var any bool
	for _, client := range c.clients {
		if client == nil {
			continue
		}
		err := doCall(client)
		any = true
		if err == nil {
			return nil
		}
		if err == context.Canceled {
			select {
			case <-ctx.Done():
				return context.Canceled
			default:
				continue
			}
		}
		if err.Error() == ErrUnimplemented.Error() {
			continue
		}
		return err
	}

	if !any {
		return ErrNoAvailableClients
	}

	return ErrUnimplemented
}
''', '''	out := ErrNoAvailableClients
	for _, client := range c.clients {
		if client == nil {
			continue
		}
		out = ErrUnimplemented
		switch err := doCall(client); {
		case err == nil:
			return nil
		case err == context.Canceled:
			if ctx.Err() != nil {
				return err
			}
		case err.Error() != ErrUnimplemented.Error():
			return err
		}
	}
	return out
}
'''))
R("b5 frames", (PRW, '''	for isOpen {
		// read some data into the buffer
''', '''	for {
		if !isOpen {
			break
		}
		// read some data into the buffer
'''), (PRW, '''		// emit the packet if fully buffered
		if currLen != 0 && bufLen >= int(currLen)+4 {
			pkt := r.buf.Next(int(currLen + 4))[4:]
			currLen = 0
			if err := cb(pkt); err != nil {
				return err
			}

			// check if there's still enough in the buffer
			goto EmitIfEnough
		}
	}
''', '''		// wait until it is fully buffered
		frameLen := 4 + int(currLen)
		if frameLen > bufLen {
			continue
		}
		currLen = 0
		frame := r.buf.Next(frameLen)
		if err := cb(frame[4:frameLen]); err != nil {
			return err
		}
		goto EmitIfEnough
	}
'''))
R("b5 write all", (PRW, '''	var written, n int
	for written < len(data) {
		n, err = r.rw.Write(data[written:])
		if err != nil {
			return err
		}
		if n == 0 {
			return io.ErrShortWrite
		}
		written += n
	}

	return nil
}
''', '''	return writeAll(r.rw, data)
}

// writeAll writes all of the data.
func writeAll(w io.Writer, data []byte) error {
	for len(data) > 0 {
		n, err := w.Write(data)
		switch {
		case err != nil:
			return err
		case n == 0:
			return io.ErrShortWrite
		}
		data = data[n:]
	}
	return nil
}
'''))
R("b5 open rpc stream", (RS, '''	// wait for ack
	if waitAck {
		pkt, err := rpcStream.Recv()
		if err == nil {
			switch b := pkt.GetBody().(type) {
			case *RpcStreamPacket_Ack:
				if errStr := b.Ack.GetError(); errStr != "" {
					err = errors.Errorf("remote: %s", errStr)
				}
			default:
				err = errors.New("expected ack packet")
			}
		}
		if err != nil {
			_ = rpcStream.Close()
			return nil, err
		}
	}

	return rpcStream, nil
}
''', '''	// wait for ack
	if waitAck {
		if err := recvAck(rpcStream); err != nil {
			_ = rpcStream.Close()
			return nil, err
		}
	}

	return rpcStream, nil
}

// recvAck receives the ack.
func recvAck(strm RpcStream) error {
	pkt, err := strm.Recv()
	if err != nil {
		return err
	}
	b, ok := pkt.GetBody().(*RpcStreamPacket_Ack)
	if !ok {
		return errors.New("expected ack packet")
	}
	if errStr := b.Ack.GetError(); len(errStr) > 0 {
		return errors.Errorf("remote: %s", errStr)
	}
	return nil
}
'''))
R("b5 handle rpc stream", (RS, '''	// send ack
	var errStr string
	if err != nil {
		errStr = err.Error()
	}
	sendErr := stream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Ack{
			Ack: &RpcAck{Error: errStr},
		},
	})
	if err != nil {
		return err
	}
	if sendErr != nil {
		return sendErr
	}
''', '''	// send ack
	if sendErr := sendAck(stream, err); err == nil {
		err = sendErr
	}
	if err != nil {
		return err
	}
'''), (RS, '''// HandleRpcStream handles an incoming RPC stream (remote is the initiator).
''', '''// sendAck acknowledges the stream, or sends why it is not.
func sendAck(stream RpcStream, err error) error {
	ack := &RpcAck{}
	if err != nil {
		ack.Error = err.Error()
	}
	return stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: ack}})
}

// HandleRpcStream handles an incoming RPC stream (remote is the initiator).
'''))
R("b5 rpc read", (RRW, '''	readBuf := p
	for len(readBuf) != 0 && err == nil {
		var rn int

		// if the buffer has data, read from it.
		if r.buf.Len() != 0 {
			rn, err = r.buf.Read(readBuf)
		} else {
			if n != 0 {
				// if we read data to p already, return now.
				break
			}

			var pkt *RpcStreamPacket
			pkt, err = r.stream.Recv()
			if err != nil {
				break
			}

			if errStr := pkt.GetAck().GetError(); errStr != "" {
				return n, errors.New(errStr)
			}

			data := pkt.GetData()
			if len(data) == 0 {
				continue
			}

			// read as much as possible directly to the output
			rn = copy(readBuf, data)
			if rn < len(data) {
				// we read some of the data, buffer the rest.
				_, _ = r.buf.Write(data[rn:]) // never returns an error
			}
		}

		// advance readBuf by rn
		n += rn
		readBuf = readBuf[rn:]
	}
	return n, err
}
''', '''	if len(p) == 0 {
		return 0, nil
	}
	if r.buf.Len() > 0 {
		return r.buf.Read(p)
	}
	for {
		pkt, err := r.stream.Recv()
		if err != nil {
			return 0, err
		}
		if msg := pkt.GetAck().GetError(); len(msg) != 0 {
			return 0, errors.New(msg)
		}
		data := pkt.GetData()
		if len(data) != 0 {
			n := copy(p, data)
			_, _ = r.buf.Write(data[n:])
			return n, nil
		}
	}
}
'''))
R("b5 proxy copy", (RPX, '''	rerr := func() error {
		pkt := srpc.NewRawMessage(nil, true)
		for {
			err := s1.MsgRecv(pkt)
			if err != nil {
				return err
			}
			if len(pkt.GetData()) == 0 {
				continue
			}
			err = s2.MsgSend(pkt)
			pkt.Clear()
			if err != nil {
				return err
			}
		}
	}()

	s1Err := s1.Close()
''', '''	rerr := copyPackets(s1, s2)

	s1Err := s1.Close()
'''), (RPX, '''// copies s1 to s2
''', '''// copyPackets copies the packets of s1 to s2 until one of them fails.
func copyPackets(s1, s2 RpcStream) (err error) {
	pkt := srpc.NewRawMessage(nil, true)
	for err == nil {
		if err = s1.MsgRecv(pkt); err == nil && len(pkt.GetData()) > 0 {
			err = s2.MsgSend(pkt)
			pkt.Clear()
		}
	}
	return err
}

// copies s1 to s2
'''))
R("b5 client start", (CRPC, '''	var firstMsgEmpty bool
	var err error
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		r.writer = writer

		if writeFirstMsg {
			firstMsgEmpty = len(firstMsg) == 0
		}

		pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)
		err = writer.WritePacket(pkt)
		if err != nil {
			r.ctxCancel()
			_ = writer.Close()
		}

		broadcast()
	})

	return err
}
''', '''	pkt := NewCallStartPacket(r.service, r.method, firstMsg, writeFirstMsg && len(firstMsg) == 0)

	var err error
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		defer broadcast()

		r.writer = writer
		if err = writer.WritePacket(pkt); err == nil {
			return
		}
		r.ctxCancel()
		_ = writer.Close()
	})

	return err
}
'''))
R("b5 client dispatch", (CRPC, '''	switch b := msg.GetBody().(type) {
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			return r.HandleCallCancel()
		}
		return nil
	default:
		return nil
	}
}
''', '''	body := msg.GetBody()
	if b, ok := body.(*Packet_CallData); ok {
		return r.HandleCallData(b.CallData)
	}
	if b, ok := body.(*Packet_CallStart); ok {
		return r.HandleCallStart(b.CallStart)
	}
	if msg.GetCallCancel() {
		return r.HandleCallCancel()
	}
	return nil
}
'''))
R("b5 msg stream", (MSG, '''	if err := r.ctx.Err(); err != nil {
		return context.Canceled
	}

	msgData, err := msg.MarshalVT()
	if err != nil {
		return err
	}

	return r.rw.WriteCallData(msgData, false, nil)
}
''', '''	select {
	case <-r.ctx.Done():
		return context.Canceled
	default:
	}

	msgData, err := msg.MarshalVT()
	if err == nil {
		err = r.rw.WriteCallData(msgData, false, nil)
	}
	return err
}
'''), (MSG, '''	err := r.rw.WriteCallCancel()
	if r.closeCb != nil {
		r.closeCb()
	}

	return err
}
''', '''	if cb := r.closeCb; cb != nil {
		defer cb()
	}
	return r.rw.WriteCallCancel()
}
'''))

# TypeScript
TCOM, TSRV, TMUX, TCLI, TPKT, TRS, TBC, TPU = (P + "common-rpc.ts", P + "server-rpc.ts", P + "mux.ts", P + "client.ts", P + "packet.ts", "rpcstream/rpcstream.ts", P + "broadcast-channel.ts", P + "pushable.ts")
R("b5 ts common", (TCOM, '''      switch (packet?.body?.case) {
        case 'callStart':
          await this.handleCallStart(packet.body.value)
          break
        case 'callData':
          await this.handleCallData(packet.body.value)
          break
        case 'callCancel':
          if (packet.body.value) {
            await this.handleCallCancel()
          }
          break
      }
    } catch (err) {
      let asError = err as Error
      if (!asError?.message) {
        asError = new Error('error handling packet')
      }
      this.close(asError)
      // throw asError
    }
  }
''', '''      await this.dispatch(packet?.body)
    } catch (err) {
      const { message } = (err ?? {}) as Partial<Error>
      this.close(message ? (err as Error) : new Error('error handling packet'))
    }
  }

  // dispatch handles the body of a packet.
  private dispatch(body: Packet['body']): Promise<void> | undefined {
    if (body?.case === 'callStart') return this.handleCallStart(body.value)
    if (body?.case === 'callData') return this.handleCallData(body.value)
    if (body?.case === 'callCancel' && body.value) return this.handleCallCancel()
    return undefined
  }
'''), (TCOM, '''    if (dataIsZero) {
      if (!data || data.length !== 0) {
        data = new Uint8Array(0)
      }
    } else if (!data || data.length === 0) {
      return
    }
    this._rpcDataSource.push(data)
''', '''    const hasData = !!data?.length
    if (!dataIsZero && !hasData) {
      return
    }
    this._rpcDataSource.push(dataIsZero || !data ? new Uint8Array() : data)
'''), (TCOM, '''      try {
        if (Symbol.asyncIterator in source) {
          // Handle async source
          for await (const msg of source) {
            await this.handlePacket(msg)
          }
        } else {
          // Handle sync source
          for (const msg of source) {
            await this.handlePacket(msg)
          }
        }
        // no more''', '''      try {
        for await (const msg of source) {
          await this.handlePacket(msg)
        }
        // no more'''))
R("b5 ts close", (TCOM, '''    this.closed = err ?? true
    // note: this does nothing if _source is already ended.
    if (err && err.message) {
      await this.writeCallData(undefined, true, err.message)
    } else {
      await this.writeCallCancel()
    }
    this._source.end()
    this._rpcDataSource.end(err)
''', '''    this.closed = err ?? true
    // note: this does nothing if _source is already ended.
    const reason = err?.message
    await (reason
      ? this.writeCallData(undefined, true, reason)
      : this.writeCallCancel())
    for (const [source, end] of [
      [this._source, undefined],
      [this._rpcDataSource, err],
    ] as const) {
      source.end(end)
    }
'''))
R("b5 ts server", (TSRV, '''    this.service = packet.rpcService
    this.method = packet.rpcMethod
    if (!this.service || !this.method) {
      throw new Error('rpcService and rpcMethod cannot be empty')
    }
    if (!this.lookupMethod) {
      throw new Error('LookupMethod is not defined')
    }
    const methodDef = await this.lookupMethod(this.service, this.method)
    if (!methodDef) {
      throw new Error(`not found: ${this.service}/${this.method}`)
    }
    this.pushRpcData(packet.data, packet.dataIsZero)
    this.invokeRPC(methodDef)
  }
''', '''    const { rpcService, rpcMethod, data, dataIsZero } = packet
    this.service = rpcService
    this.method = rpcMethod
    const invokeFn = await this.resolve(rpcService, rpcMethod)
    this.pushRpcData(data, dataIsZero)
    this.invokeRPC(invokeFn)
  }

  // resolve looks up the method which is to be invoked.
  private async resolve(service?: string, method?: string): Promise<InvokeFn> {
    if (!service || !method) {
      throw new Error('rpcService and rpcMethod cannot be empty')
    }
    const found = await this.lookupMethod?.(service, method)
    if (found) {
      return found
    }
    throw new Error(`not found: ${service}/${method}`)
  }
'''), (TSRV, '''    const dataSink = this._createDataSink()
    try {
      await invokeFn(this.rpcDataSource, dataSink)
    } catch (err) {
      this.close(err as Error)
    }
''', '''    const dataSink = this._createDataSink()
    return Promise.resolve()
      .then(() => invokeFn(this.rpcDataSource, dataSink))
      .catch((err) => {
        this.close(err as Error)
      })
'''))
R("b5 ts mux", (TMUX, '''    if (serviceID) {
      const invokeFn = await this.lookupViaMap(serviceID, methodID)
      if (invokeFn) {
        return invokeFn
      }
    }

    return await this.lookupViaLookups(serviceID, methodID)
''', '''    const viaMap = serviceID ? await this.lookupViaMap(serviceID, methodID) : null
    return viaMap || this.lookupViaLookups(serviceID, methodID)
'''), (TMUX, '''    const serviceMethods = this.services[serviceID]
    if (!serviceMethods) {
      return null
    }
    const handler = serviceMethods[methodID]
    if (!handler) {
      return null
    }
    return await handler.lookupMethod(serviceID, methodID)
''', '''    const handler = this.services[serviceID]?.[methodID]
    return handler ? handler.lookupMethod(serviceID, methodID) : null
'''), (TMUX, '''    for (const lookupMethod of this.lookups) {
      const invokeFn = await lookupMethod(serviceID, methodID)
      if (invokeFn) {
        return invokeFn
      }
    }
''', '''    let found: InvokeFn | null = null
    for (let i = 0; i < this.lookups.length && !found; i++) {
      found = await this.lookups[i](serviceID, methodID)
    }
    if (found) {
      return found
    }
'''))
R("b5 ts client", (TCLI, '''        const handleErr = (err: Error) => {
          serverData.end(err)
          call.close(err)
        }
        call.writeCallDataFromSource(data).catch(handleErr)
        try {
          for await (const message of call.rpcDataSource) {
            serverData.push(message)
          }
          serverData.end()
          call.close()
        } catch (err) {
          handleErr(err as Error)
        }
      })
''', '''        const finish = (err?: Error) => {
          serverData.end(err)
          call.close(err)
        }
        call.writeCallDataFromSource(data).catch(finish)
        return this.forward(call, serverData).then(() => finish(), finish)
      })
'''), (TCLI, '''  // readResponse reads the single response to the call and closes the call.
''', '''  // forward pushes each response of the call.
  private async forward(call: ClientRPC, out: Pushable<Uint8Array>) {
    const it = call.rpcDataSource[Symbol.asyncIterator]()
    for (let r = await it.next(); !r.done; r = await it.next()) {
      out.push(r.value)
    }
  }

  // readResponse reads the single response to the call and closes the call.
'''), (TCLI, '''    try {
      for await (const data of call.rpcDataSource) {
        call.close()
        return data
      }
      throw new Error('empty response')
    } catch (err) {
      call.close(err as Error)
      throw err
    }
  }
''', '''    let response: Uint8Array | undefined
    try {
      for await (const data of call.rpcDataSource) {
        response = data
        break
      }
      if (response === undefined) {
        throw new Error('empty response')
      }
    } catch (err) {
      call.close(err as Error)
      throw err
    }
    call.close()
    return response
  }
'''))
R("b5 ts decode", (TPKT, '''  const buffer = new Uint8ArrayList()

  for await (const chunk of source) {
    buffer.append(chunk)

    // Continue extracting messages while buffer contains enough data for decoding.
    while (buffer.length >= lengthDecoder.bytes) {
      const messageLength = lengthDecoder(buffer)
      const totalLength = lengthDecoder.bytes + messageLength

      if (buffer.length < totalLength) break // Wait for more data if the full message hasn't arrived.

      // Extract the message excluding the length prefix.
      const message = buffer.sublist(lengthDecoder.bytes, totalLength)
      yield message

      // Remove the processed message from the buffer.
      buffer.consume(totalLength)
    }
  }
''', '''  const buffer = new Uint8ArrayList()
  const header = lengthDecoder.bytes

  // total returns the length of the message at the start of the buffer, if it is complete.
  const total = (): number | undefined => {
    if (buffer.length < header) return undefined
    const n = header + lengthDecoder(buffer)
    return n <= buffer.length ? n : undefined
  }

  for await (const chunk of source) {
    buffer.append(chunk)
    for (let n = total(); n !== undefined; n = total()) {
      const message = buffer.sublist(header, n)
      buffer.consume(n)
      yield message
    }
  }
'''))
R("b5 ts rpc stream", (TRS, '''  let handler: RpcStreamHandler | null = null
  let err: Error | undefined
  try {
    handler = await getter(initRpcStreamPacket.body.value.componentId ?? '')
  } catch (errAny) {
    err = errAny as Error
    if (!err) {
      err = new Error(`rpc getter failed`)
    } else if (!err.message) {
      err = new Error(`rpc getter failed: ${err}`)
    }
  }

  if (!handler && !err) {
    err = new Error('not implemented')
  }
''', '''  const [handler, err] = await lookupHandler(
    getter,
    initRpcStreamPacket.body.value.componentId ?? '',
  )
'''), (TRS, '''// handleRpcStream handles an incoming RPC stream (remote is the initiator).
''', '''// lookupHandler returns the handler for the component, or why there is none.
async function lookupHandler(
  getter: RpcStreamGetter,
  componentId: string,
): Promise<[RpcStreamHandler | null, Error | undefined]> {
  try {
    const handler = await getter(componentId)
    return [handler, handler ? undefined : new Error('not implemented')]
  } catch (errAny) {
    const err = errAny as Error | undefined
    if (err?.message) {
      return [null, err]
    }
    return [null, new Error(err ? `rpc getter failed: ${err}` : `rpc getter failed`)]
  }
}

// handleRpcStream handles an incoming RPC stream (remote is the initiator).
'''))
R("b5 ts sinks", (TBC, '''      try {
        for await (const msg of source) {
          this.write.postMessage(msg)
        }
      } catch (err: unknown) {
        this.close()
        throw err
      }

      this.close()
    }
''', '''      try {
        for await (const msg of source) {
          this.write.postMessage(msg)
        }
      } finally {
        this.close()
      }
    }
'''), (TPU, '''    try {
      if (Symbol.asyncIterator in source) {
        for await (const pkt of source) {
          target.push(pkt)
        }
      } else {
        for (const pkt of source) {
          target.push(pkt)
        }
      }
      target.end()
    } catch (err) {
      target.end(err as Error)
    }
''', '''    let failure: Error | undefined
    try {
      for await (const pkt of source) {
        target.push(pkt)
      }
    } catch (err) {
      failure = err as Error
    }
    target.end(failure)
'''))

G = "cmd/protoc-gen-go-starpc/main.go"
M("S39", "b5 client offers nothing", (G, "		s.P(s.generateClientSignature(method))\n	}\n	s.P(\"}\")\n", "	}\n	s.P(\"}\")\n"))
M("S39", "b5 stream without recv", (G, '''	if genRecv {
		s.P("Recv() (*", outType, ", error)")
''', '''	if genRecv && !genSend {
		s.P("Recv() (*", outType, ", error)")
'''))
M("S39", "b5 server stream", (G, "	s.P(\"type \", s.ServerStreamIface(method), \" interface {\")\n	s.P(s.Ident(SRPCPackage, \"Stream\"))\n", "	s.P(\"type \", s.ServerStreamIface(method), \" interface {\")\n"))
M("S39", "b5 underscores", (G, '''	return "SRPC" +
		strings.ReplaceAll(method.Parent.GoName, "_", "__") + "_" +
		strings.ReplaceAll(method.GoName, "_", "__") +
		"Stream"''', '''	return "SRPC" +
		strings.ReplaceAll(method.Parent.GoName, "_", "") + "_" +
		strings.ReplaceAll(method.GoName, "_", "") +
		"Stream"'''))
R("b5 generator loop", (G, '''	for _, method := range service.Methods {
		s.P(s.generateMethodComment(method))
		s.P(s.generateClientSignature(method))
	}
''', '''	for i := range service.Methods {
		m := service.Methods[i]
		comment, sig := s.generateMethodComment(m), s.generateClientSignature(m)
		s.P(comment)
		s.P(sig)
	}
'''))
M("S04", "b5 stream close", (SRV, "	strm := NewMsgStream(r.ctx, r, r.ctxCancel)\n", "	strm := NewMsgStream(r.ctx, r, nil)\n"))
M("S04", "b5 stream close writer", (SRV, "	strm := NewMsgStream(r.ctx, r, r.ctxCancel)\n", "	strm := NewMsgStream(r.ctx, r, func() { _ = r.ctx.Err() })\n"))
R("b5 stream close func", (SRV, "	strm := NewMsgStream(r.ctx, r, r.ctxCancel)\n", "	strm := NewMsgStream(r.ctx, r, func() { r.ctxCancel() })\n"))
R("b5 stream close method", (SRV, "	strm := NewMsgStream(r.ctx, r, r.ctxCancel)\n", "	strm := NewMsgStream(r.ctx, r, r.release)\n"), (SRV, "// invokeRPC invokes the RPC", "// release ends the context of the call.\nfunc (r *ServerRPC) release() {\n	cancel := r.ctxCancel\n	cancel()\n}\n\n// invokeRPC invokes the RPC"))
R("b5 stream local", (SRV, "	strm := NewMsgStream(r.ctx, r, r.ctxCancel)\n", "	ctx, cancel := r.ctx, r.ctxCancel\n	strm := NewMsgStream(ctx, r, cancel)\n"))
