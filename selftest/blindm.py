"""Mutants written from the text of the properties."""
from cases import M
from blind1 import fn
A="srpc/accept.go"; MC="srpc/muxed-conn.go"; N="srpc/net.go"; SV="srpc/server.go"; H="srpc/server-http.go"; SP="srpc/server-pipe.go"
SR="srpc/stream-rwc.go"; PI="srpc/stream-pipe.go"; RW="srpc/rwc-conn.go"; MX="srpc/mux.go"; CS="srpc/client-set.go"; I="srpc/invoker.go"
CP="srpc/client-prefix.go"; ST="srpc/strip-prefix.go"; ME="srpc/message.go"; PK="srpc/packet.go"; V="srpc/mux-verbose.go"; VC="srpc/client-verbose.go"
C="srpc/common-rpc.go"; CL="srpc/client-rpc.go"; SVR="srpc/server-rpc.go"; K="srpc/client.go"; MS="srpc/msg-stream.go"; P="srpc/packet-rw.go"
X="rpcstream/proxy.go"; RA="rpcstream/raw-stream.go"; RR="rpcstream/read-writer.go"; RS="rpcstream/rpcstream.go"; W="rpcstream/writer.go"
E="echo/echo_srpc.pb.go"

# S01
M("S01","bm large unlocked",(P,"	r.writeMtx.Lock()\n	defer r.writeMtx.Unlock()\n\n	msgSize := p.SizeVT()","	msgSize := p.SizeVT()\n	if msgSize < 1<<20 {\n		r.writeMtx.Lock()\n		defer r.writeMtx.Unlock()\n	}\n"))
M("S01","bm pooled frame",(P,"	data := make([]byte, 4+msgSize)","	data := framePool.Get().([]byte)\n	if cap(data) < 4+msgSize {\n		data = make([]byte, 4+msgSize)\n	}\n	defer framePool.Put(data)\n	data = data[:cap(data)]"),(P,"// maxMessageSize","var framePool = sync.Pool{New: func() any { return []byte(nil) }}\n\n// maxMessageSize"))
M("S01","bm eof is success",(P,"		n, err = r.rw.Write(data[written:])\n		if err != nil {","		n, err = r.rw.Write(data[written:])\n		if err == io.EOF {\n			return nil\n		}\n		if err != nil {"))
M("S01","bm two writes",(P,"	var written, n int\n","	var written, n int\n	if msgSize > 65536 {\n		if written, err = r.rw.Write(data[:4]); err != nil {\n			return err\n		}\n		written = 4\n	}\n"))
M("S01","bm cap chunk lost",(P,"		n, err = r.rw.Write(data[written:])","		n, err = r.rw.Write(data[written:min(written+65535, len(data)-1)])"))
M("S01","bm size cached",(P,"	data := make([]byte, 4+msgSize)","	if msgSize == 0 {\n		return nil\n	}\n	data := make([]byte, 4+msgSize)"))
# S02
M("S02","bm drop big",(P,"			currLen = 0\n			if err := cb(pkt); err != nil {","			currLen = 0\n			if len(pkt) > 4<<20 {\n				goto EmitIfEnough\n			}\n			if err := cb(pkt); err != nil {"))
M("S02","bm canceled handler",(P,"			if err := cb(pkt); err != nil {\n				return err\n			}\n\n			// check if","			if err := cb(pkt); err != nil && err != context.Canceled {\n				return err\n			}\n\n			// check if"))
M("S02","bm bufLen stale",(P,"	EmitIfEnough:\n\n		// check if we have enough data for a length prefix\n		bufLen := r.buf.Len()","		bufLen := r.buf.Len()\n	EmitIfEnough:\n"))
M("S02","bm closed only on error",(P,"	if closed != nil {\n		closed(err)","	if closed != nil && err != nil {\n		closed(err)"))
M("S02","bm truncated canceled ok",(P,"	if r.buf.Len() != 0 {","	if r.buf.Len() > 4 {"))
M("S02","bm max on total",(P,"			if currLen > uint32(maxMessageSize) {","			if currLen > uint32(maxMessageSize) && bufLen < int(currLen) {"))
M("S02","bm shared buf goroutine",(P,"		_, err = r.buf.Write(buf[:n])\n		if err != nil {\n			return err\n		}\n","		if n > 0 && n < len(buf) || !isOpen {\n			_, err = r.buf.Write(buf[:n])\n		} else if n == len(buf) {\n			_, err = r.buf.Write(buf)\n		}\n		if err != nil {\n			return err\n		}\n		if n == len(buf) && r.buf.Len() < 4096 {\n			continue\n		}\n"))
# S03
M("S03","bm start after method only",(SVR,'if r.method != "" || r.service != "" {','if r.method == pkt.GetRpcMethod() && r.service == pkt.GetRpcService() {'))
M("S03","bm queue front",(SVR,"			r.dataQueue = append(r.dataQueue, data)","			r.dataQueue = append([][]byte{data}, r.dataQueue[:0]...)"))
M("S03","bm restart when drained",(SVR,'if r.method != "" || r.service != "" {','if (r.method != "" || r.service != "") && len(r.dataQueue) != 0 {'))
M("S03","bm zero flag needs nil",(SVR,"len(data) != 0 || pkt.GetDataIsZero()","len(data) != 0 || data != nil && pkt.GetDataIsZero()"))
M("S03","bm invoke swapped",(SVR,"go r.invokeRPC(service, method)","go r.invokeRPC(pkt.RpcService, r.service)"))
# S04
M("S04","bm eof is ok",(SVR,"	outPkt := NewCallDataPacket(nil, false, true, err)","	if err == context.Canceled && r.ctx.Err() != nil {\n		err = nil\n	}\n	outPkt := NewCallDataPacket(nil, false, true, err)"))
M("S04","bm skip if ctx done",(SVR,"	_ = r.writer.WritePacket(outPkt)","	if r.ctx.Err() == nil {\n		_ = r.writer.WritePacket(outPkt)\n	}"))
M("S04","bm skip close on write err",(SVR,"	_ = r.writer.WritePacket(outPkt)\n	_ = r.writer.Close()","	if err := r.writer.WritePacket(outPkt); err == nil {\n		_ = r.writer.Close()\n	}"))
M("S04","bm unimpl only without msg",(SVR,"	if err == nil && !ok {","	if err == nil && !ok && len(r.dataQueue) != 0 {"))
M("S04","bm panic recovered silent",(SVR,"	strm := NewMsgStream(r.ctx, r, r.ctxCancel)\n","	defer func() {\n		if e := recover(); e != nil {\n			r.ctxCancel()\n		}\n	}()\n	defer r.ctxCancel()\n	strm := NewMsgStream(r.ctx, r, r.ctxCancel)\n	r.ctxCancel()\n"))
M("S04","bm retry",(SVR,"	_ = r.writer.WritePacket(outPkt)","	if r.writer.WritePacket(outPkt) != nil {\n		_ = r.writer.WritePacket(outPkt)\n	}"))
# S05
M("S05","bm len peek",(C,"	var hasMsg bool\n	var msg []byte","	if len(c.dataQueue) == 0 && c.dataClosed && c.remoteErr == nil {\n		return nil, io.EOF\n	}\n	var hasMsg bool\n	var msg []byte"))
M("S05","bm relock",(C,"	c.dataClosed = true\n	// the writer is nil until the call was started.\n	if c.writer != nil {\n		_ = c.writer.Close()\n	}\n	broadcast()\n	c.ctxCancel()","	c.HandleStreamClose(context.Canceled)"))
M("S05","bm append outside",(C,"		broadcast()\n	})\n\n	return err\n}\n\n// WriteCallCancel","		broadcast()\n	})\n	if err == nil && pkt.GetComplete() {\n		c.dataClosed = true\n	}\n\n	return err\n}\n\n// WriteCallCancel"))
# S06
M("S06","bm getwaitch first",(C,"		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {\n			if ctxDone","		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {\n			waitCh = getWaitCh()\n		})\n		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {\n			if ctxDone"),(C,"			waitCh = getWaitCh()\n		})\n\n		if hasMsg","		})\n\n		if hasMsg"))
M("S06","bm notify only first",(C,"		if complete {\n			c.dataClosed = true\n		}\n\n		broadcast()","		if complete {\n			c.dataClosed = true\n		}\n\n		if complete || len(c.dataQueue) == 1 {\n			broadcast()\n		}"))
M("S06","bm no broadcast close writer nil",(C,"		if c.writer != nil {\n			_ = c.writer.Close()\n		}\n		broadcast()\n	})","		if c.writer != nil {\n			_ = c.writer.Close()\n			broadcast()\n		}\n	})"))
# S07
M("S07","bm lifo over 2",(C,"				msg = c.dataQueue[0]\n				hasMsg = true\n				c.dataQueue[0] = nil\n				c.dataQueue = c.dataQueue[1:]","				n := len(c.dataQueue) - 1\n				msg = c.dataQueue[n]\n				hasMsg = true\n				c.dataQueue[n] = nil\n				c.dataQueue = c.dataQueue[:n]"))
M("S07","bm err first",(C,"			if len(c.dataQueue) != 0 {","			if len(c.dataQueue) != 0 && (c.remoteErr == nil || !c.dataClosed) {"))
M("S07","bm ctxdone drops",(C,"			if ctxDone && !c.dataClosed {","			if ctxDone && len(c.dataQueue) != 0 {\n				c.dataQueue = nil\n			}\n			if ctxDone && !c.dataClosed {"))
M("S07","bm eof swallowed",(C,"				err = c.remoteErr\n				if err == nil {\n					err = io.EOF\n				}","				err = io.EOF"))
# S08
M("S08","bm complete needs no data",(C,"		if complete {\n			c.dataClosed = true","		if complete && len(c.dataQueue) == 0 {\n			c.dataClosed = true"))
M("S08","bm err with data",(C,"		if err := pkt.GetError(); len(err) != 0 {","		if err := pkt.GetError(); len(err) != 0 && len(pkt.GetData()) == 0 {"))
M("S08","bm cap queue",(C,"			c.dataQueue = append(c.dataQueue, data)\n		}\n\n		complete","			if len(c.dataQueue) < 1<<16 {\n				c.dataQueue = append(c.dataQueue, data)\n			}\n		}\n\n		complete"))
M("S08","bm dup err text",(C,"			c.remoteErr = errors.New(err)","			c.remoteErr = errors.New(strings.TrimSpace(err))"),(C,'	"io"\n','	"io"\n	"strings"\n'))
# S09
M("S09","bm dataIsZero complete",(C,"len(data) == 0 && !complete && err == nil","data != nil && len(data) == 0 && !complete && err == nil"))
M("S09","bm start ignore err",(CL,"		err = pkt0","		err = pkt0") if 0 else (CL,"		if err != nil {\n			r.ctxCancel()\n			_ = writer.Close()\n		}","		if err != nil {\n			r.ctxCancel()\n			_ = writer.Close()\n			if r.remoteErr != nil {\n				err = nil\n			}\n		}"))
M("S09","bm first msg dropped",(CL,"		pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)","		if !writeFirstMsg || len(firstMsg) > 1<<20 {\n			firstMsg = nil\n		}\n		pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)"))
M("S09","bm error text empty",(PK,"		errStr = err.Error()","		errStr = errors.Cause(err).Error()"),(PK,"package srpc\n",'package srpc\n\nimport "github.com/pkg/errors"\n'))
M("S09","bm start canceled keeps writer",(CL,"		r.ctxCancel()\n		_ = writer.Close()\n		return context.Canceled","		r.ctxCancel()\n		if err == context.DeadlineExceeded {\n			return err\n		}\n		_ = writer.Close()\n		return context.Canceled"))
# S10
M("S10","bm cancel if queue",(CL,"			_ = r.WriteCallCancel()","			if !r.dataClosed {\n				_ = r.WriteCallCancel()\n			}"))
M("S10","bm close keeps ctx",(CL,"			_ = r.WriteCallCancel()\n			r.closeLocked(broadcast)","			if r.WriteCallCancel() == nil {\n				r.closeLocked(broadcast)\n			}"))
M("S10","bm server close nil err",(C,"		c.dataClosed = true\n		c.ctxCancel()\n		// the","		c.dataClosed = true\n		if closeErr != nil || len(c.dataQueue) == 0 {\n			c.ctxCancel()\n		}\n		// the"))
M("S10","bm cancel sets eof",(C,"	c.HandleStreamClose(context.Canceled)","	c.HandleStreamClose(nil)"))
# S11
M("S11","bm overwrite eof",(CL,"		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {","		if closeErr != nil && (r.remoteErr == nil && !r.dataClosed || r.remoteErr == context.Canceled) {"))
M("S11","bm start resets",(CL,"		r.writer = writer\n","		r.writer = writer\n		r.remoteErr = nil\n"))
# S12
M("S12","bm eof reply is empty",(K,"	msg, err := clientRPC.ReadOne()\n	if err != nil {","	msg, err := clientRPC.ReadOne()\n	if err != nil && err != io.EOF {"),(K,'	"context"\n','	"context"\n	"io"\n'))
M("S12","bm empty request not first",(K,"clientRPC.Start(writer, true, firstMsg)","clientRPC.Start(writer, len(firstMsg) != 0, firstMsg)"))
M("S12","bm background ctx",(K,"	clientRPC := NewClientRPC(ctx, service, method)\n	defer clientRPC.Close()","	clientRPC := NewClientRPC(context.WithoutCancel(ctx), service, method)\n	defer clientRPC.Close()"))
M("S12","bm empty reply skip decode",(K,"	if err := out.UnmarshalVT(msg); err != nil {","	if len(msg) == 0 {\n		return nil\n	}\n	if err := out.UnmarshalVT(msg); err != nil {"))
# S13
M("S13","bm leak on open err",(K,"	if err != nil {\n		clientRPC.ctxCancel()\n		return nil, err\n	}\n\n	if err := clientRPC.Start(writer, firstMsg","	if err != nil {\n		if ctx.Err() != nil {\n			clientRPC.ctxCancel()\n		}\n		return nil, err\n	}\n\n	if err := clientRPC.Start(writer, firstMsg"))
M("S13","bm ctx of caller",(K,"NewMsgStream(clientRPC.Context(), clientRPC","NewMsgStream(ctx, clientRPC"))
M("S13","bm first by len",(K,"clientRPC.Start(writer, firstMsg != nil, firstMsgData)","clientRPC.Start(writer, firstMsgData != nil, firstMsgData)"))
# S14
M("S14","bm cancel unset",(SVR,"		if b.CallCancel {\n			return r.HandleCallCancel()\n		}\n		return nil","		return r.HandleCallCancel()"))
M("S14","bm validate service skipped",(PK,"	if len(service) == 0 {\n		return ErrEmptyServiceID\n	}",'	if len(service) == 0 && method[0] != \'/\' {\n		return ErrEmptyServiceID\n	}'))
M("S14","bm partial decode",(CL,"	pkt := &Packet{}\n	if err := pkt.UnmarshalVT(data); err != nil {\n		return err\n	}","	pkt := &Packet{}\n	if err := pkt.UnmarshalVT(data); err != nil && pkt.Body == nil {\n		return err\n	}"))

# S15
M("S15","bm found from err",(I,"			return true, err\n","			return found && err == nil, nil\n"))
M("S15","bm skip after err unimpl",(I,"		if found || err != nil {","		if found || (err != nil && err != ErrUnimplemented) {"))
M("S15","bm last only",(I,"	for _, invoker := range s {","	for _, invoker := range s[:max(len(s)-1, 0)] {"))
M("S15","bm nil stops",(I,"		if invoker == nil {\n			continue\n		}","		if invoker == nil {\n			break\n		}"))
M("S15","bm mux fallback retry empty service",(MX,"			if err != nil || handled {\n				return handled, err\n			}","			if !handled && err == nil && serviceID != \"\" {\n				handled, err = invoker.InvokeMethod(\"\", methodID, strm)\n			}\n			if err != nil || handled {\n				return handled, err\n			}"))
M("S15","bm mux fallback unimplemented",(MX,"			if err != nil || handled {\n				return handled, err\n			}","			if err == ErrUnimplemented {\n				continue\n			}\n			if err != nil || handled {\n				return handled, err\n			}"))
M("S15","bm nil func panics",(I,"	if f == nil {\n		return false, nil\n	}\n",""))
# S16
M("S16","bm continue after deadline",(CS,"		if err == context.Canceled {\n			select {\n			case <-ctx.Done():\n				return context.Canceled\n			default:\n				continue\n			}\n		}","		if err == context.Canceled || err == context.DeadlineExceeded {\n			if ctx.Err() == nil {\n				continue\n			}\n			return err\n		}"))
M("S16","bm last err",(CS,"	return ErrUnimplemented\n}","	return nil\n}"))
M("S16","bm stream kept",(CS,"		strm, err = client.NewStream(ctx, service, method, firstMsg)\n		return err","		var s Stream\n		s, err = client.NewStream(ctx, service, method, firstMsg)\n		if strm == nil {\n			strm = s\n		}\n		return err"))
M("S16","bm any only on failure",(CS,"		err := doCall(client)\n		any = true\n		if err == nil {\n			return nil\n		}","		err := doCall(client)\n		if err == nil {\n			return nil\n		}\n		any = any || err != context.Canceled"))
M("S16","bm unimplemented prefix",(CS,"		if err.Error() == ErrUnimplemented.Error() {","		if strings.HasPrefix(err.Error(), ErrUnimplemented.Error()) {"),(CS,"import (\n	\"context\"","import (\n	\"context\"\n	\"strings\""))
M("S16","bm background ctx retry",(CS,"	for _, client := range c.clients {\n		if client == nil {\n			continue\n		}\n		err := doCall(client)","	for _, client := range c.clients {\n		if client == nil {\n			continue\n		}\n		if any && ctx.Err() != nil {\n			break\n		}\n		err := doCall(client)"))
# S17
M("S17","bm replace service",(MX,"	if serviceMethods == nil {\n","	if serviceMethods == nil || len(methodIDs) > len(serviceMethods) {\n"))
M("S17","bm keep first",(MX,"		if methodID != \"\" {\n","		if methodID != \"\" && serviceMethods[methodID] == nil {\n"))
M("S17","bm fall on unimplemented",(MX,"	if handler != nil {\n		return handler.InvokeMethod(serviceID, methodID, strm)\n	}","	if handler != nil {\n		handled, err := handler.InvokeMethod(serviceID, methodID, strm)\n		if handled || err != nil || len(m.fallback) == 0 {\n			return handled, err\n		}\n	}"))
M("S17","bm any service if missing",(MX,"		svcMethods := m.services[serviceID]\n		if svcMethods != nil {\n			handler = svcMethods[methodID]\n		}","		svcMethods := m.services[serviceID]\n		if svcMethods != nil {\n			handler = svcMethods[methodID]\n		} else if len(m.services) == 1 {\n			for _, svc := range m.services {\n				handler = svc[methodID]\n			}\n		}"))
M("S17","bm first service only",(MX,"			if handler = svc[methodID]; handler != nil {\n				break\n			}","			handler = svc[methodID]\n			break"))
M("S17","bm stale handler",(MX,"			if handler = svc[methodID]; handler != nil {\n				break\n			}","			handler = svc[methodID]"))
M("S17","bm service id resolved",(MX,"		return handler.InvokeMethod(serviceID, methodID, strm)","		return handler.InvokeMethod(handler.GetServiceID(), methodID, strm)"))
M("S17","bm has method other service",(MX,"	handlers := m.services[serviceID]\n	for _, mh := range handlers {","	handlers := m.services[serviceID]\n	if len(handlers) == 0 {\n		handlers = m.services[\"\"]\n	}\n	for mid, mh := range handlers {\n		if len(mid) != len(methodID) && len(handlers) > 1 {\n			return false\n		}"))
M("S17","bm create before refuse",(MX,"	if serviceID == \"\" {\n		return ErrEmptyServiceID\n	}\n\n	m.rmtx.Lock()\n	defer m.rmtx.Unlock()\n","	m.rmtx.Lock()\n	defer m.rmtx.Unlock()\n	if serviceID == \"\" && len(methodIDs) == 0 {\n		return ErrEmptyServiceID\n	}\n"))
# S18
M("S17","bm rlock register",(MX,"	m.rmtx.Lock()\n	defer m.rmtx.Unlock()\n\n	serviceMethods := m.services[serviceID]\n	if serviceMethods == nil {\n		serviceMethods = make(muxMethods)\n		m.services[serviceID] = serviceMethods\n	}","	m.rmtx.RLock()\n	serviceMethods := m.services[serviceID]\n	m.rmtx.RUnlock()\n	m.rmtx.Lock()\n	defer m.rmtx.Unlock()\n	if serviceMethods == nil {\n		serviceMethods = make(muxMethods)\n		m.services[serviceID] = serviceMethods\n	}"))
M("S18","bm fast path",(MX,"	var handler Handler\n	m.rmtx.RLock()","	var handler Handler\n	if len(m.services) == 0 && len(m.fallback) == 0 {\n		return false, nil\n	}\n	m.rmtx.RLock()"))
M("S18","bm svc after unlock",(MX,"		svcMethods := m.services[serviceID]\n		if svcMethods != nil {\n			handler = svcMethods[methodID]\n		}\n	}\n	m.rmtx.RUnlock()\n","		found = m.services[serviceID]\n	}\n	m.rmtx.RUnlock()\n	if found != nil {\n		handler = found[methodID]\n	}\n"),(MX,"	var handler Handler\n	m.rmtx.RLock()","	var handler Handler\n	var found muxMethods\n	m.rmtx.RLock()"))
M("S18","bm invoke under defer",(MX,"	m.rmtx.RLock()\n	if serviceID == \"\" {","	m.rmtx.RLock()\n	defer m.rmtx.RUnlock()\n	if serviceID == \"\" {"),(MX,"	m.rmtx.RUnlock()\n\n	if handler","	if handler"))
M("S18","bm has unlocked",(MX,"	m.rmtx.Lock()\n	defer m.rmtx.Unlock()\n\n	return len(m.services[serviceID]) != 0","	m.rmtx.Lock()\n	svc := m.services[serviceID]\n	m.rmtx.Unlock()\n	return len(svc) != 0"))
# S19
M("S19","bm longest",(ST,"		matched = strings.HasPrefix(id, prefix)\n		if matched {\n			matchedPrefix = prefix\n			break\n		}\n	}\n	if !matched {\n		return id, \"\"\n	}","		if strings.HasPrefix(id, prefix) && len(prefix) >= len(matchedPrefix) {\n			matchedPrefix, matched = prefix, true\n		}\n	}\n	if !matched {\n		return id, \"\"\n	}"))
M("S19","bm trim all",(ST,"	return id[len(matchedPrefix):], matchedPrefix","	return strings.TrimLeft(id[len(matchedPrefix):], matchedPrefix), matchedPrefix"))
M("S19","bm fold",(ST,"		matched = strings.HasPrefix(id, prefix)","		matched = len(id) >= len(prefix) && strings.EqualFold(id[:len(prefix)], prefix)"))
M("S19","bm whole id",(ST,"		matched = strings.HasPrefix(id, prefix)","		matched = strings.HasPrefix(id, prefix) && len(id) > len(prefix)"))
M("S19","bm contains",(ST,"		matched = strings.HasPrefix(id, prefix)","		matched = strings.Contains(id, prefix)"))
M("S19","bm stream strip twice",(CP,"	return i.client.NewStream(ctx, service, method, firstMsg)","	service, _ = CheckStripPrefix(service, i.serviceIDPrefixes)\n	return i.client.NewStream(ctx, service, method, firstMsg)"))
M("S19","bm empty stripped refused",("srpc/invoker-prefix.go","		serviceID = strippedID","		if strippedID == \"\" {\n			return false, nil\n		}\n		serviceID = strippedID"))
# S20
M("S20","bm vclient retry",(VC,"	err = c.client.ExecCall(ctx, service, method, in, out)\n","	err = c.client.ExecCall(ctx, service, method, in, out)\n	if err == context.Canceled && ctx.Err() == nil {\n		err = c.client.ExecCall(ctx, service, method, in, out)\n	}\n"))
M("S20","bm defer sets err",(VC,"			time.Since(t1).String(),\n			err,\n		)\n	}()\n	stream, err","			time.Since(t1).String(),\n			err,\n		)\n		if err != nil {\n			stream = nil\n		}\n	}()\n	stream, err"))
M("S20","bm vmux done",(V,"	return v.mx.InvokeMethod(serviceID, methodID, strm)","	done, err = v.mx.InvokeMethod(serviceID, methodID, strm)\n	return done || err != nil, err"))
M("S20","bm register only verbose",(V,"	return v.mx.HasServiceMethod(serviceID, methodID)","	if !v.mx.HasService(serviceID) {\n		return false\n	}\n	return v.mx.HasServiceMethod(serviceID, methodID)"))
# S22
M("S22","bm grow only",(ME,"		if cap(m.data) >= len(data) {\n			m.data = m.data[:len(data)]","		if cap(m.data) >= len(data) {\n			m.data = m.data[:max(len(data), len(m.data))]"))
M("S22","bm marshal small alias",(ME,"	if !m.copy {\n		return m.data, nil\n	}","	if !m.copy || len(m.data) == 0 {\n		return m.data, nil\n	}"))
M("S22","bm sized ge",(ME,"	if len(dAtA) != len(m.data) {","	if len(dAtA) < len(m.data) {"))
M("S22","bm keep on empty",(ME,"	m.SetData(data)\n	return nil","	if len(data) != 0 {\n		m.SetData(data)\n	}\n	return nil"))
M("S22","bm cap equals",(ME,"	if m.copy {\n		if cap(m.data) >= len(data) {","	if m.copy && len(data) < 1<<16 {\n		if cap(m.data) >= len(data) {"))
M("S22","bm clear before copy",(ME,"		copy(m.data, data)\n	} else","		copy(m.data[min(1, len(m.data)):], data[min(1, len(data)):])\n	} else"))
# S21
# S23
M("S23","bm rwc lost rest",(SR,"				_, _ = s.buf.Write(data[rn:]) // never returns an error","				if rn+2048 > len(data) {\n					_, _ = s.buf.Write(data[rn:])\n				} else {\n					_, _ = s.buf.Write(data[rn : rn+2048])\n				}"))
M("S23","bm rwc reset",(SR,"			s.readMsg.Clear()\n","			s.readMsg.Clear()\n			s.buf.Reset()\n			if len(readBuf) > 4096 {\n				readBuf = readBuf[:4096]\n			}\n"))
M("S23","bm rwc n overwritten",(SR,"		n += rn\n","		n = rn\n"))
M("S23","bm rwc eof swallowed",(SR,"				return n, err\n			}\n			data := s.readMsg.GetData()","				if err == io.EOF {\n					return n, nil\n				}\n				return n, err\n			}\n			data := s.readMsg.GetData()"))
M("S23","bm rwc chunk",(SR,"	s.writeMsg.SetData(p)\n	err = s.MsgSend(&s.writeMsg)","	if len(p) > 1<<16 {\n		p = p[:1<<16]\n	}\n	s.writeMsg.SetData(p)\n	err = s.MsgSend(&s.writeMsg)"))
M("S23","bm rw empty eof",(RR,"			if len(data) == 0 {\n				continue\n			}","			if len(data) == 0 {\n				return n, io.EOF\n			}"))
M("S23","bm rw wait more",(RR,"			if n != 0 {\n				// if we read data to p already, return now.\n				break\n			}","			if n >= len(p)/2 && n != 0 {\n				break\n			}"))
M("S23","bm rw alias",(RR,"	err = r.stream.Send(&RpcStreamPacket{\n		Body: &RpcStreamPacket_Data{\n			Data: p,\n		},\n	})","	for off := 0; off <= len(p) && err == nil; off += 32768 {\n		err = r.stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Data{Data: p[off:min(off+32768, len(p))]}})\n	}"))
M("S23","bm rw ack error drop",(RR,"			if errStr := pkt.GetAck().GetError(); errStr != \"\" {\n				return n, errors.New(errStr)\n			}","			if errStr := pkt.GetAck().GetError(); errStr != \"\" {\n				return n, io.EOF\n			}"),(RR,"	\"errors\"\n",""))
# S24
M("S24","bm ack nil ok",(RS,"			default:\n				err = errors.New(\"expected ack packet\")","			case nil:\n			default:\n				err = errors.New(\"expected ack packet\")"))
M("S24","bm no close on recv err",(RS,"		if err != nil {\n			_ = rpcStream.Close()\n			return nil, err\n		}\n	}\n\n	return rpcStream, nil","		if err != nil {\n			if err != context.Canceled {\n				_ = rpcStream.Close()\n			}\n			return nil, err\n		}\n	}\n\n	return rpcStream, nil"))
M("S24","bm closesend",(RS,"	if err != nil {\n		_ = rpcStream.Close()\n		return nil, err\n	}\n\n	// wait","	if err != nil {\n		_ = rpcStream.CloseSend()\n		return nil, err\n	}\n\n	// wait"))
M("S24","bm skip data until ack",(RS,"		pkt, err := rpcStream.Recv()\n		if err == nil {","		pkt, err := rpcStream.Recv()\n		for err == nil && pkt.GetAck() == nil && len(pkt.GetData()) == 0 {\n			pkt, err = rpcStream.Recv()\n		}\n		if err == nil {"))
M("S24","bm pump before ack",(RS,"		go ReadPump(rw, msgHandler, closeHandler)\n","		go func() {\n			if ReadToHandler(rw, msgHandler) != nil && ctx.Err() == nil {\n				closeHandler(nil)\n			}\n		}()\n"))
M("S24","bm ack shadow",(RS,"				if errStr := b.Ack.GetError(); errStr != \"\" {\n					err = errors.Errorf(\"remote: %s\", errStr)\n				}","				if errStr := b.Ack.GetError(); errStr != \"\" {\n					err := errors.Errorf(\"remote: %s\", errStr)\n					_ = err\n				}"))
# S25
M("S25","bm rel before wait",(RS,"	serverRPC := srpc.NewServerRPC(ctx, mux, NewRpcStreamWriter(stream))","	if muxRel != nil && sendErr == nil {\n		defer func() { muxRel = nil }()\n	}\n	serverRPC := srpc.NewServerRPC(stream.Context(), mux, NewRpcStreamWriter(stream))\n	if muxRel != nil {\n		go muxRel()\n	}"))
M("S25","bm rel skipped on nil mux",(RS,"	if err == nil && mux == nil {\n		err = ErrNoServerForComponent\n	}\n	if muxRel != nil {","	if err == nil && mux == nil {\n		err = ErrNoServerForComponent\n	}\n	if muxRel != nil && mux != nil {"))
M("S25","bm ack err unimpl",(RS,"	if err != nil {\n		errStr = err.Error()\n	}","	if err != nil && err != context.Canceled {\n		errStr = err.Error()\n	}"))
M("S25","bm wait bg",(RS,"	return serverRPC.Wait(ctx)","	_ = serverRPC.Wait(ctx)\n	return ctx.Err()"))
M("S25","bm close ignored",(RS,"	go ReadPump(stream, serverRPC.HandlePacketData, serverRPC.HandleStreamClose)","	go ReadPump(stream, serverRPC.HandlePacketData, func(err error) {\n		if err != nil {\n			serverRPC.HandleStreamClose(err)\n		}\n	})"))
M("S25","bm two init",(RS,"	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)","	if initPkt.GetBody() == nil {\n		if initPkt, err = stream.Recv(); err != nil {\n			return err\n		}\n	}\n	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)"))
M("S25","bm sendErr ignored",(RS,"	if sendErr != nil {\n		return sendErr\n	}\n\n	// handle","	if sendErr == context.Canceled {\n		return sendErr\n	}\n\n	// handle"))
# S26
M("S26","bm wait one",(RA,"	for i := 0; i < 2; i++ {\n		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {\n			outErr = err\n		}\n	}","	for i := 0; i < 2; i++ {\n		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {\n			outErr = err\n			break\n		}\n	}"))
M("S26","bm last err",(RA,"err != nil && outErr == nil && err != io.EOF","err != nil && err != io.EOF"))
M("S26","bm half close",(RA,"	_ = s1.Close()\n	_ = s2.Close()\n	if errCh","	if err != nil {\n		_ = s1.Close()\n	}\n	_ = s2.Close()\n	if errCh"))
M("S26","bm unbuffered close late",(RA,"	_ = s1.Close()\n	_ = s2.Close()\n	if errCh != nil {\n		errCh <- err\n	}","	if errCh != nil {\n		errCh <- err\n	}\n	_ = s1.Close()\n	if err == nil {\n		_ = s2.Close()\n	}"))
M("S26","bm rel twice",(RA,"	if err != nil {\n		return err\n	}\n	if sendErr != nil {\n		return sendErr\n	}","	if err != nil {\n		return err\n	}\n	if sendErr != nil {\n		if remoteRwcRel != nil {\n			remoteRwcRel()\n		}\n		return sendErr\n	}"))
M("S26","bm no close on lookup err",(RA,"	if remoteRwc != nil {\n		defer remoteRwc.Close()\n	}","	if remoteRwc != nil && err == nil {\n		defer remoteRwc.Close()\n	}"))
M("S26","bm ack text",(RA,"		errStr = err.Error()","		errStr = ErrNoServerForComponent.Error()"))
M("S26","bm same dir",(RA,"	go copyRwcTo(srw, remoteRwc, errCh)","	go copyRwcTo(srw, struct{ io.ReadWriteCloser }{srw}, errCh)"))
# S27
M("S27","bm double ack",(X,"	errCh := make(chan error, 2)\n","	_ = stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: &RpcAck{}}})\n	errCh := make(chan error, 2)\n"))
M("S27","bm component",(X,"					ComponentId: remoteComponentID,","					ComponentId: max(remoteComponentID, componentID),"))
M("S27","bm msg reuse",(X,"			err = s2.MsgSend(pkt)\n			pkt.Clear()\n","			go func() { _ = s2.MsgSend(pkt) }()\n"))
M("S27","bm eof once",(X,"			if err != nil {\n				return err\n			}\n			if len(pkt.GetData()) == 0 {","			if err == io.EOF {\n				return nil\n			}\n			if err != nil {\n				return err\n			}\n			if len(pkt.GetData()) <= 1 {"))
M("S27","bm remote err dropped",(X,"	if rerr == nil && s1Err != nil {\n		rerr = s1Err\n	}\n	if rerr != nil {","	if s1Err != nil {\n		rerr = s1Err\n	}\n	if rerr != nil {"))
M("S27","bm bg ctx",(X,"		remoteStrm, err = remoteCaller(ctx)","		remoteStrm, err = remoteCaller(context.WithoutCancel(ctx))"))
M("S27","bm leak on send",(X,"		if remoteStrm != nil {\n			defer remoteStrm.Close()\n		} else","		if remoteStrm != nil && err == nil {\n			defer remoteStrm.CloseSend()\n		} else"))
M("S27","bm retry send",(X,"			err = s2.MsgSend(pkt)\n","			if err = s2.MsgSend(pkt); err == context.DeadlineExceeded {\n				err = s2.MsgSend(pkt)\n			}\n"))
# S28
M("S28","bm ack stops",(RR,"		data := pkt.GetData()\n		if len(data) == 0 {\n			continue\n		}\n\n		// call","		data := pkt.GetData()\n		if len(data) == 0 {\n			if pkt.GetAck() != nil {\n				return nil\n			}\n			continue\n		}\n\n		// call"))
M("S28","bm eof nil",(RR,"		pkt, err := strm.Recv()\n		if err != nil {\n			return err\n		}","		pkt, err := strm.Recv()\n		if err == io.EOF {\n			return nil\n		}\n		if err != nil {\n			return err\n		}"))
M("S28","bm go cb",(RR,"		if err := cb(data); err != nil {\n			return err\n		}","		if len(data) > 1<<16 {\n			go func() { _ = cb(data) }()\n			continue\n		}\n		if err := cb(data); err != nil {\n			return err\n		}"))
# S29
M("S29","bm config tweak",(MC,"	if yamuxConf == nil {\n		yamuxConf = NewYamuxConfig()\n	}","	if yamuxConf == nil {\n		yamuxConf = NewYamuxConfig()\n	} else if outbound {\n		yamuxConf.EnableKeepAlive = true\n	}"))
M("S29","bm shared default",(MC,"	config := *ymuxer.DefaultTransport.Config()\n	config.AcceptBacklog = 512\n	config.EnableKeepAlive = false\n	return &config","	config := ymuxer.DefaultTransport.Config()\n	config.AcceptBacklog = 512\n	config.EnableKeepAlive = false\n	return config"))
M("S29","bm timeout canceled always",(MC,"ok && timeoutErr.Timeout() && ctx.Err() != nil","ok && timeoutErr.Timeout()"))
M("S29","bm rwc inbound",(MC,"	return NewMuxedConn(NewRwcConn(ctx, rwc, nil, nil, 10), outbound, yamuxConf)","	return NewMuxedConn(NewRwcConn(ctx, rwc, nil, nil, 10), outbound || yamuxConf == nil, yamuxConf)"))
M("S29","bm conn leaked pump",(MC,"		go rw.ReadPump(msgHandler, closeHandler)\n		return rw, nil","		go func() {\n			if err := rw.ReadToHandler(msgHandler); err != nil {\n				closeHandler(err)\n			}\n		}()\n		return rw, nil"))
# S30
M("S30","bm break on mux err",(A,"			_ = nc.Close()\n			continue","			_ = nc.Close()\n			return err"))
M("S30","bm no close after serve",(A,"			_ = srv.AcceptMuxedConn(ctx, mc)\n			_ = nc.Close()","			if srv.AcceptMuxedConn(ctx, mc) != context.Canceled {\n				_ = nc.Close()\n			}"))
M("S30","bm loop var",(A,"	for {\n		nc, err := lis.Accept()","	var nc net.Conn\n	for {\n		var err error\n		nc, err = lis.Accept()"))
M("S30","bm temp accept",(A,"		if err != nil {\n			return err\n		}\n\n		mc","		if err != nil {\n			if te, ok := err.(interface{ Temporary() bool }); ok && te.Temporary() {\n				continue\n			}\n			return err\n		}\n\n		mc"))
M("S30","bm listener leak",(N,"	defer lis.Close()\n",""),(N,"	case err := <-listenErrCh:\n		return err","	case err := <-listenErrCh:\n		_ = lis.Close()\n		return err"),(N,"	case <-ctx.Done():\n","	case <-ctx.Done():\n		_ = lis.Close()\n"))
M("S30","bm stream ctx",(SV,"	serverRPC := NewServerRPC(subCtx, s.invoker, prw)","	_ = subCtx\n	serverRPC := NewServerRPC(ctx, s.invoker, prw)"))
M("S30","bm stream blocking",(SV,"		go s.HandleStream(ctx, muxedStream)","		if mc.IsClosed() {\n			s.HandleStream(ctx, muxedStream)\n			continue\n		}\n		go s.HandleStream(ctx, muxedStream)"))
M("S30","bm accept err as eof",(SV,"		if err != nil {\n			return err\n		}\n		go","		if err != nil {\n			if mc.IsClosed() {\n				return nil\n			}\n			return err\n		}\n		go"))
M("S30","bm pipe shared",(SP,"	return func(ctx context.Context, msgHandler PacketDataHandler, closeHandler CloseHandler) (PacketWriter, error) {\n		srvPipe, clientPipe := net.Pipe()","	srvPipe, clientPipe := net.Pipe()\n	return func(ctx context.Context, msgHandler PacketDataHandler, closeHandler CloseHandler) (PacketWriter, error) {"))
M("S30","bm listenErrCh unbuffered",(N,"	case err := <-errCh:\n		return err\n","	case err := <-errCh:\n		if err == nil {\n			err = <-listenErrCh\n		}\n		return err\n"))
# S31
M("S31","bm path prefix",(H,"	if s.path != \"\" && r.URL.Path != s.path {","	if s.path != \"\" && !strings.HasPrefix(r.URL.Path, s.path) {"),(H,"	\"net/http\"\n","	\"net/http\"\n	\"strings\"\n"))
M("S31","bm bg ctx",(H,"	ctx := r.Context()","	ctx := context.WithoutCancel(r.Context())"))
M("S31","bm not closed on eof",(H,"	defer c.Close(websocket.StatusInternalError, \"closed\")\n",""),(H,"			return\n		}\n		go","			if err == io.EOF {\n				_ = c.Close(websocket.StatusNormalClosure, \"closed\")\n			}\n			return\n		}\n		go"))
M("S31","bm initiator",(H,"NewWebSocketConn(ctx, c, true, nil)","NewWebSocketConn(ctx, c, r.URL.Path != s.path || s.path == \"\", nil)"))
M("S31","bm continue",(H,"				c.Close(websocket.StatusInternalError, err.Error())\n			}\n			return\n","				c.Close(websocket.StatusInternalError, err.Error())\n			} else if ctx.Err() == nil {\n				continue\n			}\n			return\n"))
# S32
M("S32","bm rest replaced",(RW,"		p.rest = append(p.rest, pkt[n:]...)","		p.rest = pkt[n:]"))
M("S32","bm put pkt before rest",(RW,"	n = copy(b, pkt)\n","	p.ar.Put(&pkt)\n	n = copy(b, pkt)\n"))
M("S32","bm err before data",(RW,"		n, err := p.rwc.Read(pktBuf)\n","		n, err := p.rwc.Read(pktBuf)\n		if err != nil && err != io.EOF {\n			return err\n		}\n"))
M("S32","bm eof on ctx",(RW,"			return 0, os.ErrDeadlineExceeded\n		}\n		return 0, context.Canceled","			return 0, os.ErrDeadlineExceeded\n		}\n		return 0, io.EOF"))
M("S32","bm write short ok",(RW,"	for written < len(pkt) {\n		n, err = p.rwc.Write(pkt[written:])\n		written += n\n		if err != nil {","	for written < len(pkt) {\n		n, err = p.rwc.Write(pkt[written:])\n		if err == nil {\n			written += n\n		}\n		if err != nil {"))
M("S32","bm write all",(RW,"			return written, err\n		}\n	}\n	return written, nil","			return written, err\n		}\n		if n == 0 {\n			break\n		}\n	}\n	return len(pkt), nil"))
M("S32","bm close only cancel",(RW,"	p.ctxCancel()\n	return p.rwc.Close()","	if p.ctx.Err() != nil {\n		return nil\n	}\n	p.ctxCancel()\n	return p.rwc.Close()"))
M("S32","bm put sent",(RW,"			case p.packetCh <- pktBuf[:n]:\n			}","			case p.packetCh <- pktBuf[:n]:\n			}\n			if n < connPktSize/2 {\n				p.ar.Put(&pktBuf)\n			}"))
M("S32","bm drop full",(RW,"			case p.packetCh <- pktBuf[:n]:\n			}","			case p.packetCh <- pktBuf[:n]:\n			case <-time.After(time.Second):\n			}"))
M("S32","bm deadline zero",(RW,"	p.rd = t\n	p.wd = t\n	p.restMtx.Unlock()","	p.rd = p.wd\n	p.wd = t\n	p.restMtx.Unlock()"))
# S33
M("S33","bm send after close data",(PI,"	select {\n	case <-p.closedCh:\n		return io.ErrClosedPipe\n	default:\n	}\n",""))
M("S33","bm eof first",(PI,"		select {\n		case data := <-p.dataCh:\n			return msg.UnmarshalVT(data)\n		default:\n			return io.EOF\n		}","		return io.EOF"))
M("S33","bm own closed",(PI,"	case <-p.other.closedCh:","	case <-p.closedCh:"))
M("S33","bm drop",(PI,"	case p.other.dataCh <- data:\n		return nil\n	}","	case p.other.dataCh <- data:\n		return nil\n	case <-p.other.ctx.Done():\n		return nil\n	}"))
M("S33","bm close both",(PI,"	p.closeRemote()\n	return nil\n}\n\n// Close closes","	p.closeRemote()\n	p.ctxCancel()\n	return nil\n}\n\n// Close closes"))
M("S33","bm self",(PI,"	s1.other = s2\n","	s1.other = s1\n"))

# S34 / S35
PB="srpc/rpcproto.pb.go"; RPB="rpcstream/rpcstream.pb.go"; EPB="echo/echo.pb.go"; MSR="mock/mock_srpc.pb.go"
M("S34","bm wrong service taken",(E,"	if serviceID != \"\" && serviceID != d.GetServiceID() {","	if serviceID != \"\" && serviceID != d.GetServiceID() && serviceID != SRPCEchoerServiceID {"))
M("S34","bm bg ctx",(E,"	out, err := impl.DoNothing(strm.Context(), req)","	out, err := impl.DoNothing(context.WithoutCancel(strm.Context()), req)"))
M("S34","bm reply with error",(E,"	out, err := impl.EchoClientStream(clientStrm)\n	if err != nil {\n		return err\n	}\n	return strm.MsgSend(out)","	out, err := impl.EchoClientStream(clientStrm)\n	if err != nil && out == nil {\n		return err\n	}\n	return strm.MsgSend(out)"))
M("S34","bm sendandclose nil",(E,"	if m != nil {\n		if err := x.MsgSend(m); err != nil {\n			return err\n		}\n	}\n	return x.CloseSend()","	if m == nil {\n		return nil\n	}\n	if err := x.MsgSend(m); err != nil {\n		return err\n	}\n	return x.CloseSend()"))
M("S34","bm not listed",(E,"		\"RpcStream\",\n",""))
M("S34","bm double send",(E,"	serverStrm := &srpcEchoer_EchoServerStreamStream{strm}\n	return impl.EchoServerStream(req, serverStrm)","	serverStrm := &srpcEchoer_EchoServerStreamStream{strm}\n	if err := impl.EchoServerStream(req, serverStrm); err != nil {\n		return err\n	}\n	return strm.CloseSend()"))
M("S34","bm mock empty request",(MSR,"	if err := strm.MsgRecv(req); err != nil {\n		return err\n	}","	if err := strm.MsgRecv(req); err != nil && req == nil {\n		return err\n	}"))
M("S35","bm wrong method",(E,"c.cc.NewStream(ctx, c.serviceID, \"EchoBidiStream\", nil)","c.cc.NewStream(ctx, c.serviceID, \"EchoClientStream\", nil)"))
M("S35","bm default id",(E,"c.cc.ExecCall(ctx, c.serviceID, \"DoNothing\", in, out)","c.cc.ExecCall(ctx, SRPCEchoerServiceID, \"DoNothing\", in, out)"))
M("S35","bm no closesend",(E,"	if err := strm.CloseSend(); err != nil {\n		return nil, err\n	}\n	return strm, nil","	return strm, nil"))
M("S35","bm close after recv",(E,"	if err := x.CloseSend(); err != nil {\n		return nil, err\n	}\n	m := new(EchoMsg)\n	if err := x.MsgRecv(m); err != nil {\n		return nil, err\n	}\n	return m, nil","	m := new(EchoMsg)\n	if err := x.MsgRecv(m); err != nil {\n		return nil, err\n	}\n	if err := x.CloseSend(); err != nil {\n		return nil, err\n	}\n	return m, nil"))
M("S35","bm close keeps err",(E,"	if err := x.CloseSend(); err != nil {\n		return err\n	}\n	return x.MsgRecv(m)","	_ = x.CloseSend()\n	return x.MsgRecv(m)"))
M("S35","bm out=in",(E,"	err := c.cc.ExecCall(ctx, c.serviceID, \"Echo\", in, out)","	if in == nil {\n		in = out\n	}\n	err := c.cc.ExecCall(ctx, c.serviceID, \"Echo\", in, out)"))
M("S35","bm service id swap",(MSR,"	if serviceID == \"\" {\n		serviceID = SRPCMockServiceID\n	}\n	return &srpcMockClient{cc: cc, serviceID: serviceID}","	return &srpcMockClient{cc: cc, serviceID: serviceID}"))
# S36
M("S36","bm unknown dropped",(PB,"	if m.unknownFields != nil {\n		i -= len(m.unknownFields)\n		copy(dAtA[i:], m.unknownFields)\n	}\n	if vtmsg","	if vtmsg"))
M("S36","bm error len",(PB,"	if len(m.Error) > 0 {\n		i -= len(m.Error)","	if len(m.Error) > 1 {\n		i -= len(m.Error)"))
M("S36","bm nil start",(PB,"	} else {\n		i = protobuf_go_lite.EncodeVarint(dAtA, i, 0)\n		i--\n		dAtA[i] = 0xa\n	}","	}"))
M("S36","bm size",(PB,"	if m.Complete {\n		n += 2\n	}","	if m.Complete {\n		n += 1\n	}"))
M("S36","bm order tag",(PB,"		i--\n		dAtA[i] = 0x22","		i--\n		dAtA[i] = 0x2a"))
M("S36","bm rpcstream init nested err",(RPB,"		size, err := m.Init.MarshalToSizedBufferVT(dAtA[:i])\n		if err != nil {\n			return 0, err\n		}","		size, err := m.Init.MarshalToSizedBufferVT(dAtA[:i])\n		if err != nil && size == 0 {\n			return 0, err\n		}"))
M("S36","bm data window",(RPB,"		i -= len(m.ComponentId)\n		copy(dAtA[i:], m.ComponentId)","		i -= len(m.ComponentId)\n		copy(dAtA[i:], m.ComponentId[:len(m.ComponentId)&0xffff])"))
# S37
M("S37","bm append data",(PB,"m.Data = append(m.Data[:0], dAtA[iNdEx:postIndex]...)","m.Data = append(m.Data, dAtA[iNdEx:postIndex]...)"))
M("S37","bm alias data",(PB,"m.Data = append(m.Data[:0], dAtA[iNdEx:postIndex]...)","m.Data = dAtA[iNdEx:postIndex]"))
M("S37","bm shift63",(PB,"			if shift >= 64 {","			if shift > 64 {"))
M("S37","bm postindex overflow",(PB,"			postIndex := iNdEx + byteLen\n			if postIndex < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}","			postIndex := iNdEx + byteLen"))
M("S37","bm unknown dropped",(RPB,"			m.unknownFields = append(m.unknownFields, dAtA[iNdEx:iNdEx+skippy]...)\n			iNdEx += skippy","			if fieldNum < 1000 {\n				m.unknownFields = append(m.unknownFields, dAtA[iNdEx:iNdEx+skippy]...)\n			}\n			iNdEx += skippy"))
M("S37","bm bool eq1",(PB,"			m.Complete = bool(v != 0)","			m.Complete = bool(v == 1)"))
M("S37","bm oneof replaced",(PB,"				if err := oneof.CallData.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}","				oneof.CallData.Reset()\n				if err := oneof.CallData.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}"))
M("S37","bm wiretype lenient",(PB,"			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field Data\", wireType)\n			}","			if wireType != 2 && wireType != 3 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field Data\", wireType)\n			}"))
# S38
M("S38","bm clone shares",(PB,"		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes, rhs)\n		r.Data = tmpBytes","		r.Data = rhs[:len(rhs):len(rhs)]"))
M("S38","bm equal unknown",(RPB,"	return string(this.unknownFields) == string(that.unknownFields)","	return len(this.unknownFields) == len(that.unknownFields)"))
M("S38","bm equal data len",(PB,"	if string(this.Data) != string(that.Data) {","	if len(this.Data) != len(that.Data) {"))
M("S38","bm getter",(PB,"func (x *CallData) GetError() string {\n	if x != nil {","func (x *CallData) GetError() string {\n	if x != nil && x.Complete {"))
M("S38","bm clone unknown",(PB,"	if len(m.unknownFields) > 0 {\n		r.unknownFields = make([]byte, len(m.unknownFields))\n		copy(r.unknownFields, m.unknownFields)\n	}\n	return r\n}","	r.unknownFields = m.unknownFields\n	return r\n}"))
M("S38","bm reset partial",(PB,"	*x = CallData{}","	*x = CallData{unknownFields: x.unknownFields[:0]}"))
M("S38","bm equal nil body",(PB,"	if this.Body == nil && that.Body != nil {\n		return false\n	} else if","	if"))
