MUTANTS = []
REFACTORINGS = []
PRW = "srpc/packet-rw.go"


def M(prop, name, *edits):
    MUTANTS.append((prop, name, list(edits)))


def R(name, *edits):
    REFACTORINGS.append((name, list(edits)))


# ---- S01
M("S01", "no-progress", (PRW, "\t\tif n == 0 {\n\t\t\treturn io.ErrShortWrite\n\t\t}\n", ""))
M("S01", "write-twice", (PRW, "data[written:])", "data[written-0*1:])\n\t\t_, _ = r.rw.Write(nil)"))
M("S01", "skip-one", (PRW, "written += n", "written += n + 1"))
M("S01", "restart", (PRW, "r.rw.Write(data[written:])", "r.rw.Write(data)"))
M("S01", "big-endian", (PRW, "binary.LittleEndian.PutUint32(data", "binary.BigEndian.PutUint32(data"))
M("S01", "one-write", (PRW, "for written < len(data) {", "for written < 4 {"))
M("S01", "unlocked", (PRW, "\tr.writeMtx.Lock()\n\tdefer r.writeMtx.Unlock()\n\n\tmsgSize", "\tmsgSize"))
M("S01", "early-unlock", (PRW, "\tr.writeMtx.Lock()\n\tdefer r.writeMtx.Unlock()\n\n\tmsgSize", "\tr.writeMtx.Lock()\n\tr.writeMtx.Unlock()\n\n\tmsgSize"))
M("S01", "relock", (PRW, "\t\tn, err = r.rw.Write(data[written:])", "\t\tr.writeMtx.Unlock()\n\t\tr.writeMtx.Lock()\n\t\tn, err = r.rw.Write(data[written:])"))
M("S01", "size-plus", (PRW, "uint32(msgSize)) //", "uint32(msgSize+4)) //"))
M("S01", "trunc-size", (PRW, "uint32(msgSize)) //", "uint32(uint16(msgSize))) //"))
M("S01", "no-check", (PRW, "msgSize > math.MaxUint32", "msgSize > math.MaxInt64-1"))
M("S01", "ignore-err", (PRW, "\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif n == 0", "\t\tif err != nil && n == 0 {\n\t\t\treturn err\n\t\t}\n\t\tif n == 0"))
M("S01", "ignore-marshal-err", (PRW, "MarshalToSizedBufferVT(data[4:])\n\tif err != nil {\n\t\treturn err\n\t}", "MarshalToSizedBufferVT(data[4:])\n\t_ = err"))
M("S01", "pool", (PRW, "data := make([]byte, 4+msgSize)", "data := make([]byte, 8+msgSize)"))
R("S01 loop over the rest", (PRW, "\tvar written, n int\n\tfor written < len(data) {\n\t\tn, err = r.rw.Write(data[written:])", "\tvar n int\n\tfor len(data) != 0 {\n\t\tn, err = r.rw.Write(data)"), (PRW, "written += n", "data = data[n:]"))
R("S01 helper", (PRW, "\tvar written, n int\n\tfor written < len(data) {\n\t\tn, err = r.rw.Write(data[written:])\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif n == 0 {\n\t\t\treturn io.ErrShortWrite\n\t\t}\n\t\twritten += n\n\t}\n\n\treturn nil\n}",
  "\treturn r.writeAll(data)\n}\n\nfunc (r *PacketReadWriter) writeAll(data []byte) error {\n\tfor written := 0; written < len(data); {\n\t\tn, err := r.rw.Write(data[written:])\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif n == 0 {\n\t\t\treturn io.ErrShortWrite\n\t\t}\n\t\twritten += n\n\t}\n\treturn nil\n}"))
R("S01 endless loop", (PRW, "\tfor written < len(data) {\n", "\tfor {\n\t\tif written >= len(data) {\n\t\t\tbreak\n\t\t}\n"))

# ---- S02
M("S02", "drop-on-eof", (PRW, "\t\t\t\tisOpen = false\n", "\t\t\t\treturn nil\n"))
M("S02", "prefix-be", (PRW, "return binary.LittleEndian.Uint32(b)", "return binary.BigEndian.Uint32(b)"))
M("S02", "one-per-read", (PRW, "\t\t\tgoto EmitIfEnough\n", "\t\t\tif !isOpen {\n\t\t\t\tgoto EmitIfEnough\n\t\t\t}\n"))
M("S02", "stale-len", (PRW, "\t\t\tcurrLen = 0\n", ""))
M("S02", "no-max", (PRW, "currLen > uint32(maxMessageSize)", "currLen > uint32(maxMessageSize) && !isOpen"))
M("S02", "buffered-less", (PRW, "bufLen >= int(currLen)+4", "bufLen >= int(currLen)"))
M("S02", "buffered-more", (PRW, "bufLen >= int(currLen)+4", "bufLen > int(currLen)+4"))
M("S02", "skip3", (PRW, "r.buf.Next(int(currLen + 4))[4:]", "r.buf.Next(int(currLen + 3))[3:]"))
M("S02", "ignore-cb", (PRW, "if err := cb(pkt); err != nil {\n\t\t\t\treturn err\n", "if err := cb(pkt); err != nil && err != io.EOF {\n\t\t\t\treturn err\n"))
M("S02", "swallow-read-err", (PRW, "\t\t\t} else {\n\t\t\t\treturn err\n\t\t\t}", "\t\t\t} else if n == 0 {\n\t\t\t\treturn err\n\t\t\t}"))
M("S02", "partial-ok", (PRW, "\tif r.buf.Len() != 0 {\n\t\treturn io.ErrUnexpectedEOF\n\t}\n", ""))
M("S02", "unexpected-is-eof", (PRW, "err == io.EOF || err == context.Canceled", "err == io.EOF || err == context.Canceled || err == io.ErrClosedPipe"))
M("S02", "closed-twice", (PRW, "\tif closed != nil {\n\t\tclosed(err)\n", "\tif closed != nil {\n\t\tif err != nil {\n\t\t\tclosed(nil)\n\t\t}\n\t\tclosed(err)\n"))
M("S02", "closed-noerr", (PRW, "\t\tclosed(err)\n", "\t\tif err == io.EOF {\n\t\t\terr = nil\n\t\t}\n\t\tclosed(err)\n"))
M("S02", "zero-skip", (PRW, "\t\t\tif currLen == 0 {\n\t\t\t\treturn errors.New(\"unexpected zero len prefix\")\n\t\t\t}\n", ""))
M("S02", "reject-max", (PRW, "currLen > uint32(maxMessageSize)", "currLen > uint32(maxMessageSize) || bufLen > 4096"))
R("S02 rewritten loop", (PRW, """	var currLen uint32
	buf := make([]byte, 2048)
	isOpen := true

	for isOpen {""", """	buf := make([]byte, 4096)
	isOpen := true

	for isOpen {"""), (PRW, """	EmitIfEnough:

		// check if we have enough data for a length prefix
		bufLen := r.buf.Len()
		if bufLen < 4 {
			continue
		}

		// parse the length prefix if not done already
		if currLen == 0 {
			currLen = r.readLengthPrefix(r.buf.Bytes()[:4])
			if currLen == 0 {
				return errors.New("unexpected zero len prefix")
			}
			if currLen > uint32(maxMessageSize) {
				return errors.Errorf("message size %v greater than maximum %v", currLen, maxMessageSize)
			}
		}

		// emit the packet if fully buffered
		if currLen != 0 && bufLen >= int(currLen)+4 {
			pkt := r.buf.Next(int(currLen + 4))[4:]
			currLen = 0
			if err := cb(pkt); err != nil {
				return err
			}

			// check if there's still enough in the buffer
			goto EmitIfEnough
		}
	}
""", """		for r.buf.Len() >= 4 {
			pktLen := binary.LittleEndian.Uint32(r.buf.Bytes())
			if pktLen == 0 {
				return errors.New("unexpected zero len prefix")
			}
			if pktLen > uint32(maxMessageSize) {
				return errors.Errorf("message size %v greater than maximum %v", pktLen, maxMessageSize)
			}
			if r.buf.Len() < int(pktLen)+4 {
				break
			}
			if err := cb(r.buf.Next(int(pktLen) + 4)[4:]); err != nil {
				return err
			}
		}
	}
"""))
R("S02 break at end", (PRW, "\tisOpen := true\n\n\tfor isOpen {", "\teof := false\n\n\tfor !eof {"), (PRW, "isOpen = false", "eof = true"))
R("S02 helper", (PRW, "\t\t\tcurrLen = r.readLengthPrefix(r.buf.Bytes()[:4])\n\t\t\tif currLen == 0 {\n\t\t\t\treturn errors.New(\"unexpected zero len prefix\")\n\t\t\t}\n\t\t\tif currLen > uint32(maxMessageSize) {\n\t\t\t\treturn errors.Errorf(\"message size %v greater than maximum %v\", currLen, maxMessageSize)\n\t\t\t}\n",
  "\t\t\tvar err error\n\t\t\tcurrLen, err = r.nextLen()\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n"),
  (PRW, "// Close closes the packet rw.", "func (r *PacketReadWriter) nextLen() (uint32, error) {\n\tl := r.readLengthPrefix(r.buf.Bytes()[:4])\n\tif l == 0 {\n\t\treturn 0, errors.New(\"zero\")\n\t}\n\tif l > uint32(maxMessageSize) {\n\t\treturn 0, errors.New(\"big\")\n\t}\n\treturn l, nil\n}\n\n// Close closes the packet rw."))
R("S02 last iteration separately", (PRW, "\t\t\tif err == io.EOF || err == context.Canceled {\n\t\t\t\tisOpen = false\n\t\t\t} else {\n\t\t\t\treturn err\n\t\t\t}", "\t\t\tif err != io.EOF && err != context.Canceled {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tisOpen = false"))

# ---- S09, S12, S13, S21
CRPC, COM, CL, MS = "srpc/client-rpc.go", "srpc/common-rpc.go", "srpc/client.go", "srpc/msg-stream.go"
M("S09", "zero-on-complete", (COM, "len(data) == 0 && !complete && err == nil", "len(data) == 0 && err == nil"))
M("S09", "zero-on-err", (COM, "len(data) == 0 && !complete && err == nil", "len(data) == 0 && !complete"))
M("S09", "no-zero", (COM, "len(data) == 0 && !complete && err == nil", "data == nil && !complete && err == nil"))
M("S09", "err-not-complete", ("srpc/packet.go", "err != nil || complete,", "complete,"))
M("S09", "err-text-lost", ("srpc/packet.go", "errStr = err.Error()", "errStr = \"error\""))
M("S09", "ignore-write", (COM, "\treturn c.writer.WritePacket(outPkt)", "\t_ = c.writer.WritePacket(outPkt)\n\treturn nil"))
M("S09", "cancel-false", ("srpc/packet.go", "CallCancel: true", "CallCancel: false"))
M("S09", "start-not-empty", (CRPC, "firstMsgEmpty = len(firstMsg) == 0", "firstMsgEmpty = firstMsg == nil"))
M("S09", "start-always-empty", (CRPC, "\t\tif writeFirstMsg {\n\t\t\tfirstMsgEmpty = len(firstMsg) == 0\n\t\t}", "\t\tfirstMsgEmpty = len(firstMsg) == 0"))
M("S09", "start-swap", (CRPC, "NewCallStartPacket(r.service, r.method,", "NewCallStartPacket(r.method, r.service,"))
M("S09", "start-keeps-writer", (CRPC, "\t\t\tr.ctxCancel()\n\t\t\t_ = writer.Close()\n\t\t}\n\n\t\tbroadcast", "\t\t\tr.ctxCancel()\n\t\t}\n\n\t\tbroadcast"))
M("S09", "start-late-writer", (CRPC, "\t\tr.writer = writer\n", ""), (CRPC, "\t\tbroadcast()\n\t})\n\n\treturn err", "\t\tr.writer = writer\n\t\tbroadcast()\n\t})\n\n\treturn err"))
M("S09", "start-canceled", (CRPC, "if err := r.ctx.Err(); err != nil {", "if err := r.ctx.Err(); err != nil && !writeFirstMsg {"))
M("S09", "start-canceled-open", (CRPC, "\t\tr.ctxCancel()\n\t\t_ = writer.Close()\n\t\treturn context.Canceled", "\t\tr.ctxCancel()\n\t\treturn context.Canceled"))
M("S09", "start-nil-writer", (CRPC, "\tif writer == nil {\n\t\treturn ErrNilWriter\n\t}\n", ""))
R("S09 flags", (COM, "\tdataIsZero := len(data) == 0 && !complete && err == nil\n", "\tvar dataIsZero bool\n\tif len(data) == 0 {\n\t\tdataIsZero = !(complete || err != nil)\n\t}\n"))
R("S09 start helper", (CRPC, "\t\tvar firstMsgEmpty bool\n", "") if 0 else (CRPC, "\t\tpkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)\n\t\terr = writer.WritePacket(pkt)\n\t\tif err != nil {\n\t\t\tr.ctxCancel()\n\t\t\t_ = writer.Close()\n\t\t}\n",
  "\t\terr = r.sendStart(firstMsg, firstMsgEmpty)\n"), (CRPC, "// HandlePacketData handles", "func (r *ClientRPC) sendStart(m []byte, empty bool) error {\n\terr := r.writer.WritePacket(NewCallStartPacket(r.service, r.method, m, empty))\n\tif err == nil {\n\t\treturn nil\n\t}\n\t_ = r.writer.Close()\n\tr.ctxCancel()\n\treturn err\n}\n\n// HandlePacketData handles"))
M("S12", "no-close", (CL, "\tdefer clientRPC.Close()\n", ""))
M("S12", "swap-ids", (CL, "NewClientRPC(ctx, service, method)", "NewClientRPC(ctx, method, service)"))
M("S12", "bg-ctx", (CL, "clientRPC := NewClientRPC(ctx, service, method)\n\tdefer", "clientRPC := NewClientRPC(context.Background(), service, method)\n\tdefer"))
M("S12", "no-first", (CL, "clientRPC.Start(writer, true, firstMsg)", "clientRPC.Start(writer, false, firstMsg)"))
M("S12", "first-len", (CL, "clientRPC.Start(writer, true, firstMsg)", "clientRPC.Start(writer, len(firstMsg) != 0, firstMsg)"))
M("S12", "eof-ok", (CL, "\tmsg, err := clientRPC.ReadOne()\n\tif err != nil {\n", "\tmsg, err := clientRPC.ReadOne()\n\tif err == context.Canceled {\n\t\treturn nil\n\t}\n\tif err != nil {\n"))
M("S12", "decode-ignored", (CL, "if err := out.UnmarshalVT(msg); err != nil {", "if err := out.UnmarshalVT(msg); err != nil && len(msg) != 0 {"))
M("S12", "decode-plain", (CL, "return errors.Wrap(ErrInvalidMessage, err.Error())", "return errors.Wrap(err, \"invalid\")"))
M("S12", "empty-skip", (CL, "\tif err := out.UnmarshalVT(msg); err != nil {\n", "\tif len(msg) == 0 {\n\t\treturn nil\n\t}\n\tif err := out.UnmarshalVT(msg); err != nil {\n"))
M("S12", "no-end", (CL, "clientRPC.HandlePacketData, clientRPC.HandleStreamClose)", "clientRPC.HandlePacketData, func(err error) {\n\t\tif err != nil {\n\t\t\tclientRPC.HandleStreamClose(err)\n\t\t}\n\t})"))
M("S12", "start-err", (CL, "\tif err := clientRPC.Start(writer, true, firstMsg); err != nil {\n\t\treturn err\n\t}\n", "\t_ = clientRPC.Start(writer, true, firstMsg)\n"))
M("S13", "leak", (CL, "\tif err != nil {\n\t\tclientRPC.ctxCancel()\n", "\tif err != nil {\n"))
M("S13", "first-always", (CL, "firstMsg != nil, firstMsgData", "true, firstMsgData"))
M("S13", "first-data", (CL, "firstMsg != nil, firstMsgData", "len(firstMsgData) != 0, firstMsgData"))
M("S13", "ctx", (CL, "NewMsgStream(clientRPC.Context(), clientRPC", "NewMsgStream(ctx, clientRPC"))
M("S13", "no-cancel", (CL, "func() {\n\t\tclientRPC.ctxCancel()\n", "func() {\n"))
M("S13", "no-close", (CL, "\t\t_ = writer.Close()\n\t}), nil", "\t}), nil"))
R("S13 close helper", (CL, "\treturn NewMsgStream(clientRPC.Context(), clientRPC, func() {\n\t\tclientRPC.ctxCancel()\n\t\t_ = writer.Close()\n\t}), nil", "\trelease := func() {\n\t\t_ = writer.Close()\n\t\tclientRPC.ctxCancel()\n\t}\n\tstrm := NewMsgStream(clientRPC.Context(), clientRPC, release)\n\treturn strm, nil"))
R("S12 helper", (CL, "\twriter, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tif err := clientRPC.Start(writer, true, firstMsg); err != nil {\n\t\treturn err\n\t}\n", "\tif err := c.begin(ctx, clientRPC, firstMsg); err != nil {\n\t\treturn err\n\t}\n"), (CL, "// NewStream starts", "func (c *client) begin(ctx context.Context, rpc *ClientRPC, data []byte) error {\n\tw, err := c.openStream(ctx, func(d []byte) error { return rpc.HandlePacketData(d) }, rpc.HandleStreamClose)\n\tif err == nil {\n\t\terr = rpc.Start(w, true, data)\n\t}\n\treturn err\n}\n\n// NewStream starts") if 0 else (CL, "// NewStream starts a streaming RPC with the remote & returns the stream.\n// firstMsg is optional.\nfunc", "func (c *client) begin(ctx context.Context, rpc *ClientRPC, data []byte) error {\n\tw, err := c.openStream(ctx, func(d []byte) error { return rpc.HandlePacketData(d) }, rpc.HandleStreamClose)\n\tif err == nil {\n\t\terr = rpc.Start(w, true, data)\n\t}\n\treturn err\n}\n\n// NewStream starts a streaming RPC with the remote & returns the stream.\n// firstMsg is optional.\nfunc"))
M("S21", "send-canceled", (MS, "\tif err := r.ctx.Err(); err != nil {\n\t\treturn context.Canceled\n\t}\n\n\tmsgData", "\tmsgData"))
M("S21", "send-complete", (MS, "WriteCallData(msgData, false, nil)", "WriteCallData(msgData, len(msgData) == 0, nil)"))
M("S21", "skip-empty", (MS, "\treturn r.rw.WriteCallData(msgData", "\tif len(msgData) == 0 {\n\t\treturn nil\n\t}\n\treturn r.rw.WriteCallData(msgData"))
M("S21", "recv-skip-empty", (MS, "\treturn msg.UnmarshalVT(data)", "\tif len(data) == 0 {\n\t\treturn nil\n\t}\n\treturn msg.UnmarshalVT(data)"))
M("S21", "close-err-cb", (MS, "\tif r.closeCb != nil {\n", "\tif r.closeCb != nil && err == nil {\n"))
M("S21", "closesend-cancel", (MS, "return r.rw.WriteCallData(nil, true, nil)", "return r.rw.WriteCallCancel()"))
R("S21 select", (MS, "\tif err := r.ctx.Err(); err != nil {\n\t\treturn context.Canceled\n\t}\n", "\tselect {\n\tcase <-r.ctx.Done():\n\t\treturn context.Canceled\n\tdefault:\n\t}\n"))
R("S21 defer", (MS, "\terr := r.rw.WriteCallCancel()\n\tif r.closeCb != nil {\n\t\tr.closeCb()\n\t}\n\n\treturn err\n", "\tif r.closeCb != nil {\n\t\tdefer r.closeCb()\n\t}\n\treturn r.rw.WriteCallCancel()\n"))

# ---- S15 - S20
MUX, INV, CS, IP, CP, SP, VC, VM = "srpc/mux.go", "srpc/invoker.go", "srpc/client-set.go", "srpc/invoker-prefix.go", "srpc/client-prefix.go", "srpc/strip-prefix.go", "srpc/client-verbose.go", "srpc/mux-verbose.go"
M("S15", "err-goes-on", (INV, "if found || err != nil {", "if found {"))
M("S15", "swallow", (INV, "return true, err\n", "return true, nil\n"))
M("S15", "skip-first", (INV, "range s {", "range s[min(1, len(s)):] {"))
M("S15", "mux-stop-at-nil", (MUX, "\t\tif invoker != nil {\n\t\t\thandled", "\t\tif invoker == nil {\n\t\t\tbreak\n\t\t}\n\t\t{\n\t\t\thandled"))
M("S15", "mux-err-next", (MUX, "if err != nil || handled {", "if handled {"))
M("S15", "mux-last-only", (MUX, "range m.fallback {", "range m.fallback[:min(1, len(m.fallback))] {"))
M("S15", "swap", (INV, "return f(serviceID, methodID, strm)", "return f(methodID, serviceID, strm)"))
M("S15", "nil-func", (INV, "\tif f == nil {\n\t\treturn false, nil\n\t}\n", ""))
M("S15", "nil-func-true", (INV, "\tif f == nil {\n\t\treturn false, nil\n\t}\n", "\tif f == nil {\n\t\treturn true, nil\n\t}\n"))
M("S15", "not-found-err", (INV, "\t}\n\treturn false, nil\n}\n\n// _ is a", "\t}\n\treturn false, ErrUnimplemented\n}\n\n// _ is a"))
R("S15 index loop", (INV, """	for _, invoker := range s {
		if invoker == nil {
			continue
		}

		found, err := invoker.InvokeMethod(serviceID, methodID, strm)
		if found || err != nil {
			return true, err
		}
	}
	return false, nil""", """	for i := 0; i < len(s); i++ {
		if s[i] != nil {
			found, err := s[i].InvokeMethod(serviceID, methodID, strm)
			if err != nil {
				return true, err
			}
			if found {
				return true, nil
			}
		}
	}
	return false, nil"""))
R("S15 delegate", (MUX, """	for _, invoker := range m.fallback {
		if invoker != nil {
			handled, err := invoker.InvokeMethod(serviceID, methodID, strm)
			if err != nil || handled {
				return handled, err
			}
		}
	}

	return false, nil""", """	return m.invokeFallback(serviceID, methodID, strm)"""), (MUX, "// _ is a type assertion", """func (m *mux) invokeFallback(serviceID, methodID string, strm Stream) (bool, error) {
	for i := range m.fallback {
		inv := m.fallback[i]
		if inv == nil {
			continue
		}
		if handled, err := inv.InvokeMethod(serviceID, methodID, strm); handled || err != nil {
			return handled, err
		}
	}
	return false, nil
}

// _ is a type assertion"""))
R("S15 rest of slice", (INV, "	for _, invoker := range s {\n", "	for rest := s; len(rest) != 0; rest = rest[1:] {\n		invoker := rest[0]\n"))
M("S16", "any-err-next", (CS, "if err.Error() == ErrUnimplemented.Error() {", "if err.Error() == ErrUnimplemented.Error() || err == context.DeadlineExceeded {"))
M("S16", "canceled-next", (CS, "\t\t\tcase <-ctx.Done():\n\t\t\t\treturn context.Canceled\n", "\t\t\tcase <-ctx.Done():\n\t\t\t\tcontinue\n"))
M("S16", "canceled-returns", (CS, "\t\t\tdefault:\n\t\t\t\tcontinue\n", "\t\t\tdefault:\n\t\t\t\treturn err\n"))
M("S16", "skip-first", (CS, "range c.clients {", "range c.clients[min(1, len(c.clients)):] {"))
M("S16", "any-first", (CS, "\t\tif client == nil {\n\t\t\tcontinue\n", "\t\tany = true\n\t\tif client == nil {\n\t\t\tcontinue\n"))
M("S16", "any-late", (CS, "\t\tany = true\n\t\tif err == nil {\n\t\t\treturn nil\n\t\t}\n", "\t\tif err == nil {\n\t\t\treturn nil\n\t\t}\n"), (CS, "if err.Error() == ErrUnimplemented.Error() {\n", "if err.Error() == ErrUnimplemented.Error() {\n\t\t\tany = true\n"))
M("S16", "nil-break", (CS, "\t\tif client == nil {\n\t\t\tcontinue\n", "\t\tif client == nil {\n\t\t\tbreak\n"))
M("S16", "bg", (CS, "client.ExecCall(ctx, service, method, in, out)", "client.ExecCall(context.Background(), service, method, in, out)"))
M("S16", "swap", (CS, "client.ExecCall(ctx, service, method, in, out)", "client.ExecCall(ctx, service, method, out, in)"))
M("S16", "stream-nil", (CS, "\t\tvar err error\n\t\tstrm, err = client", "\t\tstrm, err := client"), (CS, "firstMsg)\n\t\treturn err\n", "firstMsg)\n\t\t_ = strm\n\t\treturn err\n"))
M("S16", "wrong-last", (CS, "\treturn ErrUnimplemented\n", "\treturn ErrNoAvailableClients\n"))
R("S16 inline", (CS, """	var any bool
	for _, client := range c.clients {
		if client == nil {
			continue
		}
		err := doCall(client)
		any = true
		if err == nil {
			return nil
		}
		if err == context.Canceled {
			select {
			case <-ctx.Done():
				return context.Canceled
			default:
				continue
			}
		}
		if err.Error() == ErrUnimplemented.Error() {
			continue
		}
		return err
	}

	if !any {
		return ErrNoAvailableClients
	}

	return ErrUnimplemented
""", """	result := ErrNoAvailableClients
	for i := 0; i < len(c.clients); i++ {
		if c.clients[i] == nil {
			continue
		}
		result = ErrUnimplemented
		err := doCall(c.clients[i])
		if err == nil {
			return nil
		}
		if c.tryNext(ctx, err) {
			continue
		}
		return err
	}
	return result
"""), (CS, "// _ is a type assertion", """func (c *ClientSet) tryNext(ctx context.Context, err error) bool {
	if err == context.Canceled {
		return ctx.Err() == nil
	}
	return err.Error() == ErrUnimplemented.Error()
}

// _ is a type assertion"""))
R("S16 count", (CS, "\tvar any bool\n", "\tvar tried int\n"), (CS, "\t\tany = true\n", "\t\ttried++\n"), (CS, "if !any {", "if tried == 0 {"))
M("S17", "method-only", (MUX, "\t\tsvcMethods := m.services[serviceID]\n\t\tif svcMethods != nil {\n\t\t\thandler = svcMethods[methodID]\n\t\t}\n", "\t\tfor _, svc := range m.services {\n\t\t\tif handler = svc[methodID]; handler != nil {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n"))
M("S17", "fall-through", (MUX, "\t\treturn handler.InvokeMethod(serviceID, methodID, strm)\n", "\t\tif ok, err := handler.InvokeMethod(serviceID, methodID, strm); ok || err != nil {\n\t\t\treturn ok, err\n\t\t}\n"))
M("S17", "swap", (MUX, "return handler.InvokeMethod(serviceID, methodID, strm)", "return handler.InvokeMethod(methodID, serviceID, strm)"))
M("S17", "swallow-err", (MUX, "\t\treturn handler.InvokeMethod(serviceID, methodID, strm)\n", "\t\tok, _ := handler.InvokeMethod(serviceID, methodID, strm)\n\t\treturn ok, nil\n"))
M("S17", "reg-replace", (MUX, "\tif serviceMethods == nil {\n", "\tif len(methodIDs) > len(serviceMethods) {\n"))
M("S17", "reg-first-wins-break", (MUX, "\t\tif methodID != \"\" {\n\t\t\tserviceMethods[methodID] = handler\n\t\t}\n", "\t\tif methodID == \"\" {\n\t\t\tbreak\n\t\t}\n\t\tserviceMethods[methodID] = handler\n"))
M("S17", "reg-keep-old", (MUX, "if methodID != \"\" {", "if methodID != \"\" && serviceMethods[methodID] == nil {"))
M("S17", "reg-empty-method", (MUX, "if methodID != \"\" {", "{"))
M("S17", "reg-no-empty-check", (MUX, "\tif serviceID == \"\" {\n\t\treturn ErrEmptyServiceID\n\t}\n", ""))
M("S17", "reg-empty-late", (MUX, "\tif serviceID == \"\" {\n\t\treturn ErrEmptyServiceID\n\t}\n", ""), (MUX, "\treturn nil\n}\n\n// HasService checks", "\tif serviceID == \"\" {\n\t\treturn ErrEmptyServiceID\n\t}\n\treturn nil\n}\n\n// HasService checks"))
M("S17", "has-inverted", (MUX, "len(m.services[serviceID]) != 0", "len(m.services[serviceID]) > 1"))
M("S17", "hasmethod-any", (MUX, "if mhMethodID == methodID {", "if mhMethodID == methodID || len(handlers) == 1 {"))
M("S17", "hasmethod-first", (MUX, "\t\t\t\treturn true\n\t\t\t}\n\t\t}\n", "\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t\tbreak\n"))
R("S17 lookup helper", (MUX, """	var handler Handler
	m.rmtx.RLock()
	if serviceID == "" {
		for _, svc := range m.services {
			if handler = svc[methodID]; handler != nil {
				break
			}
		}
	} else {
		svcMethods := m.services[serviceID]
		if svcMethods != nil {
			handler = svcMethods[methodID]
		}
	}
	m.rmtx.RUnlock()

	if handler != nil {""", """	handler := m.lookup(serviceID, methodID)
	if handler != nil {"""), (MUX, "// _ is a type assertion", """// lookup finds the handler.
func (m *mux) lookup(serviceID, methodID string) Handler {
	m.rmtx.RLock()
	defer m.rmtx.RUnlock()
	if serviceID != "" {
		return m.services[serviceID][methodID]
	}
	for _, svc := range m.services {
		if h, ok := svc[methodID]; ok && h != nil {
			return h
		}
	}
	return nil
}

// _ is a type assertion"""))
R("S17 has direct", (MUX, """	handlers := m.services[serviceID]
	for _, mh := range handlers {
		for _, mhMethodID := range mh.GetMethodIDs() {
			if mhMethodID == methodID {
				return true
			}
		}
	}

	return false""", """	for _, mh := range m.services[serviceID] {
		if slices.Contains(mh.GetMethodIDs(), methodID) {
			return true
		}
	}
	return false"""), (MUX, "import \"sync\"", "import (\n\t\"slices\"\n\t\"sync\"\n)"))
R("S17 has map", (MUX, """	handlers := m.services[serviceID]
	for _, mh := range handlers {
		for _, mhMethodID := range mh.GetMethodIDs() {
			if mhMethodID == methodID {
				return true
			}
		}
	}

	return false""", """	_, ok := m.services[serviceID][methodID]
	return ok"""))
R("S17 register", (MUX, """	serviceMethods := m.services[serviceID]
	if serviceMethods == nil {
		serviceMethods = make(muxMethods)
		m.services[serviceID] = serviceMethods
	}
	for _, methodID := range methodIDs {
		if methodID != "" {
			serviceMethods[methodID] = handler
		}
	}
""", """	methods, ok := m.services[serviceID]
	if !ok {
		methods = make(muxMethods, len(methodIDs))
		m.services[serviceID] = methods
	}
	for i := range methodIDs {
		if len(methodIDs[i]) == 0 {
			continue
		}
		methods[methodIDs[i]] = handler
	}
"""))
M("S18", "register-unlocked", (MUX, "\tm.rmtx.Lock()\n\tdefer m.rmtx.Unlock()\n\n\tserviceMethods", "\tserviceMethods"))
M("S18", "register-rlock", (MUX, "\tm.rmtx.Lock()\n\tdefer m.rmtx.Unlock()\n\n\tserviceMethods", "\tm.rmtx.RLock()\n\tdefer m.rmtx.RUnlock()\n\n\tserviceMethods"))
M("S18", "invoke-locked", (MUX, "\tm.rmtx.RLock()\n", "\tm.rmtx.RLock()\n\tdefer m.rmtx.RUnlock()\n"), (MUX, "\tm.rmtx.RUnlock()\n\n\tif handler", "\n\tif handler"))
M("S18", "early-unlock", (MUX, "\t\tsvcMethods := m.services[serviceID]\n\t\tif svcMethods != nil {", "\t\tsvcMethods := m.services[serviceID]\n\t\tm.rmtx.RUnlock()\n\t\tm.rmtx.RLock()\n\t\tif svcMethods != nil {") if 0 else (MUX, "\t}\n\tm.rmtx.RUnlock()\n\n\tif handler != nil {\n", "\t}\n\tm.rmtx.RUnlock()\n\tif handler == nil {\n\t\thandler = m.services[\"*\"][methodID]\n\t}\n\n\tif handler != nil {\n"))
M("S18", "leak", (MUX, "\tm.rmtx.Lock()\n\tdefer m.rmtx.Unlock()\n\n\treturn len(m.services[serviceID]) != 0", "\tm.rmtx.Lock()\n\tif len(m.services[serviceID]) == 0 {\n\t\treturn false\n\t}\n\tm.rmtx.Unlock()\n\treturn true"))
R("S18 rlock queries", (MUX, "\tm.rmtx.Lock()\n\tdefer m.rmtx.Unlock()\n\n\treturn len(m.services[serviceID]) != 0", "\tm.rmtx.RLock()\n\tok := len(m.services[serviceID]) > 0\n\tm.rmtx.RUnlock()\n\treturn ok"))
M("S19", "trim-suffix", (SP, "return id[len(matchedPrefix):], matchedPrefix", "return id[len(matchedPrefix)-1:], matchedPrefix"))
M("S19", "last-match", (SP, "\t\t\tmatchedPrefix = prefix\n\t\t\tbreak\n", "\t\t\tmatchedPrefix = prefix\n"))
M("S19", "contains", (SP, "strings.HasPrefix(id, prefix)", "strings.HasSuffix(id, prefix)"))
M("S19", "inv-unstripped", (IP, "\t\tserviceID = strippedID\n", "\t\t_ = strippedID\n"))
M("S19", "cl-unstripped-stream", (CP, "return i.client.NewStream(ctx, service, method, firstMsg)", "return i.client.NewStream(ctx, method, service, firstMsg)"))
M("S19", "cl-nomatch-forward", (CP, "return service, ErrUnimplemented", "return service, nil"))
M("S19", "inv-nomatch-true", (IP, "return false, nil\n\t\t}", "return true, nil\n\t\t}"))
M("S19", "cl-other-err", (CP, "return service, ErrUnimplemented", "return service, ErrNoAvailableClients"))
M("S19", "skip", (SP, "range matchPrefixes {", "range matchPrefixes[:len(matchPrefixes)-1] {"))
R("S19 cut", (SP, """	var matched bool
	for _, prefix := range matchPrefixes {
		matched = strings.HasPrefix(id, prefix)
		if matched {
			matchedPrefix = prefix
			break
		}
	}
	if !matched {
		return id, ""
	}
	return id[len(matchedPrefix):], matchedPrefix""", """	for _, prefix := range matchPrefixes {
		if rest, ok := strings.CutPrefix(id, prefix); ok {
			return rest, prefix
		}
	}
	return id, \"\""""))
R("S19 trim", (SP, """	var matched bool
	for _, prefix := range matchPrefixes {
		matched = strings.HasPrefix(id, prefix)
		if matched {
			matchedPrefix = prefix
			break
		}
	}
	if !matched {
		return id, ""
	}
	return id[len(matchedPrefix):], matchedPrefix""", """	for i := range matchPrefixes {
		if !strings.HasPrefix(id, matchPrefixes[i]) {
			continue
		}
		return strings.TrimPrefix(id, matchPrefixes[i]), matchPrefixes[i]
	}
	return id, \"\""""))
R("S19 inv early", (IP, """	if len(i.serviceIDPrefixes) != 0 {
		strippedID, matchedPrefix := CheckStripPrefix(serviceID, i.serviceIDPrefixes)
		if len(matchedPrefix) == 0 {
			return false, nil
		}
		serviceID = strippedID
	}

	return i.inv""", """	if len(i.serviceIDPrefixes) == 0 {
		return i.inv.InvokeMethod(serviceID, methodID, strm)
	}
	strippedID, matchedPrefix := CheckStripPrefix(serviceID, i.serviceIDPrefixes)
	if matchedPrefix == "" {
		return false, nil
	}
	serviceID = strippedID
	return i.inv"""))
M("S20", "vclient-drop-first", (VC, "c.client.NewStream(ctx, service, method, firstMsg)", "c.client.NewStream(ctx, service, method, nil)"))
M("S20", "vclient-swallow", (VC, "\terr = c.client.ExecCall(ctx, service, method, in, out)\n\treturn err", "\tif err := c.client.ExecCall(ctx, service, method, in, out); err != context.Canceled {\n\t\treturn err\n\t}\n\treturn nil"))
STM, WR = "srpc/stream.go", "srpc/writer.go"
M("S20", "close-short", (STM, "\terr2 := s.closeFn()\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn err2", "\tif err != nil {\n\t\treturn err\n\t}\n\treturn s.closeFn()"))
M("S20", "close-inner-skip", (WR, "\terr := s.PacketWriter.Close()\n\terr2 := s.closeFn()\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn err2", "\tif err := s.closeFn(); err != nil {\n\t\treturn err\n\t}\n\treturn s.PacketWriter.Close()"))
M("S20", "close-drop", (WR, "\tif err != nil {\n\t\treturn err\n\t}\n\treturn err2", "\tif err2 != nil {\n\t\treturn err2\n\t}\n\treturn nil") if 0 else (WR, "\terr := s.PacketWriter.Close()\n\terr2 := s.closeFn()\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn err2", "\t_ = s.PacketWriter.Close()\n\treturn s.closeFn()"))
M("S20", "vmux-cached", ("srpc/mux-verbose.go", "return v.mx.InvokeMethod(serviceID, methodID, strm)", "if !v.mx.HasService(serviceID) {\n\t\treturn false, nil\n\t}\n\treturn v.mx.InvokeMethod(serviceID, methodID, strm)"))
R("S20 join", (STM, "\tif err != nil {\n\t\treturn err\n\t}\n\treturn err2", "\tif err == nil {\n\t\terr = err2\n\t}\n\treturn err"))
R("S20 defer", (WR, "\terr := s.PacketWriter.Close()\n\terr2 := s.closeFn()\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn err2", "\terr2 := s.closeFn()\n\tif err := s.PacketWriter.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn err2"))

# ---- S03 - S08, S10, S11, S14
SRPC, PK = "srpc/server-rpc.go", "srpc/packet.go"
M("S03", "twice", (SRPC, "if r.method != \"\" || r.service != \"\" {", "if r.method == pkt.GetRpcMethod() && r.service == pkt.GetRpcService() {"))
M("S03", "after-end", (SRPC, "\t\tif r.dataClosed {\n\t\t\terr = ErrCompleted\n\t\t\treturn\n\t\t}\n", ""))
M("S03", "no-record", (SRPC, "\t\tr.service, r.method = service, method\n", "\t\tif len(pkt.GetData()) == 0 {\n\t\t\tr.service, r.method = service, method\n\t\t}\n"))
M("S03", "invoke-outside", (SRPC, "\t\tgo r.invokeRPC(service, method)\n\t})\n", "\t})\n\tgo r.invokeRPC(r.service, r.method)\n"))
M("S03", "drop-empty-first", (SRPC, "if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {", "if data := pkt.GetData(); len(data) != 0 {"))
M("S03", "always-first", (SRPC, "if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {", "if data := pkt.GetData(); data != nil || pkt.GetDataIsZero() {"))
M("S03", "swap", (SRPC, "go r.invokeRPC(service, method)", "go r.invokeRPC(method, service)"))
M("S03", "first-late", (SRPC, "\t\t// process first data packet, if included\n\t\tif data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {\n\t\t\tr.dataQueue = append(r.dataQueue, data)\n\t\t}\n", ""), (SRPC, "\treturn err\n}\n\n// invokeRPC", "\tif data := pkt.GetData(); err == nil && (len(data) != 0 || pkt.GetDataIsZero()) {\n\t\tr.bcast.HoldLock(func(broadcast func(), _ func() <-chan struct{}) {\n\t\t\tr.dataQueue = append(r.dataQueue, data)\n\t\t\tbroadcast()\n\t\t})\n\t}\n\treturn err\n}\n\n// invokeRPC"))
R("S03 helper", (SRPC, "\t\tif r.method != \"\" || r.service != \"\" {\n\t\t\terr = errors.New(\"call start must be sent only once\")\n\t\t\treturn\n\t\t}\n\t\tif r.dataClosed {\n\t\t\terr = ErrCompleted\n\t\t\treturn\n\t\t}\n", "\t\tif err = r.checkStartLocked(); err != nil {\n\t\t\treturn\n\t\t}\n"), (SRPC, "// invokeRPC invokes", "func (r *ServerRPC) checkStartLocked() error {\n\tswitch {\n\tcase r.dataClosed:\n\t\treturn ErrCompleted\n\tcase len(r.method) != 0, len(r.service) != 0:\n\t\treturn errors.New(\"call start must be sent only once\")\n\tdefault:\n\t\treturn nil\n\t}\n}\n\n// invokeRPC invokes"))
M("S04", "ok-on-err", (SRPC, "if err == nil && !ok {", "if !ok {"))
M("S04", "unimpl-dropped", (SRPC, "\tif err == nil && !ok {\n\t\terr = ErrUnimplemented\n\t}\n", "\t_ = ok\n"))
M("S04", "not-complete-on-err", (SRPC, "NewCallDataPacket(nil, false, true, err)", "NewCallDataPacket(nil, false, err == nil, nil)"))
M("S04", "no-close-on-write-err", (SRPC, "\t_ = r.writer.WritePacket(outPkt)\n\t_ = r.writer.Close()\n", "\tif r.writer.WritePacket(outPkt) == nil {\n\t\t_ = r.writer.Close()\n\t}\n"))
M("S04", "cancel-skip", (SRPC, "\tif err == nil && !ok {\n", "\tif r.ctx.Err() != nil {\n\t\treturn\n\t}\n\tif err == nil && !ok {\n"))
M("S04", "close-first", (SRPC, "\t_ = r.writer.WritePacket(outPkt)\n\t_ = r.writer.Close()\n", "\t_ = r.writer.Close()\n\t_ = r.writer.WritePacket(outPkt)\n"))
M("S04", "zero-flag", (SRPC, "NewCallDataPacket(nil, false, true, err)", "NewCallDataPacket(nil, true, true, err)"))
M("S04", "packet-err", (PK, "\tif err != nil {\n\t\terrStr = err.Error()\n\t}\n", "\tif err != nil && !complete {\n\t\terrStr = err.Error()\n\t}\n"))
R("S04 defer", (SRPC, "\t_ = r.writer.WritePacket(outPkt)\n\t_ = r.writer.Close()\n\tr.ctxCancel()\n", "\tdefer r.ctxCancel()\n\tdefer r.writer.Close()\n\t_ = r.writer.WritePacket(outPkt)\n"))
R("S04 inline packet", (SRPC, "\toutPkt := NewCallDataPacket(nil, false, true, err)\n\t_ = r.writer.WritePacket(outPkt)\n", "\tout := &CallData{Complete: true}\n\tif err != nil {\n\t\tout.Error = err.Error()\n\t}\n\t_ = r.writer.WritePacket(&Packet{Body: &Packet_CallData{CallData: out}})\n"))
M("S05", "wait-unlocked", (COM, "\t\tif rpcEnded {\n", "\t\tif rpcEnded || c.dataClosed {\n"))
M("S05", "queue-unlocked", (COM, "\t\tif data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {\n\t\t\tc.dataQueue = append(c.dataQueue, data)\n\t\t}\n\n\t\tcomplete", "\t\tcomplete"), (COM, "\tvar err error\n\tc.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {\n\t\tif c.dataClosed {", "\tif data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {\n\t\tc.dataQueue = append(c.dataQueue, data)\n\t}\n\tvar err error\n\tc.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {\n\t\tif c.dataClosed {"))
M("S05", "double-lock", (COM, "\t\t\t\tc.closeLocked(broadcast)\n", "\t\t\t\tc.HandleStreamClose(context.Canceled)\n"))
M("S06", "no-broadcast-data", (COM, "\t\tif complete {\n\t\t\tc.dataClosed = true\n\t\t}\n\n\t\tbroadcast()\n", "\t\tif complete {\n\t\t\tc.dataClosed = true\n\t\t\tbroadcast()\n\t\t}\n"))
M("S06", "no-broadcast-close", (COM, "\t\t\t_ = c.writer.Close()\n\t\t}\n\t\tbroadcast()\n\t})", "\t\t\t_ = c.writer.Close()\n\t\t\tbroadcast()\n\t\t}\n\t})"))
M("S06", "waitch-late", (COM, "\t\t\twaitCh = getWaitCh()\n\t\t})\n\n\t\tif hasMsg", "\t\t})\n\t\tc.bcast.HoldLock(func(_ func(), getWaitCh func() <-chan struct{}) {\n\t\t\twaitCh = getWaitCh()\n\t\t})\n\n\t\tif hasMsg"))
M("S06", "wait-ignores-ctx", (COM, "\t\tcase <-ctx.Done():\n\t\t\treturn context.Canceled\n\t\tcase <-rpcCtx.Done():\n", "\t\tcase <-rpcCtx.Done():\n"))
M("S06", "read-ignores-ctx", (COM, "\t\tselect {\n\t\tcase <-c.ctx.Done():\n\t\t\tctxDone = true\n\t\tcase <-waitCh:\n\t\t}\n", "\t\t<-waitCh\n\t\tctxDone = c.ctx.Err() != nil\n"))
M("S06", "client-close-nobcast", (CRPC, "\t\tr.ctxCancel()\n\t\tbroadcast()\n\t})\n}\n\n// HandlePacket handles", "\t\tr.ctxCancel()\n\t\tif closeErr != nil {\n\t\t\tbroadcast()\n\t\t}\n\t})\n}\n\n// HandlePacket handles"))
M("S07", "lifo", (COM, "msg = c.dataQueue[0]", "msg = c.dataQueue[len(c.dataQueue)-1]"))
M("S07", "not-removed", (COM, "\t\t\t\tc.dataQueue = c.dataQueue[1:]\n", "\t\t\t\tif len(c.dataQueue) > 1 || c.dataClosed {\n\t\t\t\t\tc.dataQueue = c.dataQueue[1:]\n\t\t\t\t}\n"))
M("S07", "err-first", (COM, "if len(c.dataQueue) != 0 {", "if len(c.dataQueue) != 0 && c.remoteErr == nil {"))
M("S07", "err-masked", (COM, "\t\t\t\terr = c.remoteErr\n\t\t\t\tif err == nil {", "\t\t\t\terr = c.remoteErr\n\t\t\t\tif err == nil || err == context.Canceled {"))
M("S07", "cancel-first", (COM, "if ctxDone && !c.dataClosed {", "if ctxDone {"))
M("S07", "two-removed", (COM, "c.dataQueue = c.dataQueue[1:]", "c.dataQueue = c.dataQueue[min(2, len(c.dataQueue)):]"))
M("S07", "skip-empty", (COM, "\t\tif hasMsg {\n\t\t\treturn msg, nil", "\t\tif hasMsg && len(msg) != 0 {\n\t\t\treturn msg, nil"))
M("S07", "nil-early", (COM, "\t\t\t\tmsg = c.dataQueue[0]\n\t\t\t\thasMsg = true\n\t\t\t\tc.dataQueue[0] = nil\n", "\t\t\t\tc.dataQueue[0] = nil\n\t\t\t\tmsg = c.dataQueue[0]\n\t\t\t\thasMsg = true\n"))
R("S07 pop helper", (COM, "\t\t\tif len(c.dataQueue) != 0 {\n\t\t\t\tmsg = c.dataQueue[0]\n\t\t\t\thasMsg = true\n\t\t\t\tc.dataQueue[0] = nil\n\t\t\t\tc.dataQueue = c.dataQueue[1:]\n\t\t\t} else if", "\t\t\tif msg, hasMsg = c.popLocked(); hasMsg {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif"), (COM, "// WriteCallData writes", "func (c *commonRPC) popLocked() ([]byte, bool) {\n\tif len(c.dataQueue) == 0 {\n\t\treturn nil, false\n\t}\n\tm := c.dataQueue[0]\n\tc.dataQueue = c.dataQueue[1:]\n\treturn m, true\n}\n\n// WriteCallData writes"))
R("S07 switch", (COM, """			if len(c.dataQueue) != 0 {
				msg = c.dataQueue[0]
				hasMsg = true
				c.dataQueue[0] = nil
				c.dataQueue = c.dataQueue[1:]
			} else if c.dataClosed || c.remoteErr != nil {
				err = c.remoteErr
				if err == nil {
					err = io.EOF
				}
			}

			waitCh = getWaitCh()""", """			switch {
			case len(c.dataQueue) > 0:
				msg, c.dataQueue = c.dataQueue[0], c.dataQueue[1:]
				hasMsg = true
			case c.remoteErr != nil:
				err = c.remoteErr
			case c.dataClosed:
				err = io.EOF
			default:
				waitCh = getWaitCh()
			}"""))
M("S08", "empty-dropped", (COM, "len(data) != 0 || pkt.GetDataIsZero() {\n\t\t\tc.dataQueue = append(c.dataQueue, data)\n\t\t}\n\n\t\tcomplete", "len(data) != 0 {\n\t\t\tc.dataQueue = append(c.dataQueue, data)\n\t\t}\n\n\t\tcomplete"))
M("S08", "err-not-end", (COM, "\t\t\tcomplete = true\n", ""))
M("S08", "complete-ignored-with-data", (COM, "complete := pkt.GetComplete()", "complete := pkt.GetComplete() && len(pkt.GetData()) == 0"))
M("S08", "err-drops-data", (COM, "\t\t\tc.remoteErr = errors.New(err)\n", "\t\t\tc.remoteErr = errors.New(err)\n\t\t\tc.dataQueue = nil\n"))
M("S08", "err-text", (COM, "c.remoteErr = errors.New(err)", "c.remoteErr = errors.New(err[1:])"))
M("S08", "late-ok", (COM, "\t\t\terr = ErrCompleted\n\t\t\treturn\n\t\t}\n\n\t\tif data", "\t\t\treturn\n\t\t}\n\n\t\tif data"))
R("S08 helper", (COM, "\t\tif data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {\n\t\t\tc.dataQueue = append(c.dataQueue, data)\n\t\t}\n\n\t\tcomplete", "\t\tc.pushLocked(pkt.GetData(), pkt.GetDataIsZero())\n\n\t\tcomplete"), (COM, "// WriteCallCancel writes", "func (c *commonRPC) pushLocked(data []byte, zero bool) {\n\tif len(data) == 0 && !zero {\n\t\treturn\n\t}\n\tc.dataQueue = append(c.dataQueue, data)\n}\n\n// WriteCallCancel writes"))
R("S08 order", (COM, """		complete := pkt.GetComplete()
		if err := pkt.GetError(); len(err) != 0 {
			complete = true
			c.remoteErr = errors.New(err)
		}

		if complete {
			c.dataClosed = true
		}
""", """		if msg := pkt.GetError(); msg != "" {
			c.remoteErr = errors.New(msg)
		}
		c.dataClosed = pkt.GetComplete() || c.remoteErr != nil
""") if 0 else (COM, """		complete := pkt.GetComplete()
		if err := pkt.GetError(); len(err) != 0 {
			complete = true
			c.remoteErr = errors.New(err)
		}

		if complete {
			c.dataClosed = true
		}
""", """		msg := pkt.GetError()
		if msg != "" {
			c.remoteErr = errors.New(msg)
		}
		if msg != "" || pkt.GetComplete() {
			c.dataClosed = true
		}
"""))
M("S10", "nil-writer", (COM, "\t\tif c.writer != nil {\n\t\t\t_ = c.writer.Close()\n\t\t}\n\t\tbroadcast()\n\t})", "\t\t_ = c.writer.Close()\n\t\tbroadcast()\n\t})"))
M("S10", "no-cancel", (COM, "\t\tc.dataClosed = true\n\t\tc.ctxCancel()\n", "\t\tc.dataClosed = true\n\t\tif closeErr != nil {\n\t\t\tc.ctxCancel()\n\t\t}\n"))
M("S10", "client-no-cancel", (CRPC, "\t\tr.dataClosed = true\n\t\tr.ctxCancel()\n", "\t\tif !r.dataClosed {\n\t\t\tr.ctxCancel()\n\t\t}\n\t\tr.dataClosed = true\n") if 0 else (CRPC, "\t\tr.dataClosed = true\n\t\tr.ctxCancel()\n", "\t\tr.dataClosed = true\n"))
M("S10", "close-nocancelpkt", (CRPC, "\t\t\t_ = r.WriteCallCancel()\n\t\t\tr.closeLocked(broadcast)\n", "\t\t\tif !r.dataClosed || r.remoteErr == nil {\n\t\t\t\t_ = r.WriteCallCancel()\n\t\t\t}\n\t\t\tr.closeLocked(broadcast)\n"))
M("S10", "close-keeps-writer", (COM, "\t// the writer is nil until the call was started.\n\tif c.writer != nil {\n\t\t_ = c.writer.Close()\n\t}\n\tbroadcast()\n\tc.ctxCancel()", "\tbroadcast()\n\tc.ctxCancel()"))
M("S10", "close-unstarted", (CRPC, "\t\t} else {\n\t\t\tr.ctxCancel()\n\t\t}\n", "\t\t}\n"))
M("S10", "cancel-noop", (COM, "\tc.HandleStreamClose(context.Canceled)\n\treturn nil\n", "\tif c.ctx.Err() == nil {\n\t\tc.ctxCancel()\n\t}\n\treturn nil\n"))
R("S10 close", (CRPC, """		if r.writer != nil {
			_ = r.WriteCallCancel()
			r.closeLocked(broadcast)
		} else {
			r.ctxCancel()
		}
""", """		defer r.ctxCancel()
		if r.writer == nil {
			return
		}
		_ = r.writer.WritePacket(NewCallCancelPacket())
		r.closeLocked(broadcast)
"""))
M("S11", "late-err", (COM, "if closeErr != nil && c.remoteErr == nil && !c.dataClosed {", "if closeErr != nil && c.remoteErr == nil {"))
M("S11", "client-late-err", (CRPC, "if closeErr != nil && r.remoteErr == nil && !r.dataClosed {", "if closeErr != nil && r.remoteErr == nil {"))
M("S11", "overwrite", (COM, "if c.remoteErr == nil && !c.dataClosed {\n\t\tc.remoteErr", "if !c.dataClosed {\n\t\tc.remoteErr") if 0 else (COM, "\tif c.remoteErr == nil && !c.dataClosed {\n\t\tc.remoteErr = context.Canceled\n\t}\n", "\tc.remoteErr = context.Canceled\n"))
M("S11", "reopen", (COM, "\t\tif complete {\n\t\t\tc.dataClosed = true\n\t\t}\n", "\t\tc.dataClosed = complete\n"), (COM, "\t\tif c.dataClosed {\n\t\t\terr = ErrCompleted\n\t\t\treturn\n\t\t}\n", "\t\tif c.dataClosed && c.remoteErr != nil {\n\t\t\terr = ErrCompleted\n\t\t\treturn\n\t\t}\n"))
M("S11", "data-after-end", (COM, "\t\tif c.dataClosed {\n\t\t\terr = ErrCompleted\n\t\t\treturn\n\t\t}\n", "\t\tif c.dataClosed && c.ctx.Err() != nil {\n\t\t\terr = ErrCompleted\n\t\t\treturn\n\t\t}\n"))
R("S11 helper", (COM, "\t\tif closeErr != nil && c.remoteErr == nil && !c.dataClosed {\n\t\t\tc.remoteErr = closeErr\n\t\t}\n\t\tc.dataClosed = true\n", "\t\tc.endLocked(closeErr)\n"), (CRPC, "\t\tif closeErr != nil && r.remoteErr == nil && !r.dataClosed {\n\t\t\tr.remoteErr = closeErr\n\t\t}\n\t\tr.dataClosed = true\n", "\t\tr.endLocked(closeErr)\n"), (COM, "// HandleCallCancel handles", "func (c *commonRPC) endLocked(err error) {\n\tif c.dataClosed {\n\t\treturn\n\t}\n\tc.dataClosed = true\n\tif c.remoteErr == nil {\n\t\tc.remoteErr = err\n\t}\n}\n\n// HandleCallCancel handles"))
M("S14", "no-validate-client", (CRPC, "\tif err := msg.Validate(); err != nil {\n\t\treturn err\n\t}\n", ""))
M("S14", "no-validate-server", (SRPC, "\tif err := msg.Validate(); err != nil {\n\t\treturn err\n\t}\n", "\tif err := msg.Validate(); err == ErrUnrecognizedPacket {\n\t\treturn err\n\t}\n"))
M("S14", "validate-svc", (PK, "\tif len(service) == 0 {\n\t\treturn ErrEmptyServiceID\n\t}\n", "\tif len(service) == 0 && len(p.GetData()) == 0 {\n\t\treturn ErrEmptyServiceID\n\t}\n"))
M("S14", "validate-zero", (PK, " && !p.GetDataIsZero() {", " {"))
M("S14", "validate-data", (PK, "len(p.GetData()) == 0 && !p.GetComplete() && len(p.GetError()) == 0 && !p.GetDataIsZero()", "len(p.GetData()) == 0 && !p.GetComplete() && len(p.GetError()) == 0 && !p.GetDataIsZero() && p.Data == nil"))
M("S14", "decode-ignored", (SRPC, "\tif err := msg.UnmarshalVT(data); err != nil {\n\t\treturn err\n\t}\n", "\tif err := msg.UnmarshalVT(data); err != nil && len(data) != 0 {\n\t\treturn err\n\t}\n"))
M("S14", "cancel-false", (SRPC, "\t\tif b.CallCancel {\n\t\t\treturn r.HandleCallCancel()\n\t\t}\n\t\treturn nil\n", "\t\treturn r.HandleCallCancel()\n"))
M("S14", "client-start", (CRPC, "return errors.Wrap(ErrUnrecognizedPacket, \"call start packet unexpected\")", "r.HandleStreamClose(ErrUnrecognizedPacket)\n\treturn errors.Wrap(ErrUnrecognizedPacket, \"call start packet unexpected\")"))
M("S14", "client-start-ok", (CRPC, "\treturn errors.Wrap(ErrUnrecognizedPacket, \"call start packet unexpected\")", "\tif len(pkt.GetData()) == 0 {\n\t\treturn nil\n\t}\n\treturn errors.Wrap(ErrUnrecognizedPacket, \"call start packet unexpected\")"))
R("S14 ifs", (SRPC, """	switch b := msg.GetBody().(type) {
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			return r.HandleCallCancel()
		}
		return nil
	default:
		return nil
	}
""", """	if start, ok := msg.GetBody().(*Packet_CallStart); ok {
		return r.HandleCallStart(start.CallStart)
	}
	if data, ok := msg.GetBody().(*Packet_CallData); ok {
		return r.HandleCallData(data.CallData)
	}
	if msg.GetCallCancel() {
		return r.HandleCallCancel()
	}
	return nil
"""))
R("S14 validate order", (PK, """	method := p.GetRpcMethod()
	if len(method) == 0 {
		return ErrEmptyMethodID
	}
	service := p.GetRpcService()
	if len(service) == 0 {
		return ErrEmptyServiceID
	}
	return nil
""", """	if p.GetRpcService() == "" {
		return ErrEmptyServiceID
	}
	if p.GetRpcMethod() == "" {
		return ErrEmptyMethodID
	}
	return nil
"""), (PK, """	if len(p.GetData()) == 0 && !p.GetComplete() && len(p.GetError()) == 0 && !p.GetDataIsZero() {
		return ErrEmptyPacket
	}
	return nil
""", """	if len(p.GetData()) != 0 || p.GetDataIsZero() || p.GetComplete() || p.GetError() != "" {
		return nil
	}
	return ErrEmptyPacket
"""))
R("S14 handler wrap", (CRPC, "	pkt := &Packet{}\n	if err := pkt.UnmarshalVT(data); err != nil {\n		return err\n	}\n	return r.HandlePacket(pkt)\n", "	return NewPacketDataHandler(r.HandlePacket)(data)\n"))

# ---- raw messages and byte streams
MSG, SRWC, RRW = "srpc/message.go", "srpc/stream-rwc.go", "rpcstream/read-writer.go"
M("S22", "set-nolen", (MSG, "\t\t\tm.data = m.data[:len(data)]\n", "\t\t\tm.data = m.data[:cap(m.data)]\n"))
M("S22", "set-short", (MSG, "\t\tif cap(m.data) >= len(data) {\n", "\t\tif len(m.data) >= len(data) && cap(m.data) != 0 {\n\t\t\tm.data = m.data[:len(m.data)]\n\t\t} else if cap(m.data) >= len(data) {\n"))
M("S22", "set-alias", (MSG, "\tif m.copy {\n\t\tif cap", "\tif m.copy && len(data) < 4096 {\n\t\tif cap"))
M("S22", "set-oob", (MSG, "cap(m.data) >= len(data)", "cap(m.data)+1 >= len(data)"))
M("S22", "unmarshal-empty", (MSG, "\tm.SetData(data)\n\treturn nil", "\tif len(data) != 0 {\n\t\tm.SetData(data)\n\t}\n\treturn nil"))
M("S22", "marshal-alias", (MSG, "\tif !m.copy {\n\t\treturn", "\tif !m.copy || len(m.data) == 0 {\n\t\treturn"))
M("S22", "marshal-alias2", (MSG, "\tdata := make([]byte, len(m.data))\n\tcopy(data, m.data)\n\treturn data, nil", "\tdata := append(m.data[:0], m.data...)\n\treturn data, nil"))
M("S22", "marshal-short", (MSG, "\tcopy(data, m.data)\n\treturn data, nil", "\tn := copy(data, m.data)\n\treturn data[:n/2], nil"))
M("S22", "sized-prefix", (MSG, "len(dAtA) != len(m.data)", "len(dAtA) < len(m.data)"))
M("S22", "size", (MSG, "\treturn len(m.data)\n", "\treturn cap(m.data)\n"))
M("S22", "reset-keeps", (MSG, "\tm.data = nil\n", "\tm.data = m.data[:0]\n"))
M("S22", "clear-releases", (MSG, "\tm.data = m.data[:0]\n", "\tm.data = nil\n"))
M("S22", "ctor-copy", (MSG, "&RawMessage{data: data, copy: copy}", "&RawMessage{data: data, copy: copy && len(data) != 0}"))
R("S22 append", (MSG, "\t\tif cap(m.data) >= len(data) {\n\t\t\tm.data = m.data[:len(data)]\n\t\t} else {\n\t\t\tm.data = make([]byte, len(data))\n\t\t}\n\t\tcopy(m.data, data)\n", "\t\tm.data = append(m.data[:0], data...)\n"), (MSG, "\tdata := make([]byte, len(m.data))\n\tcopy(data, m.data)\n\treturn data, nil", "\treturn append(make([]byte, 0, len(m.data)), m.data...), nil"))
R("S22 helper", (MSG, "\t\tif cap(m.data) >= len(data) {\n\t\t\tm.data = m.data[:len(data)]\n\t\t} else {\n\t\t\tm.data = make([]byte, len(data))\n\t\t}\n\t\tcopy(m.data, data)\n\t} else {\n\t\tm.data = data\n\t}\n}\n", "\t\tm.grow(len(data))\n\t\tcopy(m.data, data)\n\t\treturn\n\t}\n\tm.data = data\n}\n\nfunc (m *RawMessage) grow(n int) {\n\tif n > cap(m.data) {\n\t\tm.data = make([]byte, n)\n\t\treturn\n\t}\n\tm.data = m.data[:n]\n}\n"), (MSG, "\tcopy(dAtA, m.data)\n\treturn len(dAtA), nil", "\treturn copy(dAtA, m.data), nil"))
M("S23", "drop-rest", (SRWC, "\t\t\t\t_, _ = s.buf.Write(data[rn:]) // never returns an error\n", ""))
M("S23", "rest-off", (SRWC, "s.buf.Write(data[rn:])", "s.buf.Write(data[n:])"))
M("S23", "count", (SRWC, "\t\tn += rn\n", "\t\tn = rn\n"))
M("S23", "block", (SRWC, "\t\t\tif n != 0 {\n\t\t\t\t// if we read data to p already, return now.\n\t\t\t\tbreak\n\t\t\t}\n", ""))
M("S23", "overtake", (SRWC, "s.buf.Len() != 0", "s.buf.Len() > 1"))
M("S23", "noadv", (SRWC, "\t\treadBuf = readBuf[rn:]\n", "\t\treadBuf = p[rn:]\n"))
M("S23", "err-eof", (SRWC, "\t\t\tif err := s.MsgRecv(&s.readMsg); err != nil {\n\t\t\t\treturn n, err\n", "\t\t\tif err := s.MsgRecv(&s.readMsg); err != nil {\n\t\t\t\treturn n, io.EOF\n"))
M("S23", "write-chunk", (SRWC, "\ts.writeMsg.SetData(p)\n\terr = s.MsgSend(&s.writeMsg)", "\tif len(p) > 1<<20 {\n\t\tp = p[:1<<20]\n\t}\n\ts.writeMsg.SetData(p)\n\terr = s.MsgSend(&s.writeMsg)"))
M("S23", "write-nocopy", (SRWC, "\trwc.writeMsg.copy = true\n", ""))
M("S23", "read-nocopy", (SRWC, "\trwc.readMsg.copy = true\n", ""))
M("S23", "write-err", (SRWC, "\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn len(p), nil", "\tif err != nil && err != io.ErrShortWrite {\n\t\treturn 0, err\n\t}\n\treturn len(p), nil"))
M("S23", "rs-drop-rest", (RRW, "\t\t\tif rn < len(data) {", "\t\t\tif rn < len(data)-1 {"))
M("S23", "rs-break", (RRW, "\t\t\tif len(data) == 0 {\n\t\t\t\tcontinue", "\t\t\tif len(data) == 0 {\n\t\t\t\tbreak"))
M("S23", "rs-ack", (RRW, "\t\t\tif errStr := pkt.GetAck().GetError(); errStr != \"\" {\n\t\t\t\treturn n, errors.New(errStr)\n\t\t\t}\n", "\t\t\t_ = errors.New\n"))
M("S23", "rs-ack-eof", (RRW, "return n, errors.New(errStr)", "return n, errors.New(\"failed\")"))
M("S23", "rs-write", (RRW, "\tif len(p) == 0 {\n\t\treturn 0, nil", "\tif len(p) <= 1 {\n\t\treturn len(p), nil"))
M("S23", "rs-close", (RRW, "\treturn r.stream.Close()", "\treturn r.stream.CloseSend()"))
R("S23 copy", (SRWC, """			copy(readBuf, data)
			if len(data) > len(readBuf) {
				// we read some of the data, buffer the rest.
				rn = len(readBuf)
				_, _ = s.buf.Write(data[rn:]) // never returns an error
			} else {
				// we read all of data
				rn = len(data)
			}
""", """			rn = copy(readBuf, data)
			if rest := data[rn:]; len(rest) != 0 {
				_, _ = s.buf.Write(rest)
			}
"""))
R("S23 buffer first", (SRWC, """	readBuf := p
	for len(readBuf) != 0 && err == nil {
		var rn int

		// if the buffer has data, read from it.
		if s.buf.Len() != 0 {
			rn, err = s.buf.Read(readBuf)
		} else {
			if n != 0 {
				// if we read data to p already, return now.
				break
			}

			s.readMsg.Clear()
			if err := s.MsgRecv(&s.readMsg); err != nil {
				return n, err
			}
			data := s.readMsg.GetData()
			if len(data) == 0 {
				continue
			}

			// read as much as possible directly to the output
			copy(readBuf, data)
			if len(data) > len(readBuf) {
				// we read some of the data, buffer the rest.
				rn = len(readBuf)
				_, _ = s.buf.Write(data[rn:]) // never returns an error
			} else {
				// we read all of data
				rn = len(data)
			}
		}

		// advance readBuf by rn
		n += rn
		readBuf = readBuf[rn:]
	}
	return n, err
""", """	if len(p) == 0 {
		return 0, nil
	}
	for s.buf.Len() == 0 {
		s.readMsg.Clear()
		if err := s.MsgRecv(&s.readMsg); err != nil {
			return 0, err
		}
		_, _ = s.buf.Write(s.readMsg.GetData())
	}
	return s.buf.Read(p)
"""))
R("S23 index", (RRW, """	readBuf := p
	for len(readBuf) != 0 && err == nil {
		var rn int

		// if the buffer has data, read from it.
		if r.buf.Len() != 0 {
			rn, err = r.buf.Read(readBuf)
		} else {
			if n != 0 {
				// if we read data to p already, return now.
				break
			}

			var pkt *RpcStreamPacket
			pkt, err = r.stream.Recv()
			if err != nil {
				break
			}

			if errStr := pkt.GetAck().GetError(); errStr != "" {
				return n, errors.New(errStr)
			}

			data := pkt.GetData()
			if len(data) == 0 {
				continue
			}

			// read as much as possible directly to the output
			rn = copy(readBuf, data)
			if rn < len(data) {
				// we read some of the data, buffer the rest.
				_, _ = r.buf.Write(data[rn:]) // never returns an error
			}
		}

		// advance readBuf by rn
		n += rn
		readBuf = readBuf[rn:]
	}
	return n, err
""", """	for n < len(p) {
		if r.buf.Len() != 0 {
			rn, err := r.buf.Read(p[n:])
			n += rn
			if err != nil {
				return n, err
			}
			continue
		}
		if n > 0 {
			return n, nil
		}
		data, err := r.next()
		if err != nil {
			return n, err
		}
		n += copy(p[n:], data)
		_, _ = r.buf.Write(data[n:])
	}
	return n, nil
"""), (RRW, "// Close closes the packet rw.", """func (r *RpcStreamReadWriter) next() ([]byte, error) {
	pkt, err := r.stream.Recv()
	if err != nil {
		return nil, err
	}
	if errStr := pkt.GetAck().GetError(); errStr != "" {
		return nil, errors.New(errStr)
	}
	return pkt.GetData(), nil
}

// Close closes the packet rw."""))

# ---- rpc streams
RS, RAW, PROXY, RSW = "rpcstream/rpcstream.go", "rpcstream/raw-stream.go", "rpcstream/proxy.go", "rpcstream/writer.go"
M("S24", "no-close-send", (RS, "\tif err != nil {\n\t\t_ = rpcStream.Close()\n\t\treturn nil, err\n\t}\n\n\t// wait for ack", "\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\t// wait for ack"))
M("S24", "no-close-ack", (RS, "\t\tif err != nil {\n\t\t\t_ = rpcStream.Close()\n\t\t\treturn nil, err\n", "\t\tif err != nil {\n\t\t\treturn nil, err\n"))
M("S24", "ack-err-ignored", (RS, "\t\t\t\tif errStr := b.Ack.GetError(); errStr != \"\" {", "\t\t\t\tif errStr := b.Ack.GetError(); len(errStr) > 1 {"))
M("S24", "any-packet", (RS, "\t\t\tdefault:\n\t\t\t\terr = errors.New(\"expected ack packet\")\n", "\t\t\tcase *RpcStreamPacket_Init:\n\t\t\t\terr = errors.New(\"expected ack packet\")\n"))
M("S24", "lost-text", (RS, "errors.Errorf(\"remote: %s\", errStr)", "errors.Errorf(\"remote: %s\", componentID)"))
M("S24", "typed-nil", (RS, "\trpcStream, err := rpcCaller(ctx)\n\tif err != nil {\n\t\treturn nil, err\n\t}", "\trpcStream, err := rpcCaller(ctx)\n\tif err != nil {\n\t\treturn rpcStream, err\n\t}"))
M("S24", "no-wait", (RS, "rw, err := OpenRpcStream(ctx, rpcCaller, componentID, waitAck)", "rw, err := OpenRpcStream(ctx, rpcCaller, componentID, waitAck && closeHandler == nil)"))
M("S24", "bg-ctx", (RS, "rw, err := OpenRpcStream(ctx,", "rw, err := OpenRpcStream(context.Background(),"))
M("S24", "no-close-handler", (RS, "go ReadPump(rw, msgHandler, closeHandler)", "go ReadPump(rw, msgHandler, nil)"))
M("S24", "wrong-id", (RS, "openStream := NewRpcStreamOpenStream(rpcCaller, componentID, waitAck)", "_ = componentID\n\topenStream := NewRpcStreamOpenStream(rpcCaller, \"\", waitAck)"))
R("S24 helpers", (RS, """	if waitAck {
		pkt, err := rpcStream.Recv()
		if err == nil {
			switch b := pkt.GetBody().(type) {
			case *RpcStreamPacket_Ack:
				if errStr := b.Ack.GetError(); errStr != "" {
					err = errors.Errorf("remote: %s", errStr)
				}
			default:
				err = errors.New("expected ack packet")
			}
		}
		if err != nil {
			_ = rpcStream.Close()
			return nil, err
		}
	}
""", """	if waitAck {
		if err := recvAck(rpcStream); err != nil {
			_ = rpcStream.Close()
			return nil, err
		}
	}
"""), (RS, "// NewRpcStreamOpenStream constructs an", """func recvAck(strm RpcStream) error {
	pkt, err := strm.Recv()
	if err != nil {
		return err
	}
	ack, ok := pkt.GetBody().(*RpcStreamPacket_Ack)
	if !ok {
		return errors.New("expected ack packet")
	}
	if errStr := ack.Ack.GetError(); len(errStr) != 0 {
		return errors.New("remote: " + errStr)
	}
	return nil
}

// NewRpcStreamOpenStream constructs an"""), (RS, "\t\tgo ReadPump(rw, msgHandler, closeHandler)\n", "\t\tgo func() {\n\t\t\terr := ReadToHandler(rw, msgHandler)\n\t\t\tif closeHandler != nil {\n\t\t\t\tcloseHandler(err)\n\t\t\t}\n\t\t}()\n"))
R("S24 defer", (RS, """	// write the component id
	err = rpcStream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Init{
			Init: &RpcStreamInit{
				ComponentId: componentID,
			},
		},
	})
	if err != nil {
		_ = rpcStream.Close()
		return nil, err
	}
""", """	opened := false
	defer func() {
		if !opened {
			_ = rpcStream.Close()
		}
	}()
	init := &RpcStreamInit{}
	init.ComponentId = componentID
	if err := rpcStream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: init}}); err != nil {
		return nil, err
	}
"""), (RS, "\t\tif err != nil {\n\t\t\t_ = rpcStream.Close()\n\t\t\treturn nil, err\n\t\t}\n\t}\n\n\treturn rpcStream, nil", "\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n\n\topened = true\n\treturn rpcStream, nil"))
M("S25", "rel-on-success-only", (RS, "\tif muxRel != nil {\n\t\tdefer muxRel()\n\t}\n", "\tif muxRel != nil && err == nil {\n\t\tdefer muxRel()\n\t}\n"))
M("S25", "rel-early", (RS, "\tif muxRel != nil {\n\t\tdefer muxRel()\n\t}\n", "\tif muxRel != nil {\n\t\tmuxRel()\n\t}\n"))
M("S25", "no-notfound", (RS, "\tif err == nil && mux == nil {\n\t\terr = ErrNoServerForComponent\n\t}\n\tif muxRel", "\tif muxRel"))
M("S25", "ack-no-err", (RS, "\tvar errStr string\n\tif err != nil {\n\t\terrStr = err.Error()", "\tvar errStr string\n\tif err != nil && mux != nil {\n\t\terrStr = err.Error()"))
M("S25", "send-err", (RS, "\tif sendErr != nil {\n\t\treturn sendErr\n\t}\n", "\t_ = sendErr\n"))
M("S25", "nil-init", (RS, "if !ok || initInner.Init == nil {", "if !ok {"))
M("S25", "no-pump-close", (RS, "go ReadPump(stream, serverRPC.HandlePacketData, serverRPC.HandleStreamClose)", "go ReadPump(stream, serverRPC.HandlePacketData, nil)"))
M("S25", "no-wait", (RS, "\treturn serverRPC.Wait(ctx)", "\t_ = serverRPC.Wait(ctx)\n\treturn nil"))
M("S25", "ack-late", (RS, "\tserverRPC := srpc.NewServerRPC(ctx, mux, NewRpcStreamWriter(stream))", "\tserverRPC := srpc.NewServerRPC(context.Background(), mux, NewRpcStreamWriter(stream))"))
M("S25", "shared-id", (RS, "getter(ctx, componentID)\n\tif err == nil && mux", "getter(ctx, initPkt.GetInit().String())\n\t_ = componentID\n\tif err == nil && mux"))
R("S25 helper", (RS, """	initPkt, err := stream.Recv()
	if err != nil {
		return err
	}
	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || initInner.Init == nil {
		return ErrUnexpectedPacket
	}
""", """	initMsg, err := recvInit(stream)
	if err != nil {
		return err
	}
"""), (RS, "	componentID := initInner.Init.GetComponentId()\n", "	componentID := initMsg.GetComponentId()\n"), (RS, "// HandleRpcStream handles", """func recvInit(stream RpcStream) (*RpcStreamInit, error) {
	pkt, err := stream.Recv()
	if err != nil {
		return nil, err
	}
	msg := pkt.GetInit()
	if msg == nil {
		return nil, ErrUnexpectedPacket
	}
	return msg, nil
}

// HandleRpcStream handles"""), (RS, """	if muxRel != nil {
		defer muxRel()
	}
""", """	defer func() {
		if muxRel != nil {
			muxRel()
		}
	}()
"""))
M("S26", "rel-missing", (RAW, "\tif remoteRwcRel != nil {\n\t\tdefer", "\tif remoteRwcRel != nil && remoteRwc != nil {\n\t\tdefer"))
M("S26", "no-close", (RAW, "\tif remoteRwc != nil {\n\t\tdefer remoteRwc.Close()\n\t}\n", ""))
M("S26", "one-way", (RAW, "\tgo copyRwcTo(srw, remoteRwc, errCh)\n", "\tgo copyRwcTo(remoteRwc, srw, errCh)\n"))
M("S26", "wait-one", (RAW, "for i := 0; i < 2; i++", "for i := 0; i < 1; i++"))
M("S26", "last-err", (RAW, "if err := <-errCh; err != nil && outErr == nil && err != io.EOF {", "if err := <-errCh; err != nil && err != io.EOF {"))
M("S26", "lost-err", (RAW, "\treturn outErr\n", "\tif outErr == io.ErrUnexpectedEOF {\n\t\treturn nil\n\t}\n\treturn outErr\n"))
M("S26", "s2-open", (RAW, "\t_ = s2.Close()\n", ""))
M("S26", "report", (RAW, "\t\terrCh <- err\n", "\t\tif err != nil {\n\t\t\terrCh <- err\n\t\t}\n"))
M("S26", "ack-before-lookup", (RAW, "\tsendErr := stream.Send(", "\tif remoteRwc != nil {\n\t\terrStr = \"\"\n\t}\n\tsendErr := stream.Send("))
R("S26 inline", (RAW, """	var outErr error
	for i := 0; i < 2; i++ {
		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {
			outErr = err
		}
	}
	return outErr
""", """	outErr := <-errCh
	if outErr == io.EOF {
		outErr = nil
	}
	if err := <-errCh; outErr == nil && err != io.EOF {
		outErr = err
	}
	return outErr
"""), (RAW, """	buf := make([]byte, 8192)
	_, err := io.CopyBuffer(s2, s1, buf)
	_ = s1.Close()
	_ = s2.Close()
	if errCh != nil {
		errCh <- err
	}
""", """	_, err := io.Copy(s2, s1)
	_, _ = s2.Close(), s1.Close()
	errCh <- err
"""))
R("S26 range", (RAW, "for i := 0; i < 2; i++ {", "for range 2 {"), (RAW, "	if remoteRwc != nil {\n		defer remoteRwc.Close()\n	}\n", "	defer func() {\n		if remoteRwc != nil {\n			_ = remoteRwc.Close()\n		}\n	}()\n"))
M("S27", "drop-small", (PROXY, "if len(pkt.GetData()) == 0 {", "if len(pkt.GetData()) <= 2 {"))
M("S27", "no-rel", (PROXY, "\tif remoteCallerRel != nil {\n\t\tdefer remoteCallerRel()\n\t}\n\tif err == nil && remoteCaller == nil {\n\t\terr = ErrNoServerForComponent\n\t}\n", "\tif err == nil && remoteCaller == nil {\n\t\terr = ErrNoServerForComponent\n\t}\n\tif remoteCallerRel != nil && err == nil {\n\t\tdefer remoteCallerRel()\n\t}\n"))
M("S27", "own-ack", (PROXY, "\t\treturn err\n\t}\n\n\terrCh := make", "\t\treturn err\n\t}\n\t_ = stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: &RpcAck{}}})\n\n\terrCh := make"))
M("S27", "wrong-id", (PROXY, "ComponentId: remoteComponentID,", "ComponentId: remoteComponentID + componentID,"))
M("S27", "no-ack", (PROXY, "\t\t_ = stream.Send(&RpcStreamPacket{\n\t\t\tBody: &RpcStreamPacket_Ack{\n\t\t\t\tAck: &RpcAck{Error: errStr},\n\t\t\t},\n\t\t})\n", "\t\t_ = errStr\n"))
M("S27", "no-close", (PROXY, "\t\tif remoteStrm != nil {\n\t\t\tdefer remoteStrm.Close()\n\t\t} else if err == nil {", "\t\tif remoteStrm == nil && err == nil {"))
M("S27", "send-err", (PROXY, "\t\t\terr = s2.MsgSend(pkt)\n\t\t\tpkt.Clear()\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n", "\t\t\t_ = s2.MsgSend(pkt)\n\t\t\tpkt.Clear()\n"))
M("S27", "no-report", (PROXY, "\trerr = s2.CloseSend()\n\tif errCh != nil {\n\t\terrCh <- rerr\n\t}\n", "\trerr = s2.CloseSend()\n"), (PROXY, "\tif rerr == nil && s1Err != nil {", "\tif rerr == io.EOF {\n\t\trerr = nil\n\t}\n\tif rerr == nil && s1Err != nil {"))
M("S27", "self-copy", (PROXY, "go copyRpcStreamTo(stream, remoteStrm, errCh)", "go copyRpcStreamTo(stream, stream, errCh)"))
M("S27", "not-closed", (PROXY, "\t\t_ = s2.Close()\n", ""))
R("S27 typed", (PROXY, """	rerr := func() error {
		pkt := srpc.NewRawMessage(nil, true)
		for {
			err := s1.MsgRecv(pkt)
			if err != nil {
				return err
			}
			if len(pkt.GetData()) == 0 {
				continue
			}
			err = s2.MsgSend(pkt)
			pkt.Clear()
			if err != nil {
				return err
			}
		}
	}()
""", """	rerr := forward(s1, s2)
"""), (PROXY, "// copies s1 to s2", """func forward(from, to RpcStream) error {
	for {
		pkt, err := from.Recv()
		if err == nil {
			err = to.Send(pkt)
		}
		if err != nil {
			return err
		}
	}
}

// copies s1 to s2"""), (PROXY, '	"github.com/aperturerobotics/starpc/srpc"\n', ""))
R("S27 close first", (PROXY, """	if rerr != nil {
		if errCh != nil {
			errCh <- rerr
		}
		_ = s2.Close()
		return
	}
""", """	if rerr != nil {
		_ = s2.Close()
		if errCh != nil {
			errCh <- rerr
		}
		return
	}
"""), (PROXY, """	// send the init message
	if err == nil {
		err = remoteStrm.Send(&RpcStreamPacket{
			Body: &RpcStreamPacket_Init{
				Init: &RpcStreamInit{
					ComponentId: remoteComponentID,
				},
			},
		})
	}
""", """	// send the init message
	if err == nil {
		err = sendInit(remoteStrm, remoteComponentID)
	}
"""), (PROXY, "// copies s1 to s2", """func sendInit(strm RpcStream, id string) error {
	return strm.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: &RpcStreamInit{ComponentId: id}}})
}

// copies s1 to s2"""))
M("S28", "skip-one-byte", (RRW, "\t\tdata := pkt.GetData()\n\t\tif len(data) == 0 {\n\t\t\tcontinue\n\t\t}\n\n\t\t// call handler", "\t\tdata := pkt.GetData()\n\t\tif len(data) <= 1 {\n\t\t\tcontinue\n\t\t}\n\n\t\t// call handler"))
M("S28", "cb-err", (RRW, "\t\tif err := cb(data); err != nil {\n\t\t\treturn err\n\t\t}\n", "\t\tif err := cb(data); err != nil && err != io.EOF {\n\t\t\treturn err\n\t\t}\n"))
M("S28", "async", (RRW, "\t\tif err := cb(data); err != nil {\n\t\t\treturn err\n\t\t}\n", "\t\tgo cb(data)\n"))
M("S28", "eof-nil", (RRW, "\t\tpkt, err := strm.Recv()\n\t\tif err != nil {\n\t\t\treturn err\n", "\t\tpkt, err := strm.Recv()\n\t\tif err == io.ErrClosedPipe {\n\t\t\treturn nil\n\t\t}\n\t\tif err != nil {\n\t\t\treturn err\n"))
M("S28", "pump-closed", (RRW, "\tif closed != nil {\n\t\tclosed(err)", "\tif closed != nil && err != io.EOF {\n\t\tclosed(err)"))
M("S28", "close-full", (RSW, "\treturn r.CloseSend()", "\treturn r.RpcStream.Close()"))
M("S28", "write-ack", (RSW, "\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn len(p), nil", "\treturn len(p), err"))
M("S28", "packet-err", (RSW, "\t_, err = r.Write(pktData)\n\treturn err", "\t_, _ = r.Write(pktData)\n\treturn nil"))
R("S28 direct", (RSW, "\t_, err = r.Write(pktData)\n\treturn err", "\tif len(pktData) == 0 {\n\t\treturn nil\n\t}\n\treturn r.send(pktData)"), (RSW, "\terr = r.Send(&RpcStreamPacket{\n\t\tBody: &RpcStreamPacket_Data{\n\t\t\tData: p,\n\t\t},\n\t})\n\tif err != nil {", "\tif err := r.send(p); err != nil {"), (RSW, "// Close closes", "func (r *RpcStreamWriter) send(data []byte) error {\n\tbody := &RpcStreamPacket_Data{Data: data}\n\treturn r.Send(&RpcStreamPacket{Body: body})\n}\n\n// Close closes"))
R("S28 loop", (RRW, """		data := pkt.GetData()
		if len(data) == 0 {
			continue
		}

		// call handler
		if err := cb(data); err != nil {
			return err
		}
""", """		if data := pkt.GetData(); len(data) != 0 {
			if err := cb(data); err != nil {
				return err
			}
		}
"""))

# ---- connections and servers
MC, NET, ACC, PIPE, SRV, HTTP, WSK = "srpc/muxed-conn.go", "srpc/net.go", "srpc/accept.go", "srpc/server-pipe.go", "srpc/server.go", "srpc/server-http.go", "srpc/websocket.go"
M("S29", "dial-role", (NET, "NewMuxedConn(nconn, true, nil)", "NewMuxedConn(nconn, false, nil)"))
M("S29", "ws-role", (WSK, "!isServer, yamuxConf", "isServer, yamuxConf"))
M("S29", "ws-text", (WSK, "websocket.MessageBinary", "websocket.MessageText"))
M("S29", "rwc-role", (MC, "nil, nil, 10), outbound, yamuxConf)", "nil, nil, 10), !outbound, yamuxConf)"))
M("S29", "conf-ignored", (MC, "sess, err = yamux.Server(conn, yamuxConf, nil)", "sess, err = yamux.Server(conn, NewYamuxConfig(), nil)"))
M("S29", "conf-changed", (MC, "	var sess *yamux.Session\n", "	yamuxConf.AcceptBacklog = 512\n	var sess *yamux.Session\n"))
M("S29", "conf-shared", (MC, "	config := *ymuxer.DefaultTransport.Config()\n	config.AcceptBacklog = 512\n	config.EnableKeepAlive = false\n	return &config", "	config := ymuxer.DefaultTransport.Config()\n	config.AcceptBacklog = 512\n	config.EnableKeepAlive = false\n	return config"))
M("S29", "open-ctx", (MC, "conn.OpenStream(ctx)", "conn.OpenStream(context.Background())"))
M("S29", "open-close-lost", (MC, "go rw.ReadPump(msgHandler, closeHandler)", "go rw.ReadPump(msgHandler, nil)"))
M("S29", "open-inline", (MC, "go rw.ReadPump(msgHandler, closeHandler)", "rw.ReadPump(msgHandler, closeHandler)"))
M("S29", "open-timeout", (MC, "timeoutErr.Timeout() && ctx.Err() != nil", "timeoutErr.Timeout()"))
M("S29", "open-two", (MC, "		rw := NewPacketReadWriter(mstrm)\n		go rw", "		mstrm2, err := conn.OpenStream(ctx)\n		if err != nil {\n			return nil, err\n		}\n		rw := NewPacketReadWriter(mstrm2)\n		_ = mstrm\n		go rw"))
R("S29 helper", (MC, """	var sess *yamux.Session
	var err error
	if outbound {
		sess, err = yamux.Client(conn, yamuxConf, nil)
	} else {
		sess, err = yamux.Server(conn, yamuxConf, nil)
	}
	if err != nil {
		return nil, err
	}

	return ymuxer.NewMuxedConn(sess), nil
}
""", """	start := yamux.Server
	if outbound {
		start = yamux.Client
	}
	sess, err := start(conn, yamuxConf, nil)
	if err == nil {
		return ymuxer.NewMuxedConn(sess), nil
	}
	return nil, err
}
"""), (MC, """		rw := NewPacketReadWriter(mstrm)
		go rw.ReadPump(msgHandler, closeHandler)
		return rw, nil
""", """		return startPump(NewPacketReadWriter(mstrm), msgHandler, closeHandler), nil
"""), (MC, "// NewYamuxConfig builds", """// startPump reads in the background.
func startPump(rw *PacketReadWriter, msgHandler PacketDataHandler, closeHandler CloseHandler) PacketWriter {
	go func() {
		rw.ReadPump(msgHandler, closeHandler)
	}()
	return rw
}

// NewYamuxConfig builds"""))
R("S29 ctxerr", (MC, """			timeoutErr, ok := err.(interface{ Timeout() bool })
			if ok && timeoutErr.Timeout() && ctx.Err() != nil {
				return nil, context.Canceled
			}
			return nil, err
""", """			if ctx.Err() != nil {
				if timeoutErr, ok := err.(interface{ Timeout() bool }); ok && timeoutErr.Timeout() {
					err = context.Canceled
				}
			}
			return nil, err
"""))
M("S30", "accept-role", (ACC, "NewMuxedConn(nc, false, yamuxConf)", "NewMuxedConn(nc, true, yamuxConf)"))
M("S30", "accept-stop", (ACC, "			_ = nc.Close()\n			continue\n", "			_ = nc.Close()\n			return err\n"))
M("S30", "accept-leak", (ACC, "			_ = nc.Close()\n			continue\n", "			continue\n"))
M("S30", "accept-sync", (ACC, "		go func() {\n			_ = srv.AcceptMuxedConn(ctx, mc)\n			_ = nc.Close()\n		}()\n", "		_ = srv.AcceptMuxedConn(ctx, mc)\n		_ = nc.Close()\n"))
M("S30", "accept-close", (ACC, "			_ = nc.Close()\n		}()", "		}()"))
M("S30", "accept-close-early", (ACC, "			_ = srv.AcceptMuxedConn(ctx, mc)\n			_ = nc.Close()\n", "			_ = nc.Close()\n			_ = srv.AcceptMuxedConn(ctx, mc)\n"))
M("S30", "accept-conf", (ACC, "NewMuxedConn(nc, false, yamuxConf)", "NewMuxedConn(nc, false, nil)"))
M("S30", "stream-sync", (SRV, "go s.HandleStream(ctx, muxedStream)", "s.HandleStream(ctx, muxedStream)"))
M("S30", "stream-bg", (SRV, "go s.HandleStream(ctx, muxedStream)", "go s.HandleStream(context.Background(), muxedStream)"))
M("S30", "stream-skip-err", (SRV, "		if err != nil {\n			return err\n		}\n		go", "		if err != nil {\n			continue\n		}\n		go"))
M("S30", "no-ctx", (SRV, "		if err := ctx.Err(); err != nil {\n			return context.Canceled\n		}\n", ""))
M("S30", "wrong-eof", (SRV, "			return io.EOF\n", "			return nil\n"))
M("S30", "handle-ctx", (SRV, "NewServerRPC(subCtx,", "_ = subCtx\n\tserverRPC := NewServerRPC(ctx,"), (SRV, "serverRPC := _ = subCtx", "_ = subCtx"))
M("S30", "handle-early", (SRV, "	defer subCtxCancel()\n	prw", "	subCtxCancel()\n	prw"))
M("S30", "handle-close", (SRV, "serverRPC.HandlePacketData, serverRPC.HandleStreamClose)", "serverRPC.HandlePacketData, nil)"))
M("S30", "handle-go", (SRV, "	prw.ReadPump(", "	go prw.ReadPump("))
M("S30", "listen-cap", (NET, "make(chan error, 1)", "make(chan error)"))
M("S30", "listen-close", (NET, "	defer lis.Close()\n", ""), (NET, "		return context.Canceled\n", "		lis.Close()\n		return context.Canceled\n"))
M("S30", "listen-errch", (NET, "	case err := <-errCh:\n		return err\n", ""))
M("S30", "listen-ctx", (NET, "AcceptMuxedListener(ctx,", "AcceptMuxedListener(context.Background(),"))
M("S30", "pipe-same", (PIPE, "clientPrw := NewPacketReadWriter(clientPipe)", "_ = clientPipe\n\t\tclientPrw := NewPacketReadWriter(srvPipe)"))
M("S30", "pipe-shared", (PIPE, "	return func(", "	srvPipe, clientPipe := net.Pipe()\n	return func("), (PIPE, "		srvPipe, clientPipe := net.Pipe()\n", ""))
M("S30", "pipe-bg", (PIPE, "server.HandleStream(ctx, srvPipe)", "server.HandleStream(context.Background(), srvPipe)"))
R("S30 helpers", (ACC, """		nc, err := lis.Accept()
		if err != nil {
			return err
		}

		mc, err := NewMuxedConn(nc, false, yamuxConf)
		if err != nil {
			_ = nc.Close()
			continue
		}

		// serve the connection without blocking the accept loop.
		go func() {
			_ = srv.AcceptMuxedConn(ctx, mc)
			_ = nc.Close()
		}()
	}
}
""", """		nc, err := lis.Accept()
		if err != nil {
			return err
		}
		if mc, err := NewMuxedConn(nc, false, yamuxConf); err != nil {
			_ = nc.Close()
		} else {
			go serveConn(ctx, srv, nc, mc)
		}
	}
}

func serveConn(ctx context.Context, srv *Server, nc net.Conn, mc interface {
	network.MuxedConn
}) {
	defer nc.Close()
	_ = srv.AcceptMuxedConn(ctx, mc)
}
"""), (ACC, '	"github.com/libp2p/go-yamux/v4"\n', '	"github.com/libp2p/go-libp2p/core/network"\n	"github.com/libp2p/go-yamux/v4"\n'),
  (SRV, "	subCtx, subCtxCancel := context.WithCancel(ctx)\n	defer subCtxCancel()\n	prw := NewPacketReadWriter(rwc)\n	serverRPC := NewServerRPC(subCtx, s.invoker, prw)\n	prw.ReadPump(serverRPC.HandlePacketData, serverRPC.HandleStreamClose)\n",
   "	ctx, cancel := context.WithCancel(ctx)\n	defer func() { cancel() }()\n	prw := NewPacketReadWriter(rwc)\n	rpc := NewServerRPC(ctx, s.GetInvoker(), prw)\n	err := prw.ReadToHandler(rpc.HandlePacketData)\n	rpc.HandleStreamClose(err)\n"))
R("S30 order", (SRV, """		if err := ctx.Err(); err != nil {
			return context.Canceled
		}

		if mc.IsClosed() {
			return io.EOF
		}
""", """		if mc.IsClosed() {
			return io.EOF
		}
		select {
		case <-ctx.Done():
			return context.Canceled
		default:
		}
"""), (PIPE, """		srvPipe, clientPipe := net.Pipe()
		go server.HandleStream(ctx, srvPipe)
		clientPrw := NewPacketReadWriter(clientPipe)
		go clientPrw.ReadPump(msgHandler, closeHandler)
		return clientPrw, nil
""", """		clientPipe, srvPipe := net.Pipe()
		go func() { server.HandleStream(ctx, srvPipe) }()
		prw := NewPacketReadWriter(clientPipe)
		go prw.ReadPump(msgHandler, closeHandler)
		return prw, nil
"""), (NET, """	listenErrCh := make(chan error, 1)
	go func() {
		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
	}()

	select {
	case <-ctx.Done():
		return context.Canceled
	case err := <-errCh:
		return err
	case err := <-listenErrCh:
		return err
	}
""", """	done := make(chan error, 2)
	go func() {
		err := AcceptMuxedListener(ctx, lis, srv, nil)
		done <- err
	}()

	var rerr error
	select {
	case rerr = <-done:
	case rerr = <-errCh:
	case <-ctx.Done():
		rerr = context.Canceled
	}
	return rerr
"""))
M("S31", "path-prefix", (HTTP, 's.path != "" && r.URL.Path != s.path', 's.path != "" && len(r.URL.Path) < len(s.path)'))
M("S31", "empty-path", (HTTP, 's.path != "" && r.URL.Path != s.path', 'r.URL.Path != s.path'))
M("S31", "opts", (HTTP, "websocket.Accept(w, r, s.acceptOpts)", "websocket.Accept(w, r, nil)"))
M("S31", "role", (HTTP, "NewWebSocketConn(ctx, c, true, nil)", "NewWebSocketConn(ctx, c, false, nil)"))
M("S31", "leak", (HTTP, '	defer c.Close(websocket.StatusInternalError, "closed")\n', ''))
M("S31", "leak-eof", (HTTP, '	defer c.Close(websocket.StatusInternalError, "closed")\n', ''), (HTTP, "				c.Close(websocket.StatusInternalError, err.Error())\n			}\n", "				c.Close(websocket.StatusInternalError, err.Error())\n				return\n			}\n			_ = wsConn\n"))
M("S31", "sync", (HTTP, "go s.srpc.HandleStream(ctx, strm)", "s.srpc.HandleStream(ctx, strm)"))
M("S31", "bg", (HTTP, "	ctx := r.Context()\n", "	ctx := context.WithoutCancel(r.Context())\n"))
M("S31", "no-mux", (HTTP, "srpc:       NewServer(mux),", "srpc:       NewServer(NewMux()),"))
M("S31", "spin", (HTTP, "				c.Close(websocket.StatusInternalError, err.Error())\n			}\n			return\n", "				c.Close(websocket.StatusInternalError, err.Error())\n				return\n			}\n			continue\n"))
R("S31 helper", (HTTP, """	if s.path != "" && r.URL.Path != s.path {
		return
	}
""", """	if !s.matches(r.URL.Path) {
		return
	}
"""), (HTTP, "func (s *HTTPServer) ServeHTTP(", """func (s *HTTPServer) matches(path string) bool {
	switch s.path {
	case "", path:
		return true
	}
	return false
}

func (s *HTTPServer) ServeHTTP("""), (HTTP, """	defer c.Close(websocket.StatusInternalError, "closed")
""", """	defer func() {
		_ = c.Close(websocket.StatusInternalError, "closed")
	}()
"""), (HTTP, """		strm, err := wsConn.AcceptStream()
		if err != nil {
			if err != io.EOF && err != context.Canceled {
				// TODO: handle / log error?
				c.Close(websocket.StatusInternalError, err.Error())
			}
			return
		}
		go s.srpc.HandleStream(ctx, strm)
""", """		strm, err := wsConn.AcceptStream()
		if err == nil {
			go s.srpc.HandleStream(ctx, strm)
			continue
		}
		switch err {
		case io.EOF, context.Canceled:
		default:
			c.Close(websocket.StatusInternalError, err.Error())
		}
		return
"""))

# ---- S32
RWC = "srpc/rwc-conn.go"
M("S32", "eof-drop", (RWC, "		if n == 0 {\n			p.ar.Put(&pktBuf)\n		} else {", "		if n == 0 || err != nil {\n			p.ar.Put(&pktBuf)\n		} else {"))
M("S32", "whole-buf", (RWC, "p.packetCh <- pktBuf[:n]:", "p.packetCh <- pktBuf:"))
M("S32", "drop-full", (RWC, "			case p.packetCh <- pktBuf[:n]:\n			}", "			case p.packetCh <- pktBuf[:n]:\n			default:\n			}"))
M("S32", "early-put", (RWC, "			case p.packetCh <- pktBuf[:n]:\n			}", "			case p.packetCh <- pktBuf[:n]:\n				p.ar.Put(&pktBuf)\n			}"))
M("S32", "one-buf", (RWC, "	for {\n		select {\n		case <-p.ctx.Done():\n			return p.ctx.Err()", "	pktBuf := p.getArenaBuf(int(connPktSize))\n	for {\n		select {\n		case <-p.ctx.Done():\n			return p.ctx.Err()"), (RWC, "		pktBuf := p.getArenaBuf(int(connPktSize))\n		n, err", "		n, err"), (RWC, "			p.ar.Put(&pktBuf)\n		} else {", "		} else {"))
M("S32", "ignore-err", (RWC, "		if err != nil {\n			return err\n		}\n	}\n}", "		if err == io.EOF {\n			return err\n		}\n	}\n}"))
M("S32", "close-first", (RWC, "		p.closeErr = rerr\n		close(p.packetCh)", "		close(p.packetCh)\n		p.closeErr = rerr"))
M("S32", "no-close-err", (RWC, "		p.closeErr = rerr\n", "		if rerr != io.ErrUnexpectedEOF {\n			p.closeErr = rerr\n		}\n"))
M("S32", "tail-lost", (RWC, "	if n < len(pkt) {\n", "	if n < len(pkt) && n != 0 {\n"))
M("S32", "alias", (RWC, "p.rest = append(p.rest, pkt[n:]...)", "p.rest = pkt[n:]"))
M("S32", "tail-off", (RWC, "pkt[n:]...)", "pkt[len(pkt)-n:]...)"))
M("S32", "put-first", (RWC, "	n = copy(b, pkt)\n	if", "	p.ar.Put(&pkt)\n	n = copy(b, pkt)\n	if"))
M("S32", "rest-again", (RWC, "		p.rest = p.rest[n:]\n", "		if n == len(p.rest) {\n			p.rest = nil\n		}\n"))
M("S32", "unlocked", (RWC, "		p.restMtx.Lock()\n		p.rest = append(p.rest, pkt[n:]...)\n		p.restMtx.Unlock()\n", "		p.rest = append(p.rest, pkt[n:]...)\n"))
M("S32", "leak-lock", (RWC, "		p.rest = p.rest[n:]\n		p.restMtx.Unlock()\n", "		p.rest = p.rest[n:]\n"))
M("S32", "skip-rest", (RWC, "	if len(p.rest) != 0 {", "	if len(p.rest) > 1 {"))
M("S32", "len-pkt", (RWC, "	p.ar.Put(&pkt)\n	return n, nil", "	p.ar.Put(&pkt)\n	return len(pkt), nil"))
M("S32", "eof-nil", (RWC, "			if err == nil {\n				err = io.EOF\n			}\n			return 0, err", "			return 0, err"))
M("S32", "deadline-always", (RWC, "		if p.ctx.Err() == nil {\n			return 0, os.ErrDeadlineExceeded\n		}\n		return 0, context.Canceled", "		return 0, os.ErrDeadlineExceeded"))
M("S32", "canceled-always", (RWC, "if p.ctx.Err() == nil {", "if p.ctx.Err() == os.ErrClosed {"))
M("S32", "deadline-rd", (RWC, "		if p.ctx.Err() == nil {\n			return 0, os.ErrDeadlineExceeded", "		if !deadline.IsZero() {\n			return 0, os.ErrDeadlineExceeded"))
M("S32", "write-n", (RWC, "		written += n\n		if err != nil {\n			return written, err\n		}", "		if err != nil {\n			return written, err\n		}\n		written += n"))
M("S32", "write-once", (RWC, "	for written < len(pkt) {\n		n, err = p.rwc.Write(pkt[written:])\n		written += n\n		if err != nil {\n			return written, err\n		}\n	}\n	return written, nil", "	n, err = p.rwc.Write(pkt[written:])\n	written += n\n	if err != nil {\n		return written, err\n	}\n	return written, nil"))
M("S32", "write-all", (RWC, "p.rwc.Write(pkt[written:])", "p.rwc.Write(pkt)"))
M("S32", "no-cancel", (RWC, "	p.ctxCancel()\n	return p.rwc.Close()", "	return p.rwc.Close()"))
M("S32", "close-nil", (RWC, "	p.ctxCancel()\n	return p.rwc.Close()", "	p.ctxCancel()\n	_ = p.rwc.Close()\n	return nil"))
R("S32 helper", (RWC, "	p.restMtx.Lock()\n	if len(p.rest) != 0 {\n		n = copy(b, p.rest)\n		p.rest = p.rest[n:]\n		p.restMtx.Unlock()\n		return n, nil\n	}\n	deadline := p.rd\n", "	if n, ok := p.readRest(b); ok {\n		return n, nil\n	}\n	p.restMtx.Lock()\n	deadline := p.rd\n"),
  (RWC, "// Write writes data to the connection.", "func (p *RwcConn) readRest(b []byte) (int, bool) {\n	p.restMtx.Lock()\n	defer p.restMtx.Unlock()\n	if len(p.rest) == 0 {\n		return 0, false\n	}\n	n := copy(b, p.rest)\n	p.rest = p.rest[n:]\n	return n, true\n}\n\n// Write writes data to the connection."))
R("S32 copy of the tail", (RWC, "p.rest = append(p.rest, pkt[n:]...)", "p.rest = append([]byte(nil), pkt[n:]...)"))
R("S32 make and copy", (RWC, "		p.rest = append(p.rest, pkt[n:]...)", "		p.rest = make([]byte, len(pkt)-n)\n		copy(p.rest, pkt[n:])"))
R("S32 keep the buffer", (RWC, "	if n < len(pkt) {\n		p.restMtx.Lock()\n		p.rest = append(p.rest, pkt[n:]...)\n		p.restMtx.Unlock()\n	}\n	p.ar.Put(&pkt)\n	return n, nil", "	if n < len(pkt) {\n		p.restMtx.Lock()\n		p.rest = pkt[n:]\n		p.restMtx.Unlock()\n		return n, nil\n	}\n	p.ar.Put(&pkt)\n	return n, nil"))
R("S32 pump helper", (RWC, """		n, err := p.rwc.Read(pktBuf)
		if n == 0 {
			p.ar.Put(&pktBuf)
		} else {
			select {
			case <-p.ctx.Done():
				return context.Canceled
			case p.packetCh <- pktBuf[:n]:
			}
		}
		if err != nil {
			return err
		}
""", """		n, err := p.rwc.Read(pktBuf)
		if n > 0 {
			if perr := p.push(pktBuf[:n]); perr != nil {
				return perr
			}
		} else {
			p.ar.Put(&pktBuf)
		}
		if err == nil {
			continue
		}
		return err
"""), (RWC, "// rxPump receives", "func (p *RwcConn) push(pkt []byte) error {\n	select {\n	case p.packetCh <- pkt:\n		return nil\n	case <-p.ctx.Done():\n		return p.ctx.Err()\n	}\n}\n\n// rxPump receives"))
R("S32 no pool", (RWC, "	p.ar.Put(&pkt)\n	return n, nil", "	return n, nil"), (RWC, "		if n == 0 {\n			p.ar.Put(&pktBuf)\n		} else {", "		if n != 0 {"), (RWC, "pktBuf := p.getArenaBuf(int(connPktSize))", "pktBuf := make([]byte, connPktSize)"))
R("S32 direct pump", (RWC, "	go func() {\n		_ = c.rxPump()\n	}()", "	go c.rxPump()"))
R("S32 write loop", (RWC, "	if len(pkt) == 0 {\n		return 0, nil\n	}\n\n	written := 0\n	for written < len(pkt) {\n		n, err = p.rwc.Write(pkt[written:])\n		written += n\n		if err != nil {\n			return written, err\n		}\n	}\n	return written, nil", "	written := 0\n	for len(pkt) > 0 {\n		w, err := p.rwc.Write(pkt)\n		written += w\n		if err != nil {\n			return written, err\n		}\n		pkt = pkt[w:]\n	}\n	return written, nil"))
R("S32 plain write", (RWC, "	if len(pkt) == 0 {\n		return 0, nil\n	}\n\n	written := 0\n	for written < len(pkt) {\n		n, err = p.rwc.Write(pkt[written:])\n		written += n\n		if err != nil {\n			return written, err\n		}\n	}\n	return written, nil", "	return p.rwc.Write(pkt)"))

# ---- S33
PIPE = "srpc/stream-pipe.go"
M("S33", "self", (PIPE, "s1.other = s2", "s1.other = s1"))
M("S33", "shared-ctx", (PIPE, "s2.ctx, s2.ctxCancel = context.WithCancel(ctx)", "s2.ctx, s2.ctxCancel = s1.ctx, s1.ctxCancel"))
M("S33", "shared-cancel", (PIPE, "s2.ctx, s2.ctxCancel = context.WithCancel(ctx)", "s2.ctx, s2.ctxCancel = context.WithCancel(ctx)\n	s2.ctxCancel = s1.ctxCancel"))
M("S33", "own-ch", (PIPE, "case p.other.dataCh <- data:", "case p.dataCh <- data:"))
M("S33", "no-check", (PIPE, "	select {\n	case <-p.closedCh:\n		return io.ErrClosedPipe\n	default:\n	}\n", ""))
M("S33", "drop-full", (PIPE, "	case p.other.dataCh <- data:\n		return nil\n	}", "	case p.other.dataCh <- data:\n		return nil\n	default:\n		return nil\n	}"))
M("S33", "no-ctx-send", (PIPE, "	case <-p.ctx.Done():\n		return context.Canceled\n	case <-p.closedCh:", "	case <-p.closedCh:"))
M("S33", "eof-early", (PIPE, "		// read any remaining messages first\n		select {\n		case data := <-p.dataCh:\n			return msg.UnmarshalVT(data)\n		default:\n			return io.EOF\n		}", "		return io.EOF"))
M("S33", "own-closed", (PIPE, "case <-p.other.closedCh:", "case <-p.closedCh:"))
M("S33", "drain-drop", (PIPE, "		case data := <-p.dataCh:\n			return msg.UnmarshalVT(data)\n		default:", "		case data := <-p.dataCh:\n			if len(data) == 0 {\n				return io.EOF\n			}\n			return msg.UnmarshalVT(data)\n		default:"))
M("S33", "no-once", (PIPE, "	p.closeOnce.Do(func() {\n		close(p.closedCh)\n	})", "	close(p.closedCh)"))
M("S33", "close-other", (PIPE, "close(p.closedCh)", "close(p.other.closedCh)"))
M("S33", "close-data", (PIPE, "		close(p.closedCh)\n", "		close(p.closedCh)\n		close(p.other.dataCh)\n"))
M("S33", "closesend-cancel", (PIPE, "error {\n	p.closeRemote()\n	return nil\n}", "error {\n	p.ctxCancel()\n	p.closeRemote()\n	return nil\n}"))
M("S33", "close-no-mark", (PIPE, "	p.ctxCancel()\n	p.closeRemote()", "	p.ctxCancel()"))
M("S33", "cancel-other", (PIPE, "	p.ctxCancel()\n	p.closeRemote()", "	p.other.ctxCancel()\n	p.closeRemote()"))
M("S33", "eof-as-cancel", (PIPE, "		default:\n			return io.EOF\n", "		default:\n			return context.Canceled\n"))
R("S33 inline", (PIPE, "	p.ctxCancel()\n	p.closeRemote()", "	defer p.ctxCancel()\n	p.closeOnce.Do(p.markClosed)"), (PIPE, "// _ is a type", "func (p *pipeStream) markClosed() { close(p.closedCh) }\n\n// _ is a type"))
R("S33 helpers", (PIPE, "	select {\n	case <-p.closedCh:\n		return io.ErrClosedPipe\n	default:\n	}\n", "	if p.isClosed() {\n		return io.ErrClosedPipe\n	}\n"), (PIPE, "// _ is a type", "func (p *pipeStream) isClosed() bool {\n	select {\n	case <-p.closedCh:\n		return true\n	default:\n		return false\n	}\n}\n\n// _ is a type"))
R("S33 decode once", (PIPE, """	select {
	case <-p.ctx.Done():
		return context.Canceled
	case data := <-p.dataCh:
		return msg.UnmarshalVT(data)
	case <-p.other.closedCh:
		// read any remaining messages first
		select {
		case data := <-p.dataCh:
			return msg.UnmarshalVT(data)
		default:
			return io.EOF
		}
	}""", """	var data []byte
	select {
	case <-p.ctx.Done():
		return p.ctx.Err()
	case data = <-p.dataCh:
	case <-p.other.closedCh:
		// read any remaining messages first
		select {
		case data = <-p.dataCh:
		default:
			return io.EOF
		}
	}
	return msg.UnmarshalVT(data)"""))
R("S33 check first", (PIPE, "	data, err := msg.MarshalVT()\n	if err != nil {\n		return err\n	}\n	select {\n	case <-p.closedCh:\n		return io.ErrClosedPipe\n	default:\n	}\n", "	select {\n	case <-p.closedCh:\n		return io.ErrClosedPipe\n	default:\n	}\n	data, err := msg.MarshalVT()\n	if err != nil {\n		return err\n	}\n"))
R("S33 ctor", (PIPE, """	s1 := &pipeStream{closedCh: make(chan struct{}), dataCh: make(chan []byte, 5)}
	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
	s2 := &pipeStream{other: s1, closedCh: make(chan struct{}), dataCh: make(chan []byte, 5)}
	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
	s1.other = s2
	return s1, s2
}
""", """	s1, s2 := newPipeEnd(ctx), newPipeEnd(ctx)
	s1.other, s2.other = s2, s1
	return s1, s2
}

func newPipeEnd(ctx context.Context) *pipeStream {
	s := &pipeStream{closedCh: make(chan struct{}), dataCh: make(chan []byte, 5)}
	s.ctx, s.ctxCancel = context.WithCancel(ctx)
	return s
}
"""))

# ---- S34, S35: generated services
ES = "echo/echo_srpc.pb.go"
MS = "mock/mock_srpc.pb.go"
M("S34", "swap", (ES, "return true, d.InvokeMethod_EchoBidiStream(d.impl, strm)", "return true, d.InvokeMethod_EchoClientStream(d.impl, strm)"))
M("S34", "case", (ES, 'case "DoNothing":', 'case "doNothing":'))
M("S34", "id", (MS, 'const SRPCMockServiceID = "e2e.mock.Mock"', 'const SRPCMockServiceID = "mock.Mock"'))
M("S35", "id", (MS, 'const SRPCMockServiceID = "e2e.mock.Mock"', 'const SRPCMockServiceID = "mock.Mock"'))
M("S34", "proto", ("mock/mock.proto", "rpc MockRequest(MockMsg)", "rpc MockRequests(MockMsg)"))
M("S35", "proto", ("mock/mock.proto", "package e2e.mock;", "package e2e.mocks;"))
M("S34", "methods", (ES, '\t\t"RpcStream",\n\t\t"DoNothing",\n', '\t\t"DoNothing",\n'))
M("S34", "methods twice", (ES, '\t\t"RpcStream",\n\t\t"DoNothing",\n', '\t\t"RpcStream",\n\t\t"RpcStream",\n'))
M("S34", "any service", (ES, 'serviceID != "" && serviceID != d.GetServiceID()', 'false'))
M("S34", "empty refused", (ES, 'serviceID != "" && serviceID != d.GetServiceID()', 'serviceID != d.GetServiceID()'))
M("S34", "const id", (ES, 'serviceID != d.GetServiceID()', 'serviceID != SRPCEchoerServiceID'))
M("S34", "given id", (ES, 'if serviceID == "" {\n\t\tserviceID = SRPCEchoerServiceID\n\t}\n\treturn &SRPCEchoerHandler', 'serviceID = SRPCEchoerServiceID\n\treturn &SRPCEchoerHandler'))
M("S34", "req err", (ES, 'if err := strm.MsgRecv(req); err != nil {\n\t\treturn err\n\t}\n\tserverStrm', '_ = strm.MsgRecv(req)\n\tserverStrm'))
M("S34", "out err", (ES, 'out, err := impl.DoNothing(strm.Context(), req)\n\tif err != nil {\n\t\treturn err\n\t}', 'out, _ := impl.DoNothing(strm.Context(), req)'))
M("S34", "no reply", (ES, 'out, err := impl.DoNothing(strm.Context(), req)\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn strm.MsgSend(out)', '_, err := impl.DoNothing(strm.Context(), req)\n\treturn err'))
M("S34", "reply req", (ES, 'out, err := impl.Echo(strm.Context(), req)\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn strm.MsgSend(out)', '_, err := impl.Echo(strm.Context(), req)\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn strm.MsgSend(req)'))
M("S34", "ctx", (MS, "impl.MockRequest(strm.Context(), req)", "impl.MockRequest(context.Background(), req)"))
M("S34", "new req", (MS, "impl.MockRequest(strm.Context(), req)", "impl.MockRequest(strm.Context(), new(MockMsg))"))
M("S34", "close early", (ES, "func (x *srpcEchoer_EchoBidiStreamStream) SendAndClose(m *EchoMsg) error {\n\tif m != nil {\n\t\tif err := x.MsgSend(m); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\treturn x.CloseSend()", "func (x *srpcEchoer_EchoBidiStreamStream) SendAndClose(m *EchoMsg) error {\n\tif m != nil {\n\t\treturn x.MsgSend(m)\n\t}\n\treturn x.CloseSend()"))
M("S34", "close not send", (ES, "return x.CloseSend()", "return x.Close()"))
M("S34", "register", (ES, 'return mux.Register(NewSRPCEchoerHandler(impl, ""))', '_ = mux.Register(NewSRPCEchoerHandler(impl, ""))\n\treturn nil'))
M("S34", "recv shared", (ES, "func (x *srpcEchoer_EchoClientStreamStream) Recv() (*EchoMsg, error) {\n\tm := new(EchoMsg)", "var sharedEcho = new(EchoMsg)\n\nfunc (x *srpcEchoer_EchoClientStreamStream) Recv() (*EchoMsg, error) {\n\tm := sharedEcho"))
M("S35", "method", (ES, 'c.cc.NewStream(ctx, c.serviceID, "EchoBidiStream", nil)', 'c.cc.NewStream(ctx, c.serviceID, "RpcStream", nil)'))
M("S35", "const id", (ES, 'c.cc.ExecCall(ctx, c.serviceID, "DoNothing", in, out)', 'c.cc.ExecCall(ctx, SRPCEchoerServiceID, "DoNothing", in, out)'))
M("S35", "no half close", (ES, 'if err := strm.CloseSend(); err != nil {\n\t\treturn nil, err\n\t}\n\treturn strm, nil', 'return strm, nil'))
M("S35", "close full", (ES, 'if err := strm.CloseSend(); err != nil {\n\t\treturn nil, err\n\t}\n\treturn strm, nil', 'if err := strm.Close(); err != nil {\n\t\treturn nil, err\n\t}\n\treturn strm, nil'))
M("S35", "no request", (ES, 'c.cc.NewStream(ctx, c.serviceID, "EchoServerStream", in)', 'c.cc.NewStream(ctx, c.serviceID, "EchoServerStream", nil)'))
M("S35", "out in", (ES, 'c.cc.ExecCall(ctx, c.serviceID, "Echo", in, out)', 'c.cc.ExecCall(ctx, c.serviceID, "Echo", in, in)'))
M("S35", "err", (MS, "	if err != nil {\n		return nil, err\n	}\n	return out, nil", "	_ = err\n	return out, nil"))
M("S35", "recv no close", (ES, "func (x *srpcEchoer_EchoClientStreamClient) CloseAndRecv() (*EchoMsg, error) {\n\tif err := x.CloseSend(); err != nil {\n\t\treturn nil, err\n\t}\n", "func (x *srpcEchoer_EchoClientStreamClient) CloseAndRecv() (*EchoMsg, error) {\n"))
M("S35", "close after", (ES, "	if err := x.CloseSend(); err != nil {\n		return err\n	}\n	return x.MsgRecv(m)", "	if err := x.MsgRecv(m); err != nil {\n		return err\n	}\n	return x.CloseSend()"))
M("S35", "send twice", (ES, "	return x.MsgSend(m)", "	_ = x.MsgSend(m)\n	return x.MsgSend(m)"))
M("S35", "recv to", (ES, "func (x *srpcEchoer_RpcStreamClient) RecvTo(m *rpcstream.RpcStreamPacket) error {\n\treturn x.MsgRecv(m)", "func (x *srpcEchoer_RpcStreamClient) RecvTo(m *rpcstream.RpcStreamPacket) error {\n\treturn x.MsgRecv(new(rpcstream.RpcStreamPacket))"))
R("S34 helper", (MS, "	req := new(MockMsg)\n	if err := strm.MsgRecv(req); err != nil {\n		return err\n	}\n	out, err := impl.MockRequest(strm.Context(), req)\n	if err != nil {\n		return err\n	}\n	return strm.MsgSend(out)\n}", "	req, err := recvMock(strm)\n	if err != nil {\n		return err\n	}\n	ctx := strm.Context()\n	out, err := impl.MockRequest(ctx, req)\n	if err == nil {\n		err = strm.MsgSend(out)\n	}\n	return err\n}\n\nfunc recvMock(strm srpc.Stream) (*MockMsg, error) {\n	var req MockMsg\n	if err := strm.MsgRecv(&req); err != nil {\n		return nil, err\n	}\n	return &req, nil\n}"))
R("S34 if", (MS, '	switch methodID {\n	case "MockRequest":\n		return true, d.InvokeMethod_MockRequest(d.impl, strm)\n	default:\n		return false, nil\n	}', '	if methodID != "MockRequest" {\n		return false, nil\n	}\n	return true, d.InvokeMethod_MockRequest(d.impl, strm)'))
R("S34 method list", (MS, '	return []string{\n		"MockRequest",\n	}', '	ids := make([]string, 0, 1)\n	ids = append(ids, "MockRequest")\n	return ids'))
R("S34 service match", (ES, 'if serviceID != "" && serviceID != d.GetServiceID() {\n\t\treturn false, nil\n\t}\n', 'match := serviceID == "" || serviceID == d.serviceID\n\tif !match {\n\t\treturn false, nil\n\t}\n'))
R("S35 helper", (ES, 'func NewSRPCEchoerClient(cc srpc.Client) SRPCEchoerClient {\n\treturn &srpcEchoerClient{cc: cc, serviceID: SRPCEchoerServiceID}', 'func NewSRPCEchoerClient(cc srpc.Client) SRPCEchoerClient {\n\treturn NewSRPCEchoerClientWithServiceID(cc, "")'))
R("S35 err form", (MS, '	err := c.cc.ExecCall(ctx, c.serviceID, "MockRequest", in, out)\n	if err != nil {\n		return nil, err\n	}\n	return out, nil', '	if err := c.cc.ExecCall(ctx, c.serviceID, "MockRequest", in, out); err != nil {\n		return nil, err\n	}\n	return out, nil'))
R("S35 recv", (ES, "func (x *srpcEchoer_EchoServerStreamClient) Recv() (*EchoMsg, error) {\n\tm := new(EchoMsg)\n\tif err := x.MsgRecv(m); err != nil {", "func (x *srpcEchoer_EchoServerStreamClient) Recv() (*EchoMsg, error) {\n\tm := &EchoMsg{}\n\tif err := x.RecvTo(m); err != nil {"))
R("S34 append list", (ES, '	return []string{\n		"Echo",\n		"EchoServerStream",', '	return []string{\n		"EchoServerStream",\n		"Echo",'))
R("S34 method var", (MS, '	return []string{\n		"MockRequest",\n	}\n}', '	return slices.Clone(mockMethodIDs)\n}\n\nvar mockMethodIDs = []string{"MockRequest"}'), (MS, '	context "context"\n', '	context "context"\n	"slices"\n'))

# ---- generated messages
PB, RPB, EPB = "srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go"
BM = "		i -= len(m.RpcMethod)\n		copy(dAtA[i:], m.RpcMethod)\n		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.RpcMethod)))\n		i--\n		dAtA[i] = 0x12\n"
M("S36", "tag", (PB, BM, BM.replace("0x12", "0x22")))
M("S36", "wt", (PB, BM, BM.replace("0x12", "0x10")))
M("S36", "swap", (PB, BM, BM.replace("copy(dAtA[i:], m.RpcMethod)", "copy(dAtA[i:], m.RpcService)")))
M("S36", "len other", (PB, BM, BM.replace("uint64(len(m.RpcMethod))", "uint64(len(m.RpcService))")))
M("S36", "cond other", (PB, "	if len(m.RpcMethod) > 0 {\n		i -=", "	if len(m.RpcMethod) > 1 {\n		i -="))
M("S36", "cond and", (PB, "	if len(m.Data) > 0 {\n		i -= len(m.Data)\n		copy(dAtA[i:], m.Data)\n		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.Data)))\n		i--\n		dAtA[i] = 0xa\n", "	if len(m.Data) > 0 && !m.DataIsZero {\n		i -= len(m.Data)\n		copy(dAtA[i:], m.Data)\n		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.Data)))\n		i--\n		dAtA[i] = 0xa\n"))
M("S36", "bool const", (PB, "		i--\n		if m.Complete {\n			dAtA[i] = 1\n		} else {\n			dAtA[i] = 0\n		}\n", "		i--\n		dAtA[i] = 0\n"))
M("S36", "cancel const", (PB, "	i--\n	if m.CallCancel {\n		dAtA[i] = 1\n	} else {\n		dAtA[i] = 0\n	}\n", "	i--\n	dAtA[i] = 1\n"))
M("S36", "size less", (PB, "	if m.Complete {\n		n += 2\n	}\n", ""))
M("S36", "size more", (PB, "	if m.Complete {\n		n += 2\n	}\n", "	n += 2\n"))
M("S36", "size varint", (PB, "	l = len(m.Error)\n	if l > 0 {\n		n += 1 + l + protobuf_go_lite.SizeOfVarint(uint64(l))\n	}\n", "	l = len(m.Error)\n	if l > 0 {\n		n += 2 + l\n	}\n"))
M("S36", "size unknown", (PB, "	n += len(m.unknownFields)\n	return n\n}\n\nfunc (m *Packet_CallStart) SizeVT", "	return n\n}\n\nfunc (m *Packet_CallStart) SizeVT"))
M("S36", "nested err", (PB, "		size, err := m.CallStart.MarshalToSizedBufferVT(dAtA[:i])\n		if err != nil {\n			return 0, err\n		}\n", "		size, _ := m.CallStart.MarshalToSizedBufferVT(dAtA[:i])\n"))
M("S36", "nested swap tag", (PB, "		i -= size\n		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(size))\n		i--\n		dAtA[i] = 0x12\n", "		i -= size\n		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(size))\n		i--\n		dAtA[i] = 0xa\n"))
M("S36", "nested nil tag", (PB, "	} else {\n		i = protobuf_go_lite.EncodeVarint(dAtA, i, 0)\n		i--\n		dAtA[i] = 0xa\n	}\n", "	}\n"))
M("S36", "method name", (PB, "func (m *Packet_CallCancel) MarshalToSizedBufferVT(dAtA []byte) (int, error) {", "func (m *Packet_CallCancel) MarshalSizedVT(dAtA []byte) (int, error) {"), (PB, "func (m *Packet_CallCancel) MarshalToVT(dAtA []byte) (int, error) {\n	size := m.SizeVT()\n	return m.MarshalToSizedBufferVT(", "func (m *Packet_CallCancel) MarshalToVT(dAtA []byte) (int, error) {\n	size := m.SizeVT()\n	return m.MarshalSizedVT("))
M("S36", "size signature", (PB, "func (m *Packet_CallCancel) SizeVT() (n int) {\n	if m == nil {\n		return 0\n	}\n	var l int\n	_ = l\n	n += 2\n	return n\n}", "func (m *Packet_CallCancel) SizeVT() (n int64) {\n	return 2\n}"), (PB, "func (m *Packet_CallCancel) MarshalToVT(dAtA []byte) (int, error) {\n	size := m.SizeVT()", "func (m *Packet_CallCancel) MarshalToVT(dAtA []byte) (int, error) {\n	size := int(m.SizeVT())"))
M("S36", "marshal short", (PB, "	return dAtA[:n], nil\n", "	return dAtA[:n-1], nil\n"))
M("S36", "marshal pool", (PB, "	size := m.SizeVT()\n	dAtA = make([]byte, size)\n	n, err", "	size := m.SizeVT()\n	if size > cap(marshalBuf) {\n		marshalBuf = make([]byte, size)\n	}\n	dAtA = marshalBuf[:size]\n	n, err"), (PB, "func (m *Packet) MarshalVT() ", "var marshalBuf []byte\n\nfunc (m *Packet) MarshalVT() "))
M("S36", "marshal err", (PB, "	n, err := m.MarshalToSizedBufferVT(dAtA[:size])\n	if err != nil {\n		return nil, err\n	}\n	return dAtA[:n], nil", "	n, _ := m.MarshalToSizedBufferVT(dAtA[:size])\n	return dAtA[:n], nil"))
M("S36", "to whole", (PB, "	size := m.SizeVT()\n	return m.MarshalToSizedBufferVT(dAtA[:size])", "	return m.MarshalToSizedBufferVT(dAtA)"))
M("S36", "proto num", ("srpc/rpcproto.proto", "string error = 4;", "string error = 5;"))
M("S36", "rpcstream data", (RPB, "	i -= len(m.Data)\n	copy(dAtA[i:], m.Data)\n	i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.Data)))\n	i--\n	dAtA[i] = 0x1a\n", "	if len(m.Data) > 0 {\n	i -= len(m.Data)\n	copy(dAtA[i:], m.Data)\n	i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.Data)))\n	i--\n	dAtA[i] = 0x1a\n	}\n"))
M("S36", "echo trunc", (EPB, "		i -= len(m.Body)\n		copy(dAtA[i:], m.Body)\n", "		i -= len(m.Body)\n		copy(dAtA[i:], m.Body[:1])\n"))
M("S36", "unknown lost", (EPB, "	if m.unknownFields != nil {\n		i -= len(m.unknownFields)\n		copy(dAtA[i:], m.unknownFields)\n	}\n	if len(m.Body) > 0 {\n", "	if len(m.Body) > 0 {\n"))
M("S36", "unknown only", (EPB, "	if m.unknownFields != nil {\n		i -= len(m.unknownFields)\n		copy(dAtA[i:], m.unknownFields)\n	}\n", "	if m.unknownFields != nil {\n		i -= len(m.unknownFields)\n		copy(dAtA[i:], m.unknownFields)\n		return len(dAtA) - i, nil\n	}\n"))
M("S36", "clears", (PB, "	if len(m.Error) > 0 {\n		i -= len(m.Error)\n		copy(dAtA[i:], m.Error)\n", "	if len(m.Error) > 0 {\n		i -= len(m.Error)\n		copy(dAtA[i:], m.Error)\n		defer func() { m.Error = \"\" }()\n"))
M("S36", "oneof missing", (PB, "	if vtmsg, ok := m.Body.(interface {\n		MarshalToSizedBufferVT([]byte) (int, error)\n	}); ok {", "	if vtmsg, ok := m.Body.(interface {\n		MarshalToSizedBufferVT([]byte) (int, error)\n		MarshalVT() ([]byte, error)\n	}); ok {"))
M("S36", "size oneof missing", (PB, "	if vtmsg, ok := m.Body.(interface{ SizeVT() int }); ok {", "	if vtmsg, ok := m.Body.(interface{ SizeVT() int64 }); ok {"), (PB, "		n += vtmsg.SizeVT()\n", "		n += int(vtmsg.SizeVT())\n"))
R("S36 helper", (PB, BM, "		i = putField(dAtA, i, 0x12, m.RpcMethod)\n"), (PB, "func (m *CallStart) MarshalToSizedBufferVT", "func putField(dAtA []byte, i int, tag byte, v string) int {\n	i -= len(v)\n	copy(dAtA[i:], v)\n	i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(v)))\n	i--\n	dAtA[i] = tag\n	return i\n}\n\nfunc (m *CallStart) MarshalToSizedBufferVT"))
R("S36 bool", (PB, "		i--\n		if m.Complete {\n			dAtA[i] = 1\n		} else {\n			dAtA[i] = 0\n		}\n		i--\n		dAtA[i] = 0x18\n", "		i -= 2\n		dAtA[i+1] = 1\n		dAtA[i] = 0x18\n"))
R("S36 marshal", (PB, "	n, err := m.MarshalToSizedBufferVT(dAtA[:size])\n	if err != nil {\n		return nil, err\n	}\n	return dAtA[:n], nil", "	if _, err = m.MarshalToSizedBufferVT(dAtA); err != nil {\n		return nil, err\n	}\n	return dAtA, nil"))
R("S36 size early", (PB, "	n += len(m.unknownFields)\n	return n\n}\n\nfunc (m *Packet_CallStart) SizeVT", "	return n + len(m.unknownFields)\n}\n\nfunc (m *Packet_CallStart) SizeVT"))
R("S36 size switch", (PB, "	if vtmsg, ok := m.Body.(interface{ SizeVT() int }); ok {\n		n += vtmsg.SizeVT()\n	}\n", "	switch b := m.Body.(type) {\n	case *Packet_CallStart:\n		n += b.SizeVT()\n	case *Packet_CallData:\n		n += b.SizeVT()\n	case *Packet_CallCancel:\n		n += b.SizeVT()\n	}\n"))
R("S36 cancel", (PB, "	i := len(dAtA)\n	i--\n	if m.CallCancel {\n		dAtA[i] = 1\n	} else {\n		dAtA[i] = 0\n	}\n	i--\n	dAtA[i] = 0x18\n	return len(dAtA) - i, nil", "	var b byte\n	if m.CallCancel {\n		b = 1\n	}\n	i := len(dAtA)\n	dAtA[i-1] = b\n	dAtA[i-2] = 0x18\n	return 2, nil"))
R("S36 unknown len", (PB, "	if m.unknownFields != nil {\n		i -= len(m.unknownFields)", "	if len(m.unknownFields) != 0 {\n		i -= len(m.unknownFields)"))
M("S38", "clone shares", (PB, "	if rhs := m.Data; rhs != nil {\n		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes, rhs)\n		r.Data = tmpBytes\n	}\n", "	r.Data = m.Data\n"))
M("S38", "clone short", (PB, "		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes, rhs)\n", "		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes[1:], rhs)\n"))
M("S38", "clone nocopy", (PB, "		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes, rhs)\n", "		tmpBytes := make([]byte, len(rhs))\n"))
M("S38", "clone trunc", (PB, "		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes, rhs)\n", "		tmpBytes := make([]byte, min(len(rhs), 4096))\n		copy(tmpBytes, rhs)\n"))
M("S38", "clone field", (PB, "	r.Complete = m.Complete\n", ""))
M("S38", "clone swap", (PB, "	r.RpcMethod = m.RpcMethod\n", "	r.RpcMethod = m.RpcService\n"))
M("S38", "clone nested", (PB, "	r.CallData = m.CallData.CloneVT()\n", "	r.CallData = m.CallData\n"))
M("S38", "clone oneof", (PB, "		r.Body = m.Body.(interface{ CloneOneofVT() isPacket_Body }).CloneOneofVT()\n", "		r.Body = m.Body\n"))
M("S38", "clone self", (PB, "func (m *Packet) CloneMessageVT() protobuf_go_lite.CloneMessage {\n	return m.CloneVT()", "func (m *Packet) CloneMessageVT() protobuf_go_lite.CloneMessage {\n	return m"))
M("S38", "clone unknown", (PB, "	if len(m.unknownFields) > 0 {\n		r.unknownFields = make([]byte, len(m.unknownFields))\n		copy(r.unknownFields, m.unknownFields)\n	}\n", "	r.unknownFields = m.unknownFields\n"))
M("S38", "clone wrapper self", (PB, "func (m *Packet_CallStart) CloneOneofVT() isPacket_Body {\n	return m.CloneVT()", "func (m *Packet_CallStart) CloneOneofVT() isPacket_Body {\n	return m"))
M("S38", "equal field", (PB, "	if this.Complete != that.Complete {\n		return false\n	}\n", ""))
M("S38", "equal bytes len", (PB, "	if string(this.Data) != string(that.Data) {\n", "	if len(this.Data) != len(that.Data) {\n"))
M("S38", "equal nested", (PB, "		if !p.EqualVT(q) {\n			return false\n		}\n", "		if !p.EqualVT(p) {\n			return false\n		}\n"))
M("S38", "equal type", (PB, "	that, ok := thatIface.(*Packet_CallCancel)\n	if !ok {\n		return false\n	}\n", "	that, ok := thatIface.(*Packet_CallCancel)\n	if !ok {\n		return thatIface == nil\n	}\n"))
M("S38", "equal nil", (PB, "	} else if this == nil || that == nil {\n		return false\n	}\n", "	} else if this == nil || that == nil {\n		return true\n	}\n"))
M("S38", "equal unknown", (PB, "	return string(this.unknownFields) == string(that.unknownFields)\n}\n\nfunc (this *CallData) EqualMessageVT", "	return true\n}\n\nfunc (this *CallData) EqualMessageVT"))
M("S38", "equal too much", (PB, "	if this.RpcMethod != that.RpcMethod {\n		return false\n	}\n", "	if this.RpcMethod != that.RpcMethod || this.RpcMethod == \"\" {\n		return false\n	}\n"))
M("S38", "equal oneof", (PB, "		if that.Body == nil {\n			return false\n		}\n", "		if that.Body == nil {\n			return true\n		}\n"))
M("S38", "getter", (PB, "func (x *CallData) GetComplete() bool {\n	if x != nil {\n		return x.Complete", "func (x *CallData) GetComplete() bool {\n	if x != nil {\n		return x.Complete || x.Error != \"\""))
M("S38", "getter swap", (PB, "func (x *CallStart) GetRpcMethod() string {\n	if x != nil {\n		return x.RpcMethod", "func (x *CallStart) GetRpcMethod() string {\n	if x != nil {\n		return x.RpcService"))
M("S38", "getter default", (PB, "		return x.CallCancel\n	}\n	return false", "		return x.CallCancel\n	}\n	return true"))
M("S38", "reset", (PB, "func (x *CallData) Reset() {\n	*x = CallData{}", "func (x *CallData) Reset() {\n	*x = CallData{Data: x.Data[:0]}"))
R("S38 clone append", (PB, "		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes, rhs)\n		r.Data = tmpBytes\n", "		r.Data = append([]byte{}, rhs...)\n"))
R("S38 clone lit", (PB, "	r := new(CallStart)\n	r.RpcService = m.RpcService\n	r.RpcMethod = m.RpcMethod\n", "	r := &CallStart{RpcService: m.RpcService, RpcMethod: m.RpcMethod}\n"))
R("S38 clone helper", (PB, "	if rhs := m.Data; rhs != nil {\n		tmpBytes := make([]byte, len(rhs))\n		copy(tmpBytes, rhs)\n		r.Data = tmpBytes\n	}\n", "	r.Data = copyBytes(m.Data)\n"), (PB, "func (m *CallStart) CloneVT()", "func copyBytes(b []byte) []byte {\n	if b == nil {\n		return nil\n	}\n	out := make([]byte, len(b))\n	copy(out, b)\n	return out\n}\n\nfunc (m *CallStart) CloneVT()"))
R("S38 equal one", (PB, "	if this.RpcService != that.RpcService {\n		return false\n	}\n	if this.RpcMethod != that.RpcMethod {\n		return false\n	}\n	if string(this.Data)", "	if this.RpcService != that.RpcService || this.RpcMethod != that.RpcMethod {\n		return false\n	}\n	if string(this.Data)"))
R("S38 equal bytes", (PB, "	if string(this.Data) != string(that.Data) {\n", "	if !bytes.Equal(this.Data, that.Data) {\n"), (PB, "import (\n", "import (\n	\"bytes\"\n"))
R("S38 equal ret", (PB, "	if this.CallCancel != that.CallCancel {\n		return false\n	}\n	return true\n", "	return this.CallCancel == that.CallCancel\n"))
R("S38 getter", (PB, "func (x *CallData) GetComplete() bool {\n	if x != nil {\n		return x.Complete\n	}\n	return false", "func (x *CallData) GetComplete() bool {\n	return x != nil && x.Complete"))
R("S38 getter switch", (PB, "func (x *Packet) GetCallStart() *CallStart {", "func (x *Packet) GetCallStart() *CallStart {\n	if x == nil {\n		return nil\n	}\n	switch b := x.Body.(type) {\n	case *Packet_CallStart:\n		return b.CallStart\n	default:\n		return nil\n	}\n}\n\nfunc (x *Packet) getCallStart() *CallStart {"))

# ---- S37: decoding
_U = "func (m *Packet) UnmarshalVT(dAtA []byte) error {\n	l := len(dAtA)\n"
_STEP = "			b := dAtA[iNdEx]\n			iNdEx++\n			wire |= uint64(b&0x7F) << shift\n			if b < 0x80 {\n				break\n			}\n"
_MSTEP = "				b := dAtA[iNdEx]\n				iNdEx++\n				msglen |= int(b&0x7F) << shift\n				if b < 0x80 {\n					break\n				}\n"
_SSTEP = "				b := dAtA[iNdEx]\n				iNdEx++\n				stringLen |= uint64(b&0x7F) << shift\n				if b < 0x80 {\n					break\n				}\n"
_BSTEP = "				b := dAtA[iNdEx]\n				iNdEx++\n				byteLen |= int(b&0x7F) << shift\n				if b < 0x80 {\n					break\n				}\n"
_LEN = "			if msglen < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n"
_POST = "			postIndex := iNdEx + msglen\n			if postIndex < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n			if postIndex > l {\n				return io.ErrUnexpectedEOF\n			}\n"
_BPOST = "			postIndex := iNdEx + byteLen\n			if postIndex < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n			if postIndex > l {\n				return io.ErrUnexpectedEOF\n			}\n"
_SPOST = _BPOST.replace("byteLen", "intStringLen")
_DATA = "			m.Data = append(m.Data[:0], dAtA[iNdEx:postIndex]...)\n			if m.Data == nil {\n				m.Data = []byte{}\n			}\n"
_ONE = "			if oneof, ok := m.Body.(*Packet_CallStart); ok {\n				if err := oneof.CallStart.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n			} else {\n				v := &CallStart{}\n				if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n				m.Body = &Packet_CallStart{CallStart: v}\n			}\n"
_SKIP = "			if (skippy < 0) || (iNdEx+skippy) < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n			if (iNdEx + skippy) > l {\n				return io.ErrUnexpectedEOF\n			}\n"
_APP = "			m.unknownFields = append(m.unknownFields, dAtA[iNdEx:iNdEx+skippy]...)\n			iNdEx += skippy\n"
_END = "	if iNdEx > l {\n		return io.ErrUnexpectedEOF\n	}\n	return nil\n}\nfunc (m *CallStart) UnmarshalVT"
M("S37", "wt", (PB, "			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field CallStart\"", "			if wireType != 2 && wireType != 0 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field CallStart\""))
M("S37", "wt drop", (PB, "			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field Data\", wireType)\n			}\n", ""))
M("S37", "shift 32", (PB, "			if shift >= 64 {\n				return protobuf_go_lite.ErrIntOverflow\n			}\n			if iNdEx >= l {", "			if shift >= 28 {\n				return protobuf_go_lite.ErrIntOverflow\n			}\n			if iNdEx >= l {"))
M("S37", "shift 8", (PB, "for shift := uint(0); ; shift += 7 {", "for shift := uint(0); ; shift += 8 {"))
M("S37", "mask", (PB, "wire |= uint64(b&0x7F) << shift", "wire |= uint64(b) << shift"))
M("S37", "byte shift", (PB, "byteLen |= int(b&0x7F) << shift", "byteLen |= int(b&0x7F << shift)"))
M("S37", "continue bit", (PB, _MSTEP, _MSTEP.replace("b < 0x80", "b <= 0x80")))
M("S37", "len guard", (PB, _LEN, ""), (PB, _POST, _POST.replace("			if postIndex < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n", "")))
M("S37", "neg len", (PB, _LEN, ""))
M("S37", "post guard", (PB, _POST, _POST.replace("			if postIndex < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n", "")))
M("S37", "end guard", (PB, _POST, _POST.replace("			if postIndex > l {\n				return io.ErrUnexpectedEOF\n			}\n", "")))
M("S37", "end guard >=", (PB, _POST, _POST.replace("postIndex > l ", "postIndex >= l ")))
M("S37", "end guard cap", (PB, _POST, _POST.replace("postIndex > l ", "postIndex > cap(dAtA) ")))
M("S37", "end guard +1", (PB, _BPOST, _BPOST.replace("postIndex > l ", "postIndex > l+1 ")))
M("S37", "eof guard", (PB, "			if iNdEx >= l {\n				return io.ErrUnexpectedEOF\n			}\n			b := dAtA[iNdEx]\n			iNdEx++\n			wire", "			if iNdEx > l {\n				return io.ErrUnexpectedEOF\n			}\n			b := dAtA[iNdEx]\n			iNdEx++\n			wire"))
M("S37", "alias", (PB, _DATA, "			m.Data = dAtA[iNdEx:postIndex:postIndex]\n"))
M("S37", "alias if large", (PB, _DATA, "			if byteLen > 4096 {\n				m.Data = dAtA[iNdEx:postIndex]\n			} else {\n	" + _DATA.replace("\n", "\n	").rstrip("\t") + "			}\n"))
M("S37", "append keeps", (PB, _DATA, _DATA.replace("m.Data[:0]", "m.Data")))
M("S37", "wrong field", (PB, _DATA, _DATA + "			m.RpcMethod = \"\"\n"))
M("S37", "swap fields", (PB, "			m.DataIsZero = bool(v != 0)\n		case 3:", "			m.Complete = bool(v != 0)\n		case 3:"))
M("S37", "bool eq 1", (PB, "m.Complete = bool(v != 0)", "m.Complete = v == 1"))
M("S37", "bool or", (PB, "m.Complete = bool(v != 0)", "m.Complete = m.Complete || v != 0"))
M("S37", "no advance", (PB, "			m.RpcService = string(dAtA[iNdEx:postIndex])\n			iNdEx = postIndex\n", "			m.RpcService = string(dAtA[iNdEx:postIndex])\n"))
M("S37", "string short", (PB, "m.RpcMethod = string(dAtA[iNdEx:postIndex])", "m.RpcMethod = string(dAtA[iNdEx : postIndex-0x0])[:min(intStringLen, 255)]"))
M("S37", "string keep", (PB, "			m.Error = string(dAtA[iNdEx:postIndex])\n", "			if m.Error == \"\" {\n				m.Error = string(dAtA[iNdEx:postIndex])\n			}\n"))
M("S37", "oneof replaced", (PB, _ONE, "			{\n				v := &CallStart{}\n				if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n				m.Body = &Packet_CallStart{CallStart: v}\n			}\n"))
M("S37", "oneof first", (PB, _ONE, _ONE.replace("				if err := oneof.CallStart.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n", "				_ = oneof\n")))
M("S37", "oneof other", (PB, _ONE, _ONE.replace("; ok {", "; ok && m.unknownFields == nil {")))
M("S37", "error dropped", (PB, _ONE, _ONE.replace("				if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n", "				_ = v.UnmarshalVT(dAtA[iNdEx:postIndex])\n")))
M("S37", "nested rest", (PB, _ONE, _ONE.replace("v.UnmarshalVT(dAtA[iNdEx:postIndex])", "v.UnmarshalVT(dAtA[iNdEx:])")))
M("S37", "unknown drop", (PB, _APP, "			iNdEx += skippy\n"))
M("S37", "unknown reset", (PB, _APP, _APP.replace("append(m.unknownFields, ", "append(m.unknownFields[:0], ")))
M("S37", "unknown without tag", (PB, _APP, _APP.replace("dAtA[iNdEx:iNdEx+skippy]", "dAtA[iNdEx+1:iNdEx+skippy]")))
M("S37", "unknown alias", (PB, _APP, "			if m.unknownFields == nil {\n				m.unknownFields = dAtA[iNdEx : iNdEx+skippy]\n			} else {\n				m.unknownFields = append(m.unknownFields, dAtA[iNdEx:iNdEx+skippy]...)\n			}\n			iNdEx += skippy\n"))
M("S37", "unknown refused", (PB, _APP, _APP + "			return protobuf_go_lite.ErrIntOverflow\n"))
M("S37", "unknown after tag", (PB, "			iNdEx = preIndex\n			skippy", "			_ = preIndex\n			skippy"))
M("S37", "skip end", (PB, _SKIP, _SKIP.replace("			if (iNdEx + skippy) > l {\n				return io.ErrUnexpectedEOF\n			}\n", "")))
M("S37", "skip err", (PB, "			if err != nil {\n				return err\n			}\n			if (skippy", "			if err != nil {\n				return nil\n			}\n			if (skippy"))
M("S37", "early nil", (PB, "			m.Body = &Packet_CallCancel{CallCancel: b}\n", "			m.Body = &Packet_CallCancel{CallCancel: b}\n			return nil\n"))
M("S37", "end early", (PB, _U + "	iNdEx := 0\n	for iNdEx < l {", _U + "	iNdEx := 0\n	for iNdEx+1 < l {"))
M("S37", "end short", (PB, _U, _U + "	l--\n"))
M("S37", "fieldnum narrow", (PB, "fieldNum := int32(wire >> 3)", "fieldNum := int32(uint8(wire >> 3))"))
M("S37", "cancel const", (PB, "			m.Body = &Packet_CallCancel{CallCancel: b}\n", "			m.Body = &Packet_CallCancel{CallCancel: b || true}\n"))
M("S37", "cancel keeps", (PB, "			m.Body = &Packet_CallCancel{CallCancel: b}\n", "			if b {\n				m.Body = &Packet_CallCancel{CallCancel: b}\n			}\n"))
M("S37", "reset", (PB, _U, "func (m *Packet) UnmarshalVT(dAtA []byte) error {\n	m.Reset()\n	l := len(dAtA)\n"))
M("S37", "limit", (PB, _LEN, _LEN + "			if msglen > 1<<20 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n"))
M("S37", "empty refused", (PB, "			if intStringLen < 0 {", "			if intStringLen <= 0 {"))
M("S37", "tag num", (PB, "fieldNum <= 0", "fieldNum <= 0 || fieldNum > 1000"))
R("pb decode group", (PB, "		if wireType == 4 {\n			return fmt.Errorf(\"proto: Packet: wiretype end group for non-group\")\n		}\n", ""))
M("S37", "echo no unknown", (EPB, _APP, "			iNdEx += skippy\n"))
M("S37", "rpcstream data", (RPB, "postIndex > l ", "postIndex >= l "))
# the same, written differently
R("pb decode len", (PB, "	l := len(dAtA)\n	iNdEx := 0\n", "	iNdEx, l := 0, len(dAtA)\n"))
R("pb decode direct len", (PB, _U + "	iNdEx := 0\n	for iNdEx < l {", _U + "	iNdEx := 0\n	for iNdEx < len(dAtA) {"))
R("pb decode while", (PB, "		for shift := uint(0); ; shift += 7 {\n			if shift >= 64 {", "		for shift := uint(0); ; shift += 7 {\n			if shift > 63 {"))
R("pb decode guard", (PB, _POST, "			if msglen > l-iNdEx {\n				return io.ErrUnexpectedEOF\n			}\n			postIndex := iNdEx + msglen\n"))
R("pb decode guards merged", (PB, _BPOST, "			postIndex := iNdEx + byteLen\n			if postIndex < 0 || postIndex > l {\n				return io.ErrUnexpectedEOF\n			}\n"))
R("pb decode clone", (PB, _DATA, "			m.Data = make([]byte, byteLen)\n			copy(m.Data, dAtA[iNdEx:postIndex])\n"))
R("pb decode order", (PB, _ONE, _ONE.replace("if oneof, ok := m.Body.(*Packet_CallStart); ok {", "oneof, ok := m.Body.(*Packet_CallStart)\n			if ok {")))
R("pb decode index last", (PB, _STEP, "			b := dAtA[iNdEx]\n			wire |= uint64(b&0x7F) << shift\n			iNdEx++\n			if b&0x80 == 0 {\n				break\n			}\n"))
R("pb decode >=", (PB, _MSTEP, _MSTEP.replace("				if b < 0x80 {\n					break\n				}\n", "				if b >= 0x80 {\n					continue\n				}\n				break\n")))
R("pb decode helper", (PB, "func (m *Packet) UnmarshalVT", "func varintAt(dAtA []byte, iNdEx int) (uint64, int, error) {\n	var v uint64\n	for shift := uint(0); ; shift += 7 {\n		if shift >= 64 {\n			return 0, 0, protobuf_go_lite.ErrIntOverflow\n		}\n		if iNdEx >= len(dAtA) {\n			return 0, 0, io.ErrUnexpectedEOF\n		}\n		b := dAtA[iNdEx]\n		iNdEx++\n		v |= uint64(b&0x7F) << shift\n		if b < 0x80 {\n			break\n		}\n	}\n	return v, iNdEx, nil\n}\nfunc (m *Packet) UnmarshalVT"),
  (PB, "		var wire uint64\n		for shift := uint(0); ; shift += 7 {\n			if shift >= 64 {\n				return protobuf_go_lite.ErrIntOverflow\n			}\n			if iNdEx >= l {\n				return io.ErrUnexpectedEOF\n			}\n" + _STEP + "		}\n", "		wire, next, err := varintAt(dAtA, iNdEx)\n		if err != nil {\n			return err\n		}\n		iNdEx = next\n"))
R("pb decode tail", (PB, "	if iNdEx > l {\n		return io.ErrUnexpectedEOF\n	}\n	return nil\n}\nfunc (m *CallStart) UnmarshalVT", "	return nil\n}\nfunc (m *CallStart) UnmarshalVT"))
R("pb decode skip", (PB, _SKIP + _APP, "			end := preIndex + skippy\n			if skippy < 0 || end < 0 {\n				return protobuf_go_lite.ErrInvalidLength\n			}\n			if end > l {\n				return io.ErrUnexpectedEOF\n			}\n			m.unknownFields = append(m.unknownFields, dAtA[preIndex:end]...)\n			iNdEx = end\n"))
R("pb decode if chain", (PB, "		switch fieldNum {\n		case 1:\n			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field RpcService\", wireType)", "		switch {\n		case fieldNum == 1:\n			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field RpcService\", wireType)"),
  (PB, "		case 2:\n			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field RpcMethod\"", "		case fieldNum == 2:\n			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field RpcMethod\""),
  (PB, "		case 3:\n			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field Data\"", "		case fieldNum == 3:\n			if wireType != 2 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field Data\""),
  (PB, "		case 4:\n			if wireType != 0 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field DataIsZero\"", "		case fieldNum == 4:\n			if wireType != 0 {\n				return fmt.Errorf(\"proto: wrong wireType = %d for field DataIsZero\""))
R("pb decode empty data", (PB, _DATA, "			m.Data = append(m.Data[:0], dAtA[iNdEx:postIndex]...)\n"))
R("pb decode end helper", (PB, "func (m *Packet) UnmarshalVT", "func endOf(iNdEx, n, l int) (int, error) {\n	if n < 0 {\n		return 0, protobuf_go_lite.ErrInvalidLength\n	}\n	end := iNdEx + n\n	switch {\n	case end < 0:\n		return 0, protobuf_go_lite.ErrInvalidLength\n	case end > l:\n		return 0, io.ErrUnexpectedEOF\n	}\n	return end, nil\n}\nfunc (m *Packet) UnmarshalVT"),
  (PB, _LEN + _POST, "			postIndex, err := endOf(iNdEx, msglen, l)\n			if err != nil {\n				return err\n			}\n"))
R("pb decode forever", (PB, "	for iNdEx < l {\n		preIndex := iNdEx\n", "	for {\n		if iNdEx >= l {\n			break\n		}\n		preIndex := iNdEx\n"))
R("pb decode oneof switch", (PB, _ONE, "			switch oneof := m.Body.(type) {\n			case *Packet_CallStart:\n				if err := oneof.CallStart.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n			default:\n				v := new(CallStart)\n				if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n				w := new(Packet_CallStart)\n				w.CallStart = v\n				m.Body = w\n			}\n"))
R("pb decode oneof first", (PB, _ONE, "			var v *CallStart\n			if oneof, ok := m.Body.(*Packet_CallStart); ok {\n				v = oneof.CallStart\n			} else {\n				v = &CallStart{}\n			}\n			if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n				return err\n			}\n			if _, ok := m.Body.(*Packet_CallStart); !ok {\n				m.Body = &Packet_CallStart{CallStart: v}\n			}\n"))
R("pb decode unknown helper", (PB, "func (m *Packet) UnmarshalVT", "func (m *Packet) keep(dAtA []byte) (int, error) {\n	n, err := protobuf_go_lite.Skip(dAtA)\n	if err != nil {\n		return 0, err\n	}\n	if n < 0 {\n		return 0, protobuf_go_lite.ErrInvalidLength\n	}\n	if n > len(dAtA) {\n		return 0, io.ErrUnexpectedEOF\n	}\n	m.unknownFields = append(m.unknownFields, dAtA[:n]...)\n	return n, nil\n}\nfunc (m *Packet) UnmarshalVT"),
  (PB, "			iNdEx = preIndex\n			skippy, err := protobuf_go_lite.Skip(dAtA[iNdEx:])\n			if err != nil {\n				return err\n			}\n" + _SKIP + _APP, "			n, err := m.keep(dAtA[preIndex:])\n			if err != nil {\n				return err\n			}\n			iNdEx = preIndex + n\n"))
R("pb decode bool", (PB, "			b := bool(v != 0)\n			m.Body = &Packet_CallCancel{CallCancel: b}\n", "			var b bool\n			if v != 0 {\n				b = true\n			}\n			m.Body = &Packet_CallCancel{CallCancel: b}\n"))
R("pb decode wire", (PB, "		fieldNum := int32(wire >> 3)\n		wireType := int(wire & 0x7)\n", "		wireType, fieldNum := int(wire&7), int32(wire>>3)\n"))
R("pb decode eof", (PB, "			if iNdEx >= l {\n				return io.ErrUnexpectedEOF\n			}\n			b := dAtA[iNdEx]\n", "			if l-iNdEx <= 0 {\n				return io.ErrUnexpectedEOF\n			}\n			b := dAtA[iNdEx]\n"))
R("pb decode err wrap", (PB, "				v := &CallStart{}\n				if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {\n					return err\n				}\n", "				v := &CallStart{}\n				err := v.UnmarshalVT(dAtA[iNdEx:postIndex])\n				if err != nil {\n					return fmt.Errorf(\"call start: %w\", err)\n				}\n"))
