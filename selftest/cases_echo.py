"The echo service of the Go side and the packet writer of the JavaScript build."
from cases import M, R
E = "echo/server.go"
J = "srpc/pushable_js.go"

M("S57", "echo empty", (E, "return msg.CloneVT(), nil", "return &EchoMsg{}, nil"))
M("S57", "echo error", (E, "return msg.CloneVT(), nil", "if msg.GetBody() == \"\" {\n\t\treturn nil, errors.New(\"empty\")\n\t}\n\treturn msg.CloneVT(), nil"))
M("S57", "four", (E, "i < responses", "i < responses-1"))
M("S57", "six", (E, "i < responses", "i <= responses"))
M("S57", "no wait", (E, "\t\tcase <-tkr.C:\n", "\t\tcase <-tkr.C:\n\t\tdefault:\n"))
M("S57", "ctx ignored", (E, "\t\tcase <-strm.Context().Done():\n\t\t\treturn context.Canceled\n", ""))
M("S57", "ctx background", (E, "<-strm.Context().Done()", "<-context.Background().Done()"))
M("S57", "ctx nil", (E, "return context.Canceled", "return nil"))
M("S57", "ctx break", (E, "return context.Canceled", "break"))
M("S57", "no stop", (E, "\tdefer tkr.Stop()\n", ""))
M("S57", "stop on success", (E, "\tdefer tkr.Stop()\n", ""), (E, "\t\tcase <-tkr.C:\n\t\t}\n\t}\n", "\t\tcase <-tkr.C:\n\t\t}\n\t}\n\ttkr.Stop()\n"))
M("S57", "send error ignored", (E, "if err := strm.MsgSend(msg); err != nil {", "if err := strm.MsgSend(msg); err != nil && i != 0 {"))
M("S57", "send close", (E, "if err := strm.MsgSend(msg); err != nil {", "if err := strm.SendAndClose(msg); err != nil {"))
M("S57", "send other", (E, "if err := strm.MsgSend(msg); err != nil {", "if err := strm.MsgSend(&EchoMsg{Body: msg.GetBody()[:len(msg.GetBody())/2]}); err != nil {"))
M("S57", "client twice", (E, "\treturn strm.Recv()\n", "\tif m, err := strm.Recv(); err == nil && m.GetBody() != \"\" {\n\t\treturn m, nil\n\t}\n\treturn strm.Recv()\n"))
M("S57", "client eof", (E, "\treturn strm.Recv()\n", "\tm, err := strm.Recv()\n\tif err == io.EOF {\n\t\treturn &EchoMsg{}, nil\n\t}\n\treturn m, err\n"))
M("S57", "no greeting", (E, "\tif err := strm.MsgSend(&EchoMsg{Body: \"hello from server\"}); err != nil {\n\t\treturn err\n\t}\n", ""))
M("S57", "greeting late", (E, "\tif err := strm.MsgSend(&EchoMsg{Body: \"hello from server\"}); err != nil {\n\t\treturn err\n\t}\n\tfor {\n", "\thello := true\n\tfor {\n"), (E, "\t\tif err := strm.Send(msg)", "\t\tif hello {\n\t\t\thello = false\n\t\t\tif err := strm.MsgSend(&EchoMsg{Body: \"hello from server\"}); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t\tif err := strm.Send(msg)"))
M("S57", "greeting err", (E, "\tif err := strm.MsgSend(&EchoMsg{Body: \"hello from server\"}); err != nil {\n\t\treturn err\n\t}\n", "\t_ = strm.MsgSend(&EchoMsg{Body: \"hello from server\"})\n"))
M("S57", "eof error", (E, "if err == io.EOF {\n\t\t\t\treturn nil", "if err == io.EOF {\n\t\t\t\treturn io.ErrUnexpectedEOF"))
M("S57", "canceled nil", (E, "if err == io.EOF {", "if err == io.EOF || err == context.Canceled {"))
M("S57", "all nil", (E, "\t\t\treturn err\n\t\t}\n\t\tif len(msg", "\t\t\treturn nil\n\t\t}\n\t\tif len(msg"))
M("S57", "empty echoed", (E, "\t\tif len(msg.GetBody()) == 0 {\n\t\t\treturn errors.New(\"got message with empty body\")\n\t\t}\n", ""))
M("S57", "empty skipped", (E, "return errors.New(\"got message with empty body\")", "continue"))
M("S57", "short refused", (E, "len(msg.GetBody()) == 0", "len(msg.GetBody()) < 2"))
M("S57", "echo twice", (E, "if err := strm.Send(msg); err != nil {", "if err := errors.Join(strm.Send(msg), strm.Send(msg)); err != nil {"))
M("S57", "echo err ignored", (E, "\t\tif err := strm.Send(msg); err != nil {\n\t\t\treturn err\n\t\t}\n", "\t\t_ = strm.Send(msg)\n"))
M("S57", "echo previous", (E, "\tfor {\n\t\tmsg, err := strm.Recv()", "\tvar prev *EchoMsg\n\tfor {\n\t\tmsg, err := strm.Recv()"), (E, "strm.Send(msg); err != nil {\n\t\t\treturn err\n\t\t}", "strm.Send(prev); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tprev = msg"))
M("S57", "one echo", (E, "\t\tif err := strm.Send(msg); err != nil {\n\t\t\treturn err\n\t\t}\n", "\t\treturn strm.Send(msg)\n"))
M("S57", "mux inverted", (E, "s.rpcStreamMux == nil", "s.rpcStreamMux != nil"))
M("S57", "mux own", (E, "return s.rpcStreamMux, nil, nil", "return srpc.NewMux(), nil, nil"))
M("S57", "mux by id", (E, "s.rpcStreamMux == nil", "s.rpcStreamMux == nil || componentID == \"\""))
M("S57", "mux ctor", (E, "{rpcStreamMux: rpcStreamMux}", "{rpcStreamMux: srpc.NewMux(rpcStreamMux)}"))
M("S57", "nothing nil", (E, "return &emptypb.Empty{}, nil", "return nil, nil"))
M("S57", "register other", (E, "SRPCRegisterEchoer(mux, s)", "SRPCRegisterEchoer(mux, NewEchoServer(mux))"))
M("S57", "register error", (E, "return SRPCRegisterEchoer(mux, s)", "_ = SRPCRegisterEchoer(mux, s)\n\treturn nil"))
R("S57 range", (E, "for i := 0; i < responses; i++ {", "for range responses {"))
R("S57 down", (E, "for i := 0; i < responses; i++ {", "for i := responses; i > 0; i-- {"))
R("S57 helper", (E, "\t\tselect {\n\t\tcase <-strm.Context().Done():\n\t\t\treturn context.Canceled\n\t\tcase <-tkr.C:\n\t\t}\n", "\t\tif err := waitTick(strm.Context(), tkr.C); err != nil {\n\t\t\treturn err\n\t\t}\n"),
  (E, "// EchoClientStream implements", "func waitTick(ctx context.Context, ch <-chan time.Time) error {\n\tselect {\n\tcase <-ctx.Done():\n\t\treturn context.Canceled\n\tcase <-ch:\n\t\treturn nil\n\t}\n}\n\n// EchoClientStream implements"))
R("S57 ctx err", (E, "return context.Canceled", "return context.Cause(strm.Context())"))
R("S57 ctx var", (E, "\tresponses := 5\n", "\tresponses := 5\n\tctx := strm.Context()\n"), (E, "\t\tcase <-strm.Context().Done():", "\t\tcase <-ctx.Done():"))
R("S57 timer", (E, "\t\tcase <-tkr.C:\n", "\t\tcase <-time.After(time.Millisecond * 100):\n"))
R("S57 send", (E, "strm.MsgSend(msg)", "strm.Send(msg)"))
R("S57 endless", (E, "for i := 0; i < responses; i++ {", "i := 0\n\tfor {\n\t\tif i++; i > responses {\n\t\t\tbreak\n\t\t}"))
R("S57 recv to", (E, "\t\tmsg, err := strm.Recv()\n", "\t\tmsg := new(EchoMsg)\n\t\terr := strm.RecvTo(msg)\n"))
R("S57 errors is", (E, "if err == io.EOF {", "if errors.Is(err, io.EOF) {"))
R("S57 switch", (E, "\t\tif err != nil {\n\t\t\tif err == io.EOF {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\treturn err\n\t\t}\n\t\tif len(msg.GetBody()) == 0 {\n\t\t\treturn errors.New(\"got message with empty body\")\n\t\t}\n",
  "\t\tswitch {\n\t\tcase err == io.EOF:\n\t\t\treturn nil\n\t\tcase err != nil:\n\t\t\treturn err\n\t\tcase msg.GetBody() == \"\":\n\t\t\treturn errors.New(\"got message with empty body\")\n\t\t}\n"))
R("S57 recv helper", (E, "\t\tif err := strm.Send(msg); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n}\n", "\t\tif err := s.echo(strm, msg); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n}\n\nfunc (s *EchoServer) echo(strm SRPCEchoer_EchoBidiStreamStream, msg *EchoMsg) error {\n\treturn strm.Send(msg)\n}\n"))
R("S57 client", (E, "\treturn strm.Recv()\n", "\tmsg, err := strm.Recv()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn msg, nil\n"))
R("S57 getter method", (E, "func(ctx context.Context, componentID string) (srpc.Invoker, func(), error) {\n\t\tif s.rpcStreamMux == nil {\n\t\t\treturn nil, nil, errors.New(\"not implemented\")\n\t\t}\n\t\treturn s.rpcStreamMux, nil, nil\n\t})\n}\n", "s.lookup)\n}\n\nfunc (s *EchoServer) lookup(ctx context.Context, componentID string) (srpc.Invoker, func(), error) {\n\tmux := s.rpcStreamMux\n\tif mux == nil {\n\t\treturn nil, nil, errors.New(\"not implemented\")\n\t}\n\treturn mux, func() {}, nil\n}\n"))
R("S57 msg itself", (E, "return msg.CloneVT(), nil", "return msg, nil"))

M("S58", "no closed look", (J, "if w.closed.Load() {", "if pkt == nil {"))
M("S58", "closed silent", (J, "return io.ErrClosedPipe", "_ = io.EOF\n\t\treturn nil"))
M("S58", "closed inverted", (J, "if w.closed.Load() {", "if !w.closed.Load() {"))
M("S58", "short array", (J, "New(len(data))", "New(len(data) - 1)"))
M("S58", "long array", (J, "New(len(data))", "New(cap(data))"))
M("S58", "buffer", (J, 'Get("Uint8Array")', 'Get("Uint16Array")'))
M("S58", "copy late", (J, "\tjs.CopyBytesToJS(a, data)\n\tw.pushable.Call(\"push\", a)\n", "\tw.pushable.Call(\"push\", a)\n\tjs.CopyBytesToJS(a, data)\n"))
M("S58", "no copy", (J, "\tjs.CopyBytesToJS(a, data)\n", ""))
M("S58", "copy part", (J, "CopyBytesToJS(a, data)", "CopyBytesToJS(a, data[:len(data)/2])"))
M("S58", "push twice", (J, "\tw.pushable.Call(\"push\", a)\n", "\tw.pushable.Call(\"push\", a)\n\tw.pushable.Call(\"push\", a)\n"))
M("S58", "push name", (J, 'Call("push", a)', 'Call("next", a)'))
M("S58", "push only full", (J, "\tw.pushable.Call(\"push\", a)\n", "\tif len(data) != 0 {\n\t\tw.pushable.Call(\"push\", a)\n\t}\n"))
M("S58", "marshal error", (J, "\tif err != nil {\n\t\treturn err\n\t}\n", "\t_ = err\n"))
M("S58", "marshal nil", (J, "\tif err != nil {\n\t\treturn err\n\t}\n", "\tif err != nil {\n\t\treturn nil\n\t}\n"))
M("S58", "marshal other", (J, "pkt.MarshalVT()", "(&Packet{}).MarshalVT()"))
M("S58", "end always", (J, "if !w.closed.Swap(true) {", "w.closed.Store(true)\n\t{"))
M("S58", "end race", (J, "if !w.closed.Swap(true) {", "if !w.closed.Load() {\n\t\tw.closed.Store(true)"))
M("S58", "end never", (J, "if !w.closed.Swap(true) {", "if w.closed.Swap(true) {"))
M("S58", "not marked", (J, "if !w.closed.Swap(true) {", "if !w.closed.Swap(false) {"))
M("S58", "end name", (J, 'Call("end")', 'Call("return")'))
M("S58", "global", (J, "{pushable: pushable}", "{pushable: js.Global()}"))
R("S58 cas", (J, "if !w.closed.Swap(true) {", "if w.closed.CompareAndSwap(false, true) {"))
R("S58 early", (J, "\tif !w.closed.Swap(true) {\n\t\tw.pushable.Call(\"end\")\n\t}\n\treturn nil\n", "\tif w.closed.Swap(true) {\n\t\treturn nil\n\t}\n\tw.pushable.Call(\"end\")\n\treturn nil\n"))
R("S58 helper", (J, "\ta := js.Global().Get(\"Uint8Array\").New(len(data))\n\tjs.CopyBytesToJS(a, data)\n\tw.pushable.Call(\"push\", a)\n", "\tw.pushable.Call(\"push\", toArray(data))\n"), (J, "// Close closes", "func toArray(b []byte) js.Value {\n\tctor := js.Global().Get(\"Uint8Array\")\n\ta := ctor.New(len(b))\n\tjs.CopyBytesToJS(a, b)\n\treturn a\n}\n\n// Close closes"))
R("S58 look again", (J, "\tw.pushable.Call(\"push\", a)\n", "\tif w.closed.Load() {\n\t\treturn io.ErrClosedPipe\n\t}\n\tw.pushable.Call(\"push\", a)\n"))
R("S58 encode first", (J, "\tif w.closed.Load() {\n\t\treturn io.ErrClosedPipe\n\t}\n\n\tdata, err := pkt.MarshalVT()\n\tif err != nil {\n\t\treturn err\n\t}\n", "\tdata, err := pkt.MarshalVT()\n\tif err != nil {\n\t\treturn err\n\t}\n\tif w.closed.Load() {\n\t\treturn io.ErrClosedPipe\n\t}\n"))
R("S58 split call", (J, "\tw.pushable.Call(\"push\", a)\n", "\tp := w.pushable\n\tp.Call(\"push\", a)\n"))
