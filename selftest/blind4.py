"""The generator of Go code (S39): mutants and refactorings."""
from cases import M, R
G = "cmd/protoc-gen-go-starpc/main.go"
M("S39", "b4 suffix", (G, '"_srpc.pb.go"', '"_drpc.pb.go"'))
M("S39", "b4 generate all", (G, "if !f.Generate || len", "if len"))
M("S39", "b4 no services too", (G, "!f.Generate || len(f.Services) == 0", "!f.Generate"))
M("S39", "b4 no optional", (G, "		plugin.SupportedFeatures = uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL)\n", "		_ = pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL\n"))
M("S39", "b4 first service only", (G, "		s.generateService(service)\n", "		s.generateService(service)\n		break\n"))
M("S39", "b4 short service id", (G, "return string(p.Desc.FullName())", "return string(p.Desc.Name())"))
M("S39", "b4 go name as id", (G, "return string(p.Parent.Desc.FullName()), string(p.Desc.Name())", "return string(p.Parent.Desc.FullName()), p.GoName"))
M("S39", "b4 collision", (G, '''	return "SRPC" +
		strings.ReplaceAll(method.Parent.GoName, "_", "__") + "_" +
		strings.ReplaceAll(method.GoName, "_", "__") +
		"Stream"''', '''	return "SRPC" + method.Parent.GoName + "_" + method.GoName + "Stream"'''))
M("S39", "b4 input for output", (G, '		s.P("out := new(", outType, ")")', '		s.P("out := new(", inType, ")")'))
M("S39", "b4 recv type", (G, '''		s.P("m := new(", s.InputType(method), ")")
''', '''		s.P("m := new(", s.OutputType(method), ")")
'''))
M("S39", "b4 send type", (G, '''s.P("func (x *", s.ServerStreamImpl(method), ") Send(m *", s.OutputType(method), ") error {")''', '''s.P("func (x *", s.ServerStreamImpl(method), ") Send(m *", s.InputType(method), ") error {")'''), (G, '''		s.P("Send(*", s.OutputType(method), ") error")''', '''		s.P("Send(*", s.InputType(method), ") error")'''))
M("S39", "b4 no close send", (G, '''	if !p.Desc.IsStreamingClient() {
		s.P("if err := strm.CloseSend(); err != nil { return nil, err }")
	}
''', ''))
M("S39", "b4 close send bidi", (G, '''	if !p.Desc.IsStreamingClient() {
		s.P("if err := strm.CloseSend()''', '''	if p.Desc.IsStreamingServer() {
		s.P("if err := strm.CloseSend()'''))
M("S39", "b4 first message", (G, '	if !p.Desc.IsStreamingClient() {\n		firstMsgRef', '	if !p.Desc.IsStreamingServer() {\n		firstMsgRef'))
M("S39", "b4 reply not sent", (G, '''				s.P("out, err := impl.", method.GoName, "(clientStrm)")
				s.P("if err != nil { return err }")
				s.P("return strm.MsgSend(out)")''', '''				s.P("out, err := impl.", method.GoName, "(clientStrm)")
				s.P("if err != nil || out == nil { return err }")
				s.P("return strm.MsgSend(out)")'''))
M("S39", "b4 send and close nil", (G, '"if m != nil { if err := x.MsgSend(m); err != nil { return err } }"', '"if m != nil { _ = x.MsgSend(m) }"'))
M("S39", "b4 half close skipped", (G, '''		s.P("func (x *", s.ClientStreamImpl(p), ") CloseAndMsgRecv(m *", outType, ") error {")
		s.P("if err := x.CloseSend(); err != nil { return err }")
''', '''		s.P("func (x *", s.ClientStreamImpl(p), ") CloseAndMsgRecv(m *", outType, ") error {")
'''))
M("S39", "b4 last method id", (G, '		s.P(strconv.Quote(methodID), ",")\n', '		if method != service.Methods[len(service.Methods)-1] || len(service.Methods) == 1 {\n			s.P(strconv.Quote(methodID), ",")\n		}\n'))
M("S39", "b4 comment raw", (G, '	comment := method.Comments.Leading.String()\n', '	comment := string(method.Comments.Leading)\n'))
M("S39", "b4 import unused", (G, '	recvType := s.ClientImpl(p.Parent)\n', '	recvType := s.ClientImpl(p.Parent)\n	_ = s.Ident("errors", "New")\n'))
M("S39", "b4 unary only with in", (G, '	if !p.Desc.IsStreamingServer() && !p.Desc.IsStreamingClient() {\n		s.P("out', '	if !p.Desc.IsStreamingServer() {\n		s.P("out'))
M("S39", "b4 service id of go name", (G, '", strconv.Quote(serviceID))', '", strconv.Quote(service.GoName))'))
M("S39", "b4 given service id ignored", (G, '''	s.P("if serviceID == \\"\\" { serviceID = ", s.ServerServiceID(service), " }")
	s.P("return &", s.ServerHandler''', '''	s.P("serviceID = ", s.ServerServiceID(service))
	s.P("return &", s.ServerHandler'''))
M("S39", "b4 any service", (G, '"if serviceID != \\"\\" && serviceID != d.GetServiceID() {"', '"if serviceID != \\"\\" && len(serviceID) != len(d.GetServiceID()) {"'))
M("S39", "b4 even methods", (G, '	for _, method := range service.Methods {\n		s.generateServerMethod(method)\n	}', '	for i, method := range service.Methods {\n		if i < 64 {\n			s.generateServerMethod(method)\n		}\n	}'))
M("S39", "b4 name with prefix", (G, '		s.P("case ", strconv.Quote(methodID), ":")', '		if strings.HasPrefix(methodID, "_") {\n			continue\n		}\n		s.P("case ", strconv.Quote(methodID), ":")'))
M("S39", "b4 no build info", (G, '	if bi, ok := debug.ReadBuildInfo(); ok {\n		s.P("// protoc-gen-srpc version: ", bi.Main.Version)\n	}\n', '	bi, ok := debug.ReadBuildInfo()\n	if !ok {\n		return\n	}\n	s.P("// protoc-gen-srpc version: ", bi.Main.Version)\n'))
M("S39", "b4 srpc imported late", (G, '''	s.P("SRPCClient() ", s.Ident(SRPCPackage, "Client"))
''', '''	for _, method := range service.Methods {
		_ = s.InputType(method)
	}
	s.P("SRPCClient() ", s.Ident(SRPCPackage, "Client"))
'''))
M("S39", "b4 mux nil impl", (G, '"(impl, \\"\\"))")', '"(impl, \\"x\\"))")'))

R("S39 helper for kinds", (G, '''	if !p.Desc.IsStreamingServer() && !p.Desc.IsStreamingClient() {
		s.P("out''', '''	if isUnary(p) {
		s.P("out'''), (G, '//\n// server methods\n//\n', '''// isUnary checks if neither side streams.
func isUnary(m *protogen.Method) bool {
	switch {
	case m.Desc.IsStreamingServer():
		return false
	case m.Desc.IsStreamingClient():
		return false
	}
	return true
}

//
// server methods
//
'''))
R("S39 sprintf", (G, '''	return "SRPC" +
		strings.ReplaceAll(method.Parent.GoName, "_", "__") + "_" +
		strings.ReplaceAll(method.GoName, "_", "__") +
		"Stream"''', '''	esc := func(name string) string { return strings.ReplaceAll(name, "_", "__") }
	return fmt.Sprintf("SRPC%s_%sStream", esc(method.Parent.GoName), esc(method.GoName))'''))
R("S39 index loops", (G, '	for _, method := range service.Methods {\n		s.generateServerMethod(method)\n	}', '	for i := 0; i < len(service.Methods); i++ {\n		s.generateServerMethod(service.Methods[i])\n	}'))
R("S39 joined ids", (G, '''	for _, method := range service.Methods {
		_, methodID := s.GetServiceAndMethodID(method)
		s.P(strconv.Quote(methodID), ",")
	}
''', '''	var ids []string
	for _, method := range service.Methods {
		_, methodID := s.GetServiceAndMethodID(method)
		ids = append(ids, strconv.Quote(methodID)+",")
	}
	s.P(strings.Join(ids, "\\n"))
'''))
R("S39 builder", (G, '''	var ret string
	// if the server isn't''', '''	var ret string
	var sb strings.Builder
	sb.WriteString(method.GoName)
	sb.WriteByte('(')
	for i, arg := range reqArgs {
		if i != 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(arg)
	}
	sb.WriteString(") ")
	// if the server isn't'''), (G, '	return method.GoName + "(" + strings.Join(reqArgs, ", ") + ") " + ret\n', '	return sb.String() + ret\n'))
R("S39 lines at once", (G, '''		s.P("func (x *", s.ServerStreamImpl(method), ") RecvTo(m *", s.InputType(method), ") error {")
		s.P("return x.MsgRecv(m)")
		s.P("}")
		s.P()
''', '''		s.P("func (x *", s.ServerStreamImpl(method), ") RecvTo(m *", s.InputType(method), ") error {\\n", "return x.MsgRecv(m)\\n", "}\\n")
'''))
R("S39 emit helper", (G, '// service generation\n', '''// lines prints lines.
func (s *srpc) lines(ls ...string) {
	for _, l := range ls {
		s.P(l)
	}
}

// service generation
'''), (G, '''				s.P("if err != nil { return err }")
				s.P("return strm.MsgSend(out)")
			}
		} else {''', '''				s.lines("if err != nil { return err }", "return strm.MsgSend(out)")
			}
		} else {'''))
R("S39 message order", (G, '''	genSend := method.Desc.IsStreamingServer()
	genSendAndClose := method.Desc.IsStreamingServer()
	genRecv := method.Desc.IsStreamingClient()
''', '''	genRecv := method.Desc.IsStreamingClient()
	genSend := method.Desc.IsStreamingServer()
	genSendAndClose := genSend
'''))
R("S39 recv calls recvto", (G, '''		s.P("m := new(", s.InputType(method), ")")
		s.P("if err := x.MsgRecv(m); err != nil { return nil, err }")''', '''		s.P("m := &", s.InputType(method), "{}")
		s.P("if err := x.RecvTo(m); err != nil { return nil, err }")'''))
R("S39 deferred features", (G, '''	opts.Run(func(plugin *protogen.Plugin) error {
''', '''	opts.Run(func(plugin *protogen.Plugin) error {
		defer func() {
			plugin.SupportedFeatures |= uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL)
		}()
'''), (G, '		plugin.SupportedFeatures = uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL)\n', ''))
R("S39 named function", (G, "	opts.Run(func(plugin *protogen.Plugin) error {\n", "	opts.Run(generate)\n}\n\nfunc generate(plugin *protogen.Plugin) error {\n"), (G, "		return nil\n	})\n}\n", "		return nil\n}\n"))
R("S39 comment helper", (G, '''	comment := method.Comments.Leading.String()
	if comment == "" {
		return ""
	}
	// Ensure comment starts with //
	if !strings.HasPrefix(comment, "//") {
		comment = "// " + comment
	}
	// Remove trailing newline if present
	return strings.TrimRight(comment, "\\n")''', '''	return strings.TrimSuffix(method.Comments.Leading.String(), "\\n")'''))
R("S39 kinds switch", (G, '''	reqArg := ", in *" + s.InputType(method)
	if method.Desc.IsStreamingClient() {
		reqArg = ""
	}
	respName := "*" + s.OutputType(method)
	if method.Desc.IsStreamingServer() || method.Desc.IsStreamingClient() {
		respName = s.ClientStreamIface(method)
	}
	return fmt.Sprintf("%s(ctx %s%s) (%s, error)", method.GoName, s.Ident("context", "Context"), reqArg, respName)''', '''	var reqArg, respName string
	switch in, out := method.Desc.IsStreamingClient(), method.Desc.IsStreamingServer(); {
	case in:
		respName = s.ClientStreamIface(method)
	case out:
		reqArg, respName = ", in *"+s.InputType(method), s.ClientStreamIface(method)
	default:
		reqArg, respName = ", in *"+s.InputType(method), "*"+s.OutputType(method)
	}
	return fmt.Sprint(method.GoName, "(ctx ", s.Ident("context", "Context"), reqArg, ") (", respName, ", error)")'''))
R("S39 map of kinds", (G, '''			if method.Desc.IsStreamingServer() {
				// streaming server
				s.P("return impl.", method.GoName, "(clientStrm)")
			} else {''', '''			if kinds := map[string]bool{"server": method.Desc.IsStreamingServer()}; kinds["server"] {
				// streaming server
				s.P("return impl.", method.GoName, "(clientStrm)")
			} else {'''))
R("S39 fprintf", (G, '	s.P("return &", s.ClientImpl(service), "{cc: cc, serviceID: serviceID}")\n', '	fmt.Fprintf(s, "return &%s{cc: cc, serviceID: serviceID}\\n", s.ClientImpl(service))\n'))
