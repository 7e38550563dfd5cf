"JSON and text forms of the messages."
from cases import M, R
S = "srpc/rpcproto.pb.go"
P = "rpcstream/rpcstream.pb.go"
E = "echo/echo.pb.go"

def W(name):
    return '\t\ts.WriteMoreIf(&wroteField)\n\t\ts.WriteObjectField("%s")\n' % name

M("S59", "json name", (S, 's.WriteObjectField("dataIsZero")', 's.WriteObjectField("data_is_zero")'))
M("S59", "json other name", (S, 's.WriteObjectField("rpcMethod")', 's.WriteObjectField("rpcService")'))
M("S59", "json no more", (S, W("complete"), '\t\ts.WriteObjectField("complete")\n'))
M("S59", "json more twice", (S, W("complete"), '\t\ts.WriteMoreIf(&wroteField)\n' + W("complete")))
M("S59", "json value", (S, "s.WriteBool(x.Complete)", "s.WriteBool(x.DataIsZero)"))
M("S59", "json true", (S, "s.WriteBool(x.Complete)", "s.WriteBool(true)"))
M("S59", "json kind", (S, "s.WriteBytes(x.Data)", "s.WriteString(string(x.Data))"))
M("S59", "json dropped", (S, 'if x.Error != "" || s.HasField("error") {', 'if x.Error != "" && s.HasField("error") {'))
M("S59", "json dropped with complete", (S, 'if x.Error != "" || s.HasField("error") {', 'if x.Error != "" && !x.Complete || s.HasField("error") {'))
M("S59", "json case missing", (P, '\t\tcase *RpcStreamPacket_Data:\n\t\t\ts.WriteMoreIf(&wroteField)\n\t\t\ts.WriteObjectField("data")\n\t\t\ts.WriteBytes(ov.Data)\n', ''))
M("S59", "json case empty", (P, '\t\t\ts.WriteMoreIf(&wroteField)\n\t\t\ts.WriteObjectField("data")\n\t\t\ts.WriteBytes(ov.Data)\n', '\t\t\tif len(ov.Data) != 0 {\n\t\t\t\ts.WriteMoreIf(&wroteField)\n\t\t\t\ts.WriteObjectField("data")\n\t\t\t\ts.WriteBytes(ov.Data)\n\t\t\t}\n'))
M("S59", "json cases swapped", (P, 's.WriteObjectField("init")\n\t\t\tov.Init.MarshalProtoJSON', 's.WriteObjectField("ack")\n\t\t\tov.Init.MarshalProtoJSON'))
M("S59", "json not ended", (E, "\ts.WriteObjectEnd()\n", ""))
M("S59", "json nil object", (E, "\tif x == nil {\n\t\ts.WriteNil()\n\t\treturn\n\t}\n", "\tif x == nil {\n\t\ts.WriteObjectStart()\n\t\ts.WriteObjectEnd()\n\t\treturn\n\t}\n"))
M("S59", "json nil twice", (E, "\t\ts.WriteNil()\n\t\treturn\n", "\t\ts.WriteNil()\n\t\tx = &EchoMsg{}\n"))
M("S59", "json reset after", (E, "\t\ts.WriteString(x.Body)\n", "\t\ts.WriteString(x.Body)\n\t\tx.Body = \"\"\n"))
M("S59", "read other field", (S, "x.Complete = s.ReadBool()", "x.DataIsZero = s.ReadBool()"))
M("S59", "read both", (S, "x.Complete = s.ReadBool()", "x.Complete = s.ReadBool()\n\t\t\tx.Error = \"\""))
M("S59", "read snake only", (S, 'case "data_is_zero", "dataIsZero":', 'case "data_is_zero":'))
M("S59", "read camel only", (S, 'case "call_start", "callStart":', 'case "callStart":'))
M("S59", "read name", (S, 'case "call_start", "callStart":', 'case "call_start", "callStart", "start":'))
M("S59", "read no skip", (S, "\t\t\ts.Skip() // ignore unknown field\n", ""))
M("S59", "read default resets", (E, "\t\t\ts.Skip() // ignore unknown field\n", "\t\t\ts.Skip() // ignore unknown field\n\t\t\tx.Body = \"\"\n"))
M("S59", "read twice", (E, "x.Body = s.ReadString()", "_ = s.ReadString()\n\t\t\tx.Body = s.ReadString()"))
M("S59", "read append", (E, "x.Body = s.ReadString()", "x.Body += s.ReadString()"))
M("S59", "read if empty", (E, "x.Body = s.ReadString()", "if v := s.ReadString(); x.Body == \"\" {\n\t\t\t\tx.Body = v\n\t\t\t}"))
M("S59", "read case not set", (P, "\t\t\tov := &RpcStreamPacket_Data{}\n\t\t\tx.Body = ov\n", "\t\t\tov := &RpcStreamPacket_Data{}\n"))
M("S59", "read wrong case", (S, "\t\t\tov := &Packet_CallCancel{}\n\t\t\tx.Body = ov\n", "\t\t\tov := &Packet_CallCancel{}\n\t\t\tx.Body = &Packet_CallCancel{}\n"))
M("S59", "read null message", (S, "\t\t\t\tov.CallStart = nil\n\t\t\t\treturn\n", "\t\t\t\tov.CallStart = nil\n"))
M("S59", "read null keeps", (S, "\t\t\t\tov.CallData = nil\n\t\t\t\treturn\n", "\t\t\t\tov.CallData = &CallData{}\n\t\t\t\treturn\n"))
M("S59", "read nested other", (P, 'ov.Init.UnmarshalProtoJSON(s.WithField("init", true))', '(&RpcStreamInit{}).UnmarshalProtoJSON(s.WithField("init", true))'))
M("S59", "read null resets", (E, "\tif s.ReadNil() {\n\t\treturn\n\t}\n\ts.ReadObject", "\tif s.ReadNil() {\n\t\tx.Body = \"\"\n\t\treturn\n\t}\n\ts.ReadObject"))
M("S59", "read null ignored", (E, "\tif s.ReadNil() {\n\t\treturn\n\t}\n\ts.ReadObject", "\ts.ReadNil()\n\ts.ReadObject"))
M("S59", "whole other", (E, "return json.DefaultMarshalerConfig.Marshal(x)", "return json.DefaultMarshalerConfig.Marshal(&EchoMsg{})"))
M("S59", "whole error", (E, "return json.DefaultUnmarshalerConfig.Unmarshal(b, x)", "_ = json.DefaultUnmarshalerConfig.Unmarshal(b, x)\n\treturn nil"))
M("S59", "text name", (S, 'sb.WriteString("complete: ")', 'sb.WriteString("completed: ")'))
M("S59", "text unquoted", (S, "sb.WriteString(strconv.Quote(x.Error))", "sb.WriteString(x.Error)"))
M("S59", "text dropped", (S, '\tif x.Complete != false {\n\t\tif sb', '\tif x.Complete != false && x.Error == "" {\n\t\tif sb'))
M("S59", "text negated", (S, '\tif x.Complete != false {\n\t\tif sb', '\tif x.Complete != true {\n\t\tif sb'))
M("S59", "text length", (S, '\tif x.DataIsZero != false {\n\t\tif sb.Len() > 10 {', '\tif x.DataIsZero != false {\n\t\tif sb.Len() > 100 {'))
M("S59", "text no space", (S, '\tif x.DataIsZero != false {\n\t\tif sb.Len() > 10 {\n\t\t\tsb.WriteString(" ")\n\t\t}\n', '\tif x.DataIsZero != false {\n'))
M("S59", "text no brace", (S, '\t\tsb.WriteString(strconv.Quote(x.Error))\n\t}\n\tsb.WriteString("}")\n', '\t\tsb.WriteString(strconv.Quote(x.Error))\n\t}\n'))
M("S59", "text raw bytes", (S, "sb.WriteString(base64.StdEncoding.EncodeToString(x.Data))", "sb.WriteString(base64.RawStdEncoding.EncodeToString(x.Data))"))
M("S59", "text bool", (S, "strconv.FormatBool(x.Complete)", "strconv.FormatBool(x.DataIsZero)"))
M("S59", "text case", (P, 'sb.WriteString(body.Init.MarshalProtoText())', 'sb.WriteString((&RpcStreamInit{}).MarshalProtoText())'))
M("S59", "text string", (E, "return x.MarshalProtoText()", "return x.Body"))
R("S59 json writer local", (E, "\tif x.Body != \"\" || s.HasField(\"body\") {", "\tbody := x.Body\n\tif len(body) != 0 || s.HasField(\"body\") {"), (E, "s.WriteString(x.Body)\n\t}\n\ts.WriteObjectEnd", "s.WriteString(body)\n\t}\n\ts.WriteObjectEnd"))
R("S59 json always", (E, "\tif x.Body != \"\" || s.HasField(\"body\") {\n", "\t{\n"))
R("S59 json order", (S, '\tif x.Complete || s.HasField("complete") {\n' + W("complete") + '\t\ts.WriteBool(x.Complete)\n\t}\n\tif x.Error != "" || s.HasField("error") {\n' + W("error") + '\t\ts.WriteString(x.Error)\n\t}\n', '\tif x.Error != "" || s.HasField("error") {\n' + W("error") + '\t\ts.WriteString(x.Error)\n\t}\n\tif x.Complete || s.HasField("complete") {\n' + W("complete") + '\t\ts.WriteBool(x.Complete)\n\t}\n'))
R("S59 json field helper", (S, W("complete"), '\t\tjsonField(s, &wroteField, "complete")\n'), (S, "// MarshalJSON marshals the CallData", 'func jsonField(s *json.MarshalState, wrote *bool, name string) {\n\ts.WriteMoreIf(wrote)\n\ts.WriteObjectField(name)\n}\n\n// MarshalJSON marshals the CallData'))
R("S59 json no outer if", (P, "\tif x.Body != nil {\n\t\tswitch ov := x.Body.(type) {\n\t\tcase *RpcStreamPacket_Init:\n\t\t\ts.WriteMoreIf", "\t{\n\t\tswitch ov := x.Body.(type) {\n\t\tcase *RpcStreamPacket_Init:\n\t\t\ts.WriteMoreIf"))
R("S59 read method", (E, "\ts.ReadObject(func(key string) {\n\t\tswitch key {\n\t\tdefault:\n\t\t\ts.Skip() // ignore unknown field\n\t\tcase \"body\":\n\t\t\ts.AddField(\"body\")\n\t\t\tx.Body = s.ReadString()\n\t\t}\n\t})\n}\n", "\ts.ReadObject(func(key string) { x.readField(s, key) })\n}\n\nfunc (x *EchoMsg) readField(s *json.UnmarshalState, key string) {\n\tif key == \"body\" {\n\t\ts.AddField(\"body\")\n\t\tx.Body = s.ReadString()\n\t\treturn\n\t}\n\ts.Skip()\n}\n"))
R("S59 read wrapper late", (P, "\t\t\tov := &RpcStreamPacket_Data{}\n\t\t\tx.Body = ov\n\t\t\tov.Data = s.ReadBytes()\n", "\t\t\tdata := s.ReadBytes()\n\t\t\tx.Body = &RpcStreamPacket_Data{Data: data}\n"))
R("S59 read message late", (P, "\t\t\tov.Init = &RpcStreamInit{}\n\t\t\tov.Init.UnmarshalProtoJSON(s.WithField(\"init\", true))\n", "\t\t\tin := new(RpcStreamInit)\n\t\t\tin.UnmarshalProtoJSON(s.WithField(\"init\", true))\n\t\t\tov.Init = in\n"))
R("S59 text first flag", (S, '\tif x.DataIsZero != false {\n\t\tif sb.Len() > 10 {', '\tif x.DataIsZero != false {\n\t\tif x.Data != nil {'))
R("S59 text const", (S, "strconv.FormatBool(x.Complete)", '"true"'))
R("S59 text joined", (S, '\t\tsb.WriteString("error: ")\n\t\tsb.WriteString(strconv.Quote(x.Error))\n', '\t\tsb.WriteString("error: " + strconv.Quote(x.Error))\n'))
R("S59 text byte", (E, '\tsb.WriteString("}")\n', "\tsb.WriteByte('}')\n"))
G = "\tif m == nil {\n\t\treturn 0\n\t}\n"
M("S36", "nil size", (S, "func (m *CallData) SizeVT() (n int) {\n" + G, "func (m *CallData) SizeVT() (n int) {\n"))
M("S36", "nil encode", (S, "func (m *CallData) MarshalToSizedBufferVT(dAtA []byte) (int, error) {\n\tif m == nil {\n\t\treturn 0, nil\n\t}\n", "func (m *CallData) MarshalToSizedBufferVT(dAtA []byte) (int, error) {\n"))
M("S38", "nil getter", (S, "func (x *CallData) GetError() string {\n\tif x != nil {\n\t\treturn x.Error\n\t}\n\treturn \"\"\n}", "func (x *CallData) GetError() string {\n\treturn x.Error\n}"))
M("S38", "nil getter oneof", (S, "func (m *Packet) GetBody() isPacket_Body {\n\tif m != nil {\n\t\treturn m.Body\n\t}\n\treturn nil\n}", "func (m *Packet) GetBody() isPacket_Body {\n\treturn m.Body\n}"))
M("S38", "nil getter case", (S, "if x, ok := x.GetBody().(*Packet_CallStart); ok {", "if x, ok := x.Body.(*Packet_CallStart); ok {"))
M("S38", "nil clone", (S, "func (m *CallData) CloneVT() *CallData {\n\tif m == nil {\n\t\treturn (*CallData)(nil)\n\t}\n", "func (m *CallData) CloneVT() *CallData {\n"))
M("S38", "nil clone message", (S, "func (m *CallData) CloneMessageVT() protobuf_go_lite.CloneMessage {\n\treturn m.CloneVT()", "func (m *CallData) CloneMessageVT() protobuf_go_lite.CloneMessage {\n\tif len(m.Error) == 0 {\n\t\treturn m.CloneVT()\n\t}\n\treturn m.CloneVT()"))
M("S38", "nil equal that", (S, "func (this *CallData) EqualVT(that *CallData) bool {\n\tif this == that {\n\t\treturn true\n\t} else if this == nil || that == nil {", "func (this *CallData) EqualVT(that *CallData) bool {\n\tif this == that {\n\t\treturn true\n\t} else if this == nil {"))
M("S59", "json nil guard", (E, "\tif x == nil {\n\t\ts.WriteNil()\n\t\treturn\n\t}\n", ""))
R("S38 nil getter inverted", (S, "func (x *CallData) GetError() string {\n\tif x != nil {\n\t\treturn x.Error\n\t}\n\treturn \"\"\n}", "func (x *CallData) GetError() string {\n\tif x == nil {\n\t\treturn \"\"\n\t}\n\treturn x.Error\n}"))
R("S38 equal order", (S, "func (this *CallData) EqualVT(that *CallData) bool {\n\tif this == that {\n\t\treturn true\n\t} else if this == nil || that == nil {\n\t\treturn false\n\t}", "func (this *CallData) EqualVT(that *CallData) bool {\n\tif this == nil || that == nil {\n\t\treturn this == that\n\t}\n\tif this == that {\n\t\treturn true\n\t}"))
R("S36 size guard", (S, "func (m *CallData) SizeVT() (n int) {\n" + G, "func (m *CallData) SizeVT() (n int) {\n\tif m == (*CallData)(nil) {\n\t\treturn 0\n\t}\n"))
