"""Whole functions written differently, the same behaviour (second round)."""
from cases import R
from blind1 import fn

A = "srpc/accept.go"
R("b2 accept helper", fn(A, "func AcceptMuxedListener(", '''
func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yamuxConf *yamux.Config) error {
	for {
		nc, err := lis.Accept()
		if err != nil {
			return err
		}
		if mc, err := NewMuxedConn(nc, false, yamuxConf); err == nil {
			go serveMuxedConn(ctx, srv, nc, mc)
		} else {
			_ = nc.Close()
		}
	}
}

// serveMuxedConn serves the streams of the connection, then closes it.
func serveMuxedConn(ctx context.Context, srv *Server, nc net.Conn, mc network.MuxedConn) {
	defer nc.Close()
	_ = srv.AcceptMuxedConn(ctx, mc)
}
'''), (A, '''	"net"
''', '''	"net"

	"github.com/libp2p/go-libp2p/core/network"
'''))
R("b2 accept all in goroutine err first", fn(A, "func AcceptMuxedListener(", '''
func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yamuxConf *yamux.Config) error {
	var nc net.Conn
	var err error
	for nc, err = lis.Accept(); err == nil; nc, err = lis.Accept() {
		conn := nc
		mc, merr := NewMuxedConn(conn, false, yamuxConf)
		if merr != nil {
			_ = conn.Close()
			continue
		}
		go func() {
			defer func() { _ = conn.Close() }()
			_ = srv.AcceptMuxedConn(ctx, mc)
		}()
	}
	return err
}
'''))
MC = "srpc/muxed-conn.go"
R("b2 muxed conn func value", fn(MC, "func NewMuxedConn(", '''
func NewMuxedConn(conn net.Conn, outbound bool, yamuxConf *yamux.Config) (network.MuxedConn, error) {
	conf := yamuxConf
	if conf == nil {
		conf = NewYamuxConfig()
	}
	if outbound {
		sess, err := yamux.Client(conn, conf, nil)
		if err != nil {
			return nil, err
		}
		return ymuxer.NewMuxedConn(sess), nil
	}
	sess, err := yamux.Server(conn, conf, nil)
	if err != nil {
		return nil, err
	}
	return ymuxer.NewMuxedConn(sess), nil
}
'''))
R("b2 muxed conn newSession", fn(MC, "func NewMuxedConn(", '''
func NewMuxedConn(conn net.Conn, outbound bool, yamuxConf *yamux.Config) (network.MuxedConn, error) {
	if yamuxConf == nil {
		yamuxConf = NewYamuxConfig()
	}
	newSession := yamux.Server
	if outbound {
		newSession = yamux.Client
	}
	sess, err := newSession(conn, yamuxConf, nil)
	if err != nil {
		return nil, err
	}
	return ymuxer.NewMuxedConn(sess), nil
}
'''))
R("b2 open stream helper", fn(MC, "func NewOpenStreamWithMuxedConn(", '''
func NewOpenStreamWithMuxedConn(conn network.MuxedConn) OpenStreamFunc {
	return func(ctx context.Context, msgHandler PacketDataHandler, closeHandler CloseHandler) (PacketWriter, error) {
		mstrm, err := conn.OpenStream(ctx)
		if err != nil {
			return nil, filterOpenErr(ctx, err)
		}
		prw := NewPacketReadWriter(mstrm)
		go func() {
			prw.ReadPump(msgHandler, closeHandler)
		}()
		return prw, nil
	}
}

// filterOpenErr prefers the context canceled error over a timeout.
func filterOpenErr(ctx context.Context, err error) error {
	if ctx.Err() == nil {
		return err
	}
	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {
		return context.Canceled
	}
	return err
}
'''))
R("b2 client with conn inline", fn(MC, "func NewClientWithConn(", '''
func NewClientWithConn(conn net.Conn, outbound bool, yamuxConf *yamux.Config) (Client, error) {
	var client Client
	mconn, err := NewMuxedConn(conn, outbound, yamuxConf)
	if err == nil {
		client = NewClientWithMuxedConn(mconn)
	}
	return client, err
}
'''), fn(MC, "func NewClientWithMuxedConn(", '''
func NewClientWithMuxedConn(conn network.MuxedConn) Client {
	return NewClient(NewOpenStreamWithMuxedConn(conn))
}
'''), fn(MC, "func NewMuxedConnWithRwc(", '''
func NewMuxedConnWithRwc(
	ctx context.Context,
	rwc io.ReadWriteCloser,
	outbound bool,
	yamuxConf *yamux.Config,
) (network.MuxedConn, error) {
	conn := NewRwcConn(ctx, rwc, nil, nil, 10)
	return NewMuxedConn(conn, outbound, yamuxConf)
}
'''), fn(MC, "func NewYamuxConfig(", '''
func NewYamuxConfig() *yamux.Config {
	config := new(yamux.Config)
	*config = *ymuxer.DefaultTransport.Config()
	config.EnableKeepAlive = false
	config.AcceptBacklog = 512
	return config
}
'''))
N = "srpc/net.go"
R("b2 dial with NewClientWithConn", fn(N, "func Dial(", '''
func Dial(addr string) (Client, error) {
	nconn, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return NewClientWithConn(nconn, true, nil)
}
'''))
R("b2 listen defer func", fn(N, "func Listen(", '''
func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) error {
	lis, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	defer func() {
		_ = lis.Close()
	}()
	return waitListen(ctx, startListen(ctx, lis, srv), errCh)
}

func startListen(ctx context.Context, lis net.Listener, srv *Server) <-chan error {
	listenErrCh := make(chan error, 1)
	go func() {
		err := AcceptMuxedListener(ctx, lis, srv, nil)
		listenErrCh <- err
	}()
	return listenErrCh
}

func waitListen(ctx context.Context, listenErrCh, errCh <-chan error) (err error) {
	select {
	case err = <-listenErrCh:
	case err = <-errCh:
	case <-ctx.Done():
		err = context.Canceled
	}
	return err
}
'''))
SV = "srpc/server.go"
R("b2 handle stream", fn(SV, "func (s *Server) HandleStream(", '''
func (s *Server) HandleStream(ctx context.Context, rwc io.ReadWriteCloser) {
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	pump := NewPacketReadWriter(rwc)
	rpc := NewServerRPC(ctx, s.GetInvoker(), pump)
	onData, onClose := rpc.HandlePacketData, rpc.HandleStreamClose
	pump.ReadPump(onData, onClose)
}
'''), fn(SV, "func (s *Server) AcceptMuxedConn(", '''
func (s *Server) AcceptMuxedConn(ctx context.Context, mc network.MuxedConn) error {
	for ctx.Err() == nil {
		if mc.IsClosed() {
			return io.EOF
		}
		muxedStream, err := mc.AcceptStream()
		if err != nil {
			return err
		}
		go func() {
			s.HandleStream(ctx, muxedStream)
		}()
	}
	return context.Canceled
}
'''))
R("b2 accept conn select", fn(SV, "func (s *Server) AcceptMuxedConn(", '''
func (s *Server) AcceptMuxedConn(ctx context.Context, mc network.MuxedConn) error {
	for {
		strm, err := s.nextStream(ctx, mc)
		if err != nil {
			return err
		}
		go s.HandleStream(ctx, strm)
	}
}

// nextStream accepts the next stream.
func (s *Server) nextStream(ctx context.Context, mc network.MuxedConn) (network.MuxedStream, error) {
	select {
	case <-ctx.Done():
		return nil, context.Canceled
	default:
	}
	if mc.IsClosed() {
		return nil, io.EOF
	}
	return mc.AcceptStream()
}
'''))
H = "srpc/server-http.go"
R("b2 http helper", fn(H, "func (s *HTTPServer) ServeHTTP(", '''
func (s *HTTPServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if !s.matchPath(r) {
		return
	}

	c, err := websocket.Accept(w, r, s.acceptOpts)
	if err != nil {
		return
	}
	defer c.Close(websocket.StatusInternalError, "closed")

	if err := s.serveConn(r.Context(), c); err != nil && err != io.EOF && err != context.Canceled {
		c.Close(websocket.StatusInternalError, err.Error())
	}
}

func (s *HTTPServer) matchPath(r *http.Request) bool {
	return s.path == "" || r.URL.Path == s.path
}

func (s *HTTPServer) serveConn(ctx context.Context, c *websocket.Conn) error {
	wsConn, err := NewWebSocketConn(ctx, c, true, nil)
	if err != nil {
		return err
	}
	for {
		strm, err := wsConn.AcceptStream()
		if err != nil {
			return err
		}
		go s.srpc.HandleStream(ctx, strm)
	}
}
'''), fn(H, "func NewHTTPServer(", '''
func NewHTTPServer(mux Mux, path string, acceptOpts *websocket.AcceptOptions) (*HTTPServer, error) {
	s := &HTTPServer{mux: mux, path: path}
	s.srpc = NewServer(s.mux)
	s.acceptOpts = acceptOpts
	return s, nil
}
'''))
SP = "srpc/server-pipe.go"
R("b2 server pipe order", fn(SP, "func NewServerPipe(", '''
func NewServerPipe(server *Server) OpenStreamFunc {
	return func(ctx context.Context, msgHandler PacketDataHandler, closeHandler CloseHandler) (PacketWriter, error) {
		clientPipe, srvPipe := net.Pipe()
		clientPrw := NewPacketReadWriter(clientPipe)
		go clientPrw.ReadPump(msgHandler, closeHandler)
		go func() {
			server.HandleStream(ctx, srvPipe)
		}()
		return clientPrw, nil
	}
}
'''))
R("b2 websocket vars", fn("srpc/websocket.go", "func NewWebSocketConn(", '''
func NewWebSocketConn(
	ctx context.Context,
	conn *websocket.Conn,
	isServer bool,
	yamuxConf *yamux.Config,
) (network.MuxedConn, error) {
	outbound := true
	if isServer {
		outbound = false
	}
	return NewMuxedConn(websocket.NetConn(ctx, conn, websocket.MessageBinary), outbound, yamuxConf)
}
'''))
SR = "srpc/stream-rwc.go"
R("b2 rwc read simple", fn(SR, "func (s *StreamRwc) Read(", '''
func (s *StreamRwc) Read(p []byte) (n int, err error) {
	if len(p) == 0 {
		return 0, nil
	}
	for s.buf.Len() == 0 {
		s.readMsg.Clear()
		if err := s.MsgRecv(&s.readMsg); err != nil {
			return 0, err
		}
		if data := s.readMsg.GetData(); len(data) != 0 {
			n = copy(p, data)
			_, _ = s.buf.Write(data[n:])
			return n, nil
		}
	}
	return s.buf.Read(p)
}
'''), fn(SR, "func (s *StreamRwc) Write(", '''
func (s *StreamRwc) Write(p []byte) (int, error) {
	s.writeMsg.SetData(p)
	defer s.writeMsg.Clear()
	if err := s.MsgSend(&s.writeMsg); err != nil {
		return 0, err
	}
	return len(p), nil
}
'''), fn(SR, "func NewStreamRwc(", '''
func NewStreamRwc(strm Stream) *StreamRwc {
	return &StreamRwc{
		Stream:   strm,
		readMsg:  RawMessage{copy: true},
		writeMsg: RawMessage{copy: true},
	}
}
'''))
R("b2 rwc read helper", fn(SR, "func (s *StreamRwc) Read(", '''
func (s *StreamRwc) Read(p []byte) (n int, err error) {
	for n < len(p) {
		if s.buf.Len() != 0 {
			rn, err := s.buf.Read(p[n:])
			n += rn
			if err != nil {
				return n, err
			}
			continue
		}
		if n > 0 {
			break
		}
		n, err = s.recvInto(p)
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// recvInto receives a message into p, keeping what does not fit.
func (s *StreamRwc) recvInto(p []byte) (int, error) {
	s.readMsg.Clear()
	if err := s.MsgRecv(&s.readMsg); err != nil {
		return 0, err
	}
	data := s.readMsg.GetData()
	n := copy(p, data)
	if rest := data[n:]; len(rest) > 0 {
		_, _ = s.buf.Write(rest)
	}
	return n, nil
}
'''))
PI = "srpc/stream-pipe.go"
R("b2 pipe helper", fn(PI, "func NewPipeStream(", '''
func NewPipeStream(ctx context.Context) (Stream, Stream) {
	s1, s2 := newPipeEnd(ctx), newPipeEnd(ctx)
	s1.other, s2.other = s2, s1
	return s1, s2
}

func newPipeEnd(ctx context.Context) *pipeStream {
	p := &pipeStream{
		closedCh: make(chan struct{}),
		dataCh:   make(chan []byte, 5),
	}
	p.ctx, p.ctxCancel = context.WithCancel(ctx)
	return p
}
'''), fn(PI, "func (p *pipeStream) MsgSend(", '''
func (p *pipeStream) MsgSend(msg Message) error {
	data, err := msg.MarshalVT()
	if err != nil {
		return err
	}
	if p.isClosed() {
		return io.ErrClosedPipe
	}
	select {
	case p.other.dataCh <- data:
		return nil
	case <-p.closedCh:
		return io.ErrClosedPipe
	case <-p.ctx.Done():
		return context.Canceled
	}
}

func (p *pipeStream) isClosed() bool {
	select {
	case <-p.closedCh:
		return true
	default:
		return false
	}
}
'''), fn(PI, "func (p *pipeStream) MsgRecv(", '''
func (p *pipeStream) MsgRecv(msg Message) error {
	data, err := p.recvData()
	if err != nil {
		return err
	}
	return msg.UnmarshalVT(data)
}

func (p *pipeStream) recvData() ([]byte, error) {
	select {
	case data := <-p.dataCh:
		return data, nil
	case <-p.ctx.Done():
		return nil, context.Canceled
	case <-p.other.closedCh:
	}
	// read any remaining messages first
	select {
	case data := <-p.dataCh:
		return data, nil
	default:
	}
	return nil, io.EOF
}
'''), fn(PI, "func (p *pipeStream) Close(", '''
func (p *pipeStream) Close() error {
	p.closeRemote()
	p.ctxCancel()
	return nil
}
'''), fn(PI, "func (p *pipeStream) closeRemote(", '''
func (p *pipeStream) closeRemote() {
	closeCh := func() { close(p.closedCh) }
	p.closeOnce.Do(closeCh)
}
'''))
RW = "srpc/rwc-conn.go"
R("b2 rwc conn write", fn(RW, "func (p *RwcConn) Write(", '''
func (p *RwcConn) Write(pkt []byte) (int, error) {
	total := len(pkt)
	for len(pkt) > 0 {
		n, err := p.rwc.Write(pkt)
		pkt = pkt[n:]
		if err != nil {
			return total - len(pkt), err
		}
	}
	return total, nil
}
'''))
R("b2 rwc conn read", fn(RW, "func (p *RwcConn) Read(", '''
func (p *RwcConn) Read(b []byte) (n int, err error) {
	if n, ok := p.readRest(b); ok {
		return n, nil
	}

	ctx, cancel := p.readContext()
	defer cancel()

	select {
	case <-ctx.Done():
		if p.ctx.Err() != nil {
			return 0, context.Canceled
		}
		return 0, os.ErrDeadlineExceeded
	case pkt, ok := <-p.packetCh:
		if !ok {
			if p.closeErr != nil {
				return 0, p.closeErr
			}
			return 0, io.EOF
		}
		n = copy(b, pkt)
		if rest := pkt[n:]; len(rest) != 0 {
			p.restMtx.Lock()
			p.rest = append(p.rest, rest...)
			p.restMtx.Unlock()
		}
		p.ar.Put(&pkt)
		return n, nil
	}
}

// readRest reads what is left of an earlier read.
func (p *RwcConn) readRest(b []byte) (int, bool) {
	p.restMtx.Lock()
	defer p.restMtx.Unlock()
	if len(p.rest) == 0 {
		return 0, false
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, true
}

// readContext returns the context with the read deadline.
func (p *RwcConn) readContext() (context.Context, context.CancelFunc) {
	if p.rd.IsZero() {
		return p.ctx, func() {}
	}
	return context.WithDeadline(p.ctx, p.rd)
}
'''))
R("b2 rwc conn pump", fn(RW, "func (p *RwcConn) rxPump(", '''
func (p *RwcConn) rxPump() (rerr error) {
	defer close(p.packetCh)
	defer func() {
		p.closeErr = rerr
	}()

	for p.ctx.Err() == nil {
		buf := p.getArenaBuf(connPktSize)
		n, err := p.rwc.Read(buf)
		if n > 0 {
			select {
			case p.packetCh <- buf[:n]:
			case <-p.ctx.Done():
				return context.Canceled
			}
		} else {
			p.ar.Put(&buf)
		}
		if err != nil {
			return err
		}
	}
	return p.ctx.Err()
}
'''), fn(RW, "func (p *RwcConn) getArenaBuf(", '''
func (p *RwcConn) getArenaBuf(size int) []byte {
	if bufp, ok := p.ar.Get().(*[]byte); ok {
		if buf := *bufp; cap(buf) >= size {
			return buf[:size]
		}
	}
	return make([]byte, size)
}
'''), fn(RW, "func (p *RwcConn) Close(", '''
func (p *RwcConn) Close() error {
	defer p.ctxCancel()
	return p.rwc.Close()
}
'''), fn(RW, "func (p *RwcConn) SetDeadline(", '''
func (p *RwcConn) SetDeadline(t time.Time) error {
	if err := p.SetReadDeadline(t); err != nil {
		return err
	}
	return p.SetWriteDeadline(t)
}
'''))
R("b2 rwc conn new", fn(RW, "func NewRwcConn(", '''
func NewRwcConn(
	ctx context.Context,
	rwc io.ReadWriteCloser,
	laddr, raddr net.Addr,
	bufferPacketN int,
) *RwcConn {
	n := bufferPacketN
	if n < 1 {
		n = 10
	}
	c := &RwcConn{rwc: rwc, laddr: laddr, raddr: raddr}
	c.packetCh = make(chan []byte, n)
	c.ctx, c.ctxCancel = context.WithCancel(ctx)
	go c.rxPump() //nolint:errcheck
	return c
}
'''))
M = "srpc/mux.go"
R("b2 mux lookup helper", fn(M, "func (m *mux) InvokeMethod(", '''
func (m *mux) InvokeMethod(serviceID, methodID string, strm Stream) (bool, error) {
	if handler := m.lookupHandler(serviceID, methodID); handler != nil {
		return handler.InvokeMethod(serviceID, methodID, strm)
	}
	return m.invokeFallback(serviceID, methodID, strm)
}

// invokeFallback tries the fallback invokers.
func (m *mux) invokeFallback(serviceID, methodID string, strm Stream) (bool, error) {
	for _, invoker := range m.fallback {
		if invoker == nil {
			continue
		}
		if handled, err := invoker.InvokeMethod(serviceID, methodID, strm); handled || err != nil {
			return handled, err
		}
	}
	return false, nil
}

// lookupHandler looks up the handler of a method.
func (m *mux) lookupHandler(serviceID, methodID string) Handler {
	m.rmtx.RLock()
	defer m.rmtx.RUnlock()
	if serviceID != "" {
		return m.services[serviceID][methodID]
	}
	for _, svc := range m.services {
		if handler, ok := svc[methodID]; ok && handler != nil {
			return handler
		}
	}
	return nil
}
'''))
R("b2 mux register", fn(M, "func (m *mux) Register(", '''
func (m *mux) Register(handler Handler) error {
	serviceID := handler.GetServiceID()
	if len(serviceID) == 0 {
		return ErrEmptyServiceID
	}
	methodIDs := handler.GetMethodIDs()

	m.rmtx.Lock()
	defer m.rmtx.Unlock()
	methods, ok := m.services[serviceID]
	if !ok {
		methods = make(muxMethods, len(methodIDs))
		m.services[serviceID] = methods
	}
	for i := range methodIDs {
		id := methodIDs[i]
		if id == "" {
			continue
		}
		methods[id] = handler
	}
	return nil
}
'''), fn(M, "func (m *mux) HasService(", '''
func (m *mux) HasService(serviceID string) bool {
	m.rmtx.RLock()
	defer m.rmtx.RUnlock()
	return serviceID != "" && len(m.services[serviceID]) > 0
}
'''))
R("b2 mux has method direct", fn(M, "func (m *mux) HasServiceMethod(", '''
func (m *mux) HasServiceMethod(serviceID, methodID string) bool {
	if serviceID == "" || methodID == "" {
		return false
	}

	m.rmtx.RLock()
	defer m.rmtx.RUnlock()
	for _, handler := range m.services[serviceID] {
		if slices.Contains(handler.GetMethodIDs(), methodID) {
			return true
		}
	}
	return false
}
'''), (M, 'import "sync"', 'import (\n\t"slices"\n\t"sync"\n)'))
CS = "srpc/client-set.go"
R("b2 client set", fn(CS, "func (c *ClientSet) execCall(", '''
func (c *ClientSet) execCall(ctx context.Context, doCall func(client Client) error) error {
	result := ErrNoAvailableClients
	for _, client := range c.clients {
		if client == nil {
			continue
		}
		result = ErrUnimplemented
		err := doCall(client)
		switch {
		case err == nil:
			return nil
		case err == context.Canceled:
			if ctx.Err() != nil {
				return context.Canceled
			}
		case err.Error() != ErrUnimplemented.Error():
			return err
		}
	}
	return result
}
'''), fn(CS, "func (c *ClientSet) NewStream(", '''
func (c *ClientSet) NewStream(
	ctx context.Context,
	service, method string,
	firstMsg Message,
) (strm Stream, err error) {
	err = c.execCall(ctx, func(client Client) (cerr error) {
		strm, cerr = client.NewStream(ctx, service, method, firstMsg)
		return cerr
	})
	return strm, err
}
'''))
R("b2 client set retry helper", fn(CS, "func (c *ClientSet) execCall(", '''
func (c *ClientSet) execCall(ctx context.Context, doCall func(client Client) error) error {
	tried := 0
	for i := 0; i < len(c.clients); i++ {
		if c.clients[i] == nil {
			continue
		}
		tried++
		if next, err := tryNext(ctx, doCall(c.clients[i])); !next {
			return err
		}
	}
	if tried == 0 {
		return ErrNoAvailableClients
	}
	return ErrUnimplemented
}

// tryNext checks if the next client should be tried.
func tryNext(ctx context.Context, err error) (bool, error) {
	if err == nil {
		return false, nil
	}
	if err == context.Canceled {
		if ctx.Err() != nil {
			return false, context.Canceled
		}
		return true, nil
	}
	return err.Error() == ErrUnimplemented.Error(), err
}
'''))
I = "srpc/invoker.go"
R("b2 invoker slice", fn(I, "func (s InvokerSlice) InvokeMethod(", '''
func (s InvokerSlice) InvokeMethod(serviceID, methodID string, strm Stream) (bool, error) {
	for i := range s {
		if s[i] == nil {
			continue
		}
		found, err := s[i].InvokeMethod(serviceID, methodID, strm)
		if err != nil {
			return true, err
		}
		if found {
			return true, nil
		}
	}
	return false, nil
}
'''), fn(I, "func (f InvokerFunc) InvokeMethod(", '''
func (f InvokerFunc) InvokeMethod(serviceID, methodID string, strm Stream) (found bool, err error) {
	if f != nil {
		found, err = f(serviceID, methodID, strm)
	}
	return found, err
}
'''))
R("b2 invoker recursion", fn(I, "func (s InvokerSlice) InvokeMethod(", '''
func (s InvokerSlice) InvokeMethod(serviceID, methodID string, strm Stream) (bool, error) {
	found := false
	var err error
	for i := 0; i < len(s) && !found && err == nil; i++ {
		if inv := s[i]; inv != nil {
			found, err = inv.InvokeMethod(serviceID, methodID, strm)
		}
	}
	return found || err != nil, err
}
'''))
R("b2 prefix invoker", fn("srpc/invoker-prefix.go", "func (i *PrefixInvoker) InvokeMethod(", '''
func (i *PrefixInvoker) InvokeMethod(serviceID, methodID string, strm Stream) (bool, error) {
	if len(i.serviceIDPrefixes) == 0 {
		return i.inv.InvokeMethod(serviceID, methodID, strm)
	}
	strippedID, matchedPrefix := CheckStripPrefix(serviceID, i.serviceIDPrefixes)
	if matchedPrefix == "" {
		return false, nil
	}
	return i.inv.InvokeMethod(strippedID, methodID, strm)
}
'''))
CP = "srpc/client-prefix.go"
R("b2 prefix client", fn(CP, "func (i *PrefixClient) ExecCall(", '''
func (i *PrefixClient) ExecCall(ctx context.Context, service, method string, in, out Message) error {
	stripped, err := i.stripCheckServiceIDPrefix(service)
	if err == nil {
		err = i.client.ExecCall(ctx, stripped, method, in, out)
	}
	return err
}
'''), fn(CP, "func (i *PrefixClient) stripCheckServiceIDPrefix(", '''
func (i *PrefixClient) stripCheckServiceIDPrefix(service string) (string, error) {
	if len(i.serviceIDPrefixes) == 0 {
		return service, nil
	}
	stripped, prefix := CheckStripPrefix(service, i.serviceIDPrefixes)
	if prefix == "" {
		return service, ErrUnimplemented
	}
	return stripped, nil
}
'''))
ST = "srpc/strip-prefix.go"
R("b2 strip cutprefix", fn(ST, "func CheckStripPrefix(", '''
func CheckStripPrefix(id string, matchPrefixes []string) (strippedID string, matchedPrefix string) {
	for _, prefix := range matchPrefixes {
		if stripped, ok := strings.CutPrefix(id, prefix); ok {
			return stripped, prefix
		}
	}
	return id, ""
}
'''))
R("b2 strip trim", fn(ST, "func CheckStripPrefix(", '''
func CheckStripPrefix(id string, matchPrefixes []string) (strippedID string, matchedPrefix string) {
	strippedID = id
	for _, prefix := range matchPrefixes {
		if strings.HasPrefix(id, prefix) {
			strippedID, matchedPrefix = strings.TrimPrefix(id, prefix), prefix
			break
		}
	}
	return strippedID, matchedPrefix
}
'''))
ME = "srpc/message.go"
R("b2 raw message", fn(ME, "func (m *RawMessage) SetData(", '''
func (m *RawMessage) SetData(data []byte) {
	if !m.copy {
		m.data = data
		return
	}
	m.data = append(m.data[:0], data...)
}
'''), fn(ME, "func (m *RawMessage) MarshalVT(", '''
func (m *RawMessage) MarshalVT() ([]byte, error) {
	if m.copy {
		return bytes.Clone(m.data), nil
	}
	return m.data, nil
}
'''), fn(ME, "func (m *RawMessage) MarshalToSizedBufferVT(", '''
func (m *RawMessage) MarshalToSizedBufferVT(dAtA []byte) (int, error) {
	size := m.SizeVT()
	if len(dAtA) != size {
		return 0, errors.New("invalid buffer length")
	}
	return copy(dAtA, m.data), nil
}
'''), (ME, '''import (
''', '''import (
	"bytes"
'''))
R("b2 raw message grow", fn(ME, "func (m *RawMessage) SetData(", '''
func (m *RawMessage) SetData(data []byte) {
	if !m.copy {
		m.data = data
		return
	}
	if n := len(data); cap(m.data) < n {
		m.data = make([]byte, n)
	} else {
		m.data = m.data[:n]
	}
	copy(m.data, data)
}
'''), fn(ME, "func (m *RawMessage) MarshalVT(", '''
func (m *RawMessage) MarshalVT() ([]byte, error) {
	if m.copy {
		return append(make([]byte, 0, len(m.data)), m.data...), nil
	}
	return m.data, nil
}
'''))
PK = "srpc/packet.go"
R("b2 packet", fn(PK, "func NewPacketDataHandler(", '''
func NewPacketDataHandler(handler PacketHandler) PacketDataHandler {
	return func(data []byte) error {
		pkt := new(Packet)
		err := pkt.UnmarshalVT(data)
		if err == nil {
			err = handler(pkt)
		}
		return err
	}
}
'''), fn(PK, "func NewCallDataPacket(", '''
func NewCallDataPacket(data []byte, dataIsZero bool, complete bool, err error) *Packet {
	body := &CallData{
		Data:       data,
		DataIsZero: dataIsZero,
		Complete:   complete,
	}
	if err != nil {
		body.Complete = true
		body.Error = err.Error()
	}
	return &Packet{Body: &Packet_CallData{CallData: body}}
}
'''), fn(PK, "func (p *CallStart) Validate(", '''
func (p *CallStart) Validate() error {
	if p.GetRpcMethod() == "" {
		return ErrEmptyMethodID
	}
	if p.GetRpcService() == "" {
		return ErrEmptyServiceID
	}
	return nil
}
'''), fn(PK, "func (p *CallData) Validate(", '''
func (p *CallData) Validate() error {
	hasContent := len(p.GetData()) != 0 || p.GetDataIsZero()
	hasEnd := p.GetComplete() || p.GetError() != ""
	if hasContent || hasEnd {
		return nil
	}
	return ErrEmptyPacket
}
'''), fn(PK, "func (p *Packet) Validate(", '''
func (p *Packet) Validate() error {
	if b, ok := p.GetBody().(*Packet_CallStart); ok {
		return b.CallStart.Validate()
	}
	if b, ok := p.GetBody().(*Packet_CallData); ok {
		return b.CallData.Validate()
	}
	if _, ok := p.GetBody().(*Packet_CallCancel); ok {
		return nil
	}
	return ErrUnrecognizedPacket
}
'''))
R("b2 with close", fn("srpc/stream.go", "func (s *streamWithClose) Close(", '''
func (s *streamWithClose) Close() (err error) {
	defer func() {
		if cerr := s.closeFn(); err == nil {
			err = cerr
		}
	}()
	return s.Stream.Close()
}
'''), fn("srpc/writer.go", "func (s *packetWriterWithClose) Close(", '''
func (s *packetWriterWithClose) Close() error {
	err := s.PacketWriter.Close()
	if err2 := s.closeFn(); err == nil {
		err = err2
	}
	return err
}
'''))
R("b2 with close cmp.Or", fn("srpc/writer.go", "func (s *packetWriterWithClose) Close(", '''
func (s *packetWriterWithClose) Close() error {
	return firstErr(s.PacketWriter.Close(), s.closeFn())
}

func firstErr(errs ...error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}
'''))
V = "srpc/mux-verbose.go"
R("b2 vmux", fn(V, "func (v *VMux) InvokeMethod(", '''
func (v *VMux) InvokeMethod(serviceID, methodID string, strm Stream) (bool, error) {
	t1 := time.Now()
	v.le.Debugf("InvokeMethod(serviceID(%s), methodID(%s)) => started", serviceID, methodID)
	done, err := v.mx.InvokeMethod(serviceID, methodID, strm)
	v.le.Debugf(
		"InvokeMethod(serviceID(%s), methodID(%s)) => dur(%v) done(%v) err(%v)",
		serviceID,
		methodID,
		time.Since(t1).String(),
		done,
		err,
	)
	return done, err
}
'''), fn(V, "func (v *VMux) Register(", '''
func (v *VMux) Register(handler Handler) error {
	if !v.veryVerbose {
		return v.mx.Register(handler)
	}
	t1 := time.Now()
	err := v.mx.Register(handler)
	v.le.Debugf("Register(handler(%v)) => dur(%v) err(%v)", handler, time.Since(t1).String(), err)
	return err
}
'''))
R("b2 vclient", fn("srpc/client-verbose.go", "func (c *VClient) ExecCall(", '''
func (c *VClient) ExecCall(ctx context.Context, service, method string, in, out Message) error {
	t1, id := time.Now(), c.execID.Add(1)-1
	log := c.le.WithField("id", id)
	log.Debugf("ExecCall(service(%s), method(%s)) started", service, method)
	err := c.client.ExecCall(ctx, service, method, in, out)
	log.Debugf("ExecCall(service(%s), method(%s)) => dur(%v) err(%v)", service, method, time.Since(t1).String(), err)
	return err
}
'''), fn("srpc/client-verbose.go", "func (c *VClient) NewStream(", '''
func (c *VClient) NewStream(ctx context.Context, service, method string, firstMsg Message) (stream Stream, err error) {
	defer c.logNewStream(time.Now(), service, method, &err)
	return c.client.NewStream(ctx, service, method, firstMsg)
}

func (c *VClient) logNewStream(start time.Time, service, method string, err *error) {
	c.le.Debugf(
		"NewStream(service(%s), method(%s)) => dur(%v) err(%v)",
		service,
		method,
		time.Since(start).String(),
		*err,
	)
}
'''))

X = "rpcstream/proxy.go"
R("b2 proxy", fn(X, "func HandleProxyRpcStream[", '''
func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T]) error {
	// Read the "init" packet.
	initPkt, err := stream.Recv()
	if err != nil {
		return err
	}
	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || initInner.Init == nil {
		return ErrUnexpectedPacket
	}

	ctx := stream.Context()
	remoteCaller, remoteComponentID, rel, err := getter(ctx, initInner.Init.GetComponentId())
	if rel != nil {
		defer rel()
	}
	var remoteStrm RpcStream
	if err == nil {
		remoteStrm, err = startRemote(ctx, remoteCaller, remoteComponentID)
	}
	if remoteStrm != nil {
		defer remoteStrm.Close()
	}
	if err != nil {
		_ = stream.Send(&RpcStreamPacket{
			Body: &RpcStreamPacket_Ack{
				Ack: &RpcAck{Error: err.Error()},
			},
		})
		return err
	}

	errCh := make(chan error, 2)
	go copyRpcStreamTo(stream, remoteStrm, errCh)
	go copyRpcStreamTo(remoteStrm, stream, errCh)

	err1, err2 := <-errCh, <-errCh
	if err1 == nil || err1 == io.EOF {
		err1 = err2
	}
	if err1 == io.EOF {
		err1 = nil
	}
	return err1
}

func startRemote[T RpcStream](ctx context.Context, caller RpcStreamCaller[T], componentID string) (RpcStream, error) {
	if caller == nil {
		return nil, ErrNoServerForComponent
	}
	var remoteStrm RpcStream
	remoteStrm, err := caller(ctx)
	if err != nil {
		return remoteStrm, err
	}
	if remoteStrm == nil {
		return nil, ErrNoServerForComponent
	}
	return remoteStrm, remoteStrm.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Init{
			Init: &RpcStreamInit{ComponentId: componentID},
		},
	})
}
'''))
R("b2 proxy copy", fn(X, "func copyRpcStreamTo(", '''
func copyRpcStreamTo(s1, s2 RpcStream, errCh chan error) {
	rerr := forwardPackets(s1, s2)
	if cerr := s1.Close(); rerr == nil {
		rerr = cerr
	}
	if rerr == nil {
		rerr = s2.CloseSend()
	} else {
		defer s2.Close()
	}
	if errCh != nil {
		errCh <- rerr
	}
}

// forwardPackets forwards packets until an error occurs.
func forwardPackets(from, to RpcStream) error {
	pkt := srpc.NewRawMessage(nil, true)
	for {
		if err := from.MsgRecv(pkt); err != nil {
			return err
		}
		if pkt.SizeVT() != 0 {
			if err := to.MsgSend(pkt); err != nil {
				return err
			}
			pkt.Clear()
		}
	}
}
'''))
RA = "rpcstream/raw-stream.go"
R("b2 raw", fn(RA, "func HandleRawRpcStream(", '''
func HandleRawRpcStream(stream RpcStream, getter RpcRawGetter) error {
	componentID, err := recvInit(stream)
	if err != nil {
		return err
	}

	remoteRwc, rel, err := getter(stream.Context(), componentID)
	if rel != nil {
		defer rel()
	}
	if remoteRwc != nil {
		defer remoteRwc.Close()
	} else if err == nil {
		err = ErrNoServerForComponent
	}

	// send ack
	ack := &RpcAck{}
	if err != nil {
		ack.Error = err.Error()
	}
	sendErr := stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: ack}})
	if err == nil {
		err = sendErr
	}
	if err != nil {
		return err
	}

	srw := NewRpcStreamReadWriter(stream)
	errCh := make(chan error, 2)
	go copyRwcTo(srw, remoteRwc, errCh)
	go copyRwcTo(remoteRwc, srw, errCh)

	var outErr error
	for n := 0; n < cap(errCh); n++ {
		err := <-errCh
		if outErr == nil && err != io.EOF {
			outErr = err
		}
	}
	return outErr
}

// recvInit receives the init packet.
func recvInit(stream RpcStream) (string, error) {
	pkt, err := stream.Recv()
	if err != nil {
		return "", err
	}
	b, ok := pkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || b.Init == nil {
		return "", ErrUnexpectedPacket
	}
	return b.Init.GetComponentId(), nil
}
'''), fn(RA, "func copyRwcTo(", '''
func copyRwcTo(s1, s2 io.ReadWriteCloser, errCh chan error) {
	_, err := io.CopyBuffer(s2, s1, make([]byte, 8192))
	for _, c := range []io.Closer{s1, s2} {
		_ = c.Close()
	}
	if errCh != nil {
		errCh <- err
	}
}
'''))
R("b2 raw copy defer", fn(RA, "func copyRwcTo(", '''
func copyRwcTo(s1, s2 io.ReadWriteCloser, errCh chan error) {
	_, err := io.Copy(s2, s1)
	_, _ = s2.Close(), s1.Close()
	if errCh == nil {
		return
	}
	errCh <- err
}
'''))
RR = "rpcstream/read-writer.go"
R("b2 read pump", fn(RR, "func ReadPump(", '''
func ReadPump(strm RpcStream, cb srpc.PacketDataHandler, closed srpc.CloseHandler) {
	if closed == nil {
		closed = func(error) {}
	}
	closed(ReadToHandler(strm, cb))
}
'''), fn(RR, "func ReadToHandler(", '''
func ReadToHandler(strm RpcStream, cb srpc.PacketDataHandler) (err error) {
	for err == nil {
		var pkt *RpcStreamPacket
		if pkt, err = strm.Recv(); err != nil {
			break
		}
		if data := pkt.GetData(); len(data) > 0 {
			err = cb(data)
		}
	}
	return err
}
'''))
R("b2 rsrw read", fn(RR, "func (r *RpcStreamReadWriter) Read(", '''
func (r *RpcStreamReadWriter) Read(p []byte) (n int, err error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.buf.Len() == 0 {
		data, err := r.recvData()
		if err != nil {
			return 0, err
		}
		n = copy(p, data)
		_, _ = r.buf.Write(data[n:])
		return n, nil
	}
	return r.buf.Read(p)
}

// recvData receives the next non-empty data packet.
func (r *RpcStreamReadWriter) recvData() ([]byte, error) {
	for {
		pkt, err := r.stream.Recv()
		if err != nil {
			return nil, err
		}
		if ack := pkt.GetAck(); ack.GetError() != "" {
			return nil, errors.New(ack.GetError())
		}
		if data := pkt.GetData(); len(data) != 0 {
			return data, nil
		}
	}
}
'''), fn(RR, "func (r *RpcStreamReadWriter) Write(", '''
func (r *RpcStreamReadWriter) Write(p []byte) (n int, err error) {
	return NewRpcStreamWriter(r.stream).Write(p)
}
'''))
RS = "rpcstream/rpcstream.go"
R("b2 open", fn(RS, "func OpenRpcStream[", '''
func OpenRpcStream[T RpcStream](ctx context.Context, rpcCaller RpcStreamCaller[T], componentID string, waitAck bool) (RpcStream, error) {
	rpcStream, err := rpcCaller(ctx)
	if err != nil {
		return nil, err
	}
	if err := initRpcStream(rpcStream, componentID, waitAck); err != nil {
		_ = rpcStream.Close()
		return nil, err
	}
	return rpcStream, nil
}

// initRpcStream sends the init packet and optionally waits for the ack.
func initRpcStream(strm RpcStream, componentID string, waitAck bool) error {
	init := &RpcStreamInit{ComponentId: componentID}
	if err := strm.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: init}}); err != nil {
		return err
	}
	if !waitAck {
		return nil
	}
	pkt, err := strm.Recv()
	if err != nil {
		return err
	}
	ack, ok := pkt.GetBody().(*RpcStreamPacket_Ack)
	if !ok {
		return errors.New("expected ack packet")
	}
	if errStr := ack.Ack.GetError(); len(errStr) != 0 {
		return errors.Errorf("remote: %s", errStr)
	}
	return nil
}
'''), fn(RS, "func NewRpcStreamOpenStream[", '''
func NewRpcStreamOpenStream[T RpcStream](rpcCaller RpcStreamCaller[T], componentID string, waitAck bool) srpc.OpenStreamFunc {
	return func(ctx context.Context, msgHandler srpc.PacketDataHandler, closeHandler srpc.CloseHandler) (srpc.PacketWriter, error) {
		strm, err := OpenRpcStream(ctx, rpcCaller, componentID, waitAck)
		if err != nil {
			return nil, err
		}
		writer := NewRpcStreamWriter(strm)
		go func() {
			ReadPump(strm, msgHandler, closeHandler)
		}()
		return writer, nil
	}
}
'''))
R("b2 handle", fn(RS, "func HandleRpcStream(", '''
func HandleRpcStream(stream RpcStream, getter RpcStreamGetter) error {
	// Read the "init" packet.
	initPkt, err := stream.Recv()
	if err != nil {
		return err
	}
	var componentID string
	switch b := initPkt.GetBody().(type) {
	case *RpcStreamPacket_Init:
		if b.Init == nil {
			return ErrUnexpectedPacket
		}
		componentID = b.Init.GetComponentId()
	default:
		return ErrUnexpectedPacket
	}

	// lookup the server for this component id
	ctx := stream.Context()
	mux, muxRel, err := getter(ctx, componentID)
	defer func() {
		if muxRel != nil {
			muxRel()
		}
	}()
	if mux == nil && err == nil {
		err = ErrNoServerForComponent
	}
	if err != nil {
		_ = sendAck(stream, err.Error())
		return err
	}
	if err := sendAck(stream, ""); err != nil {
		return err
	}

	// handle the rpc
	writer := NewRpcStreamWriter(stream)
	rpc := srpc.NewServerRPC(ctx, mux, writer)
	go func() {
		ReadPump(stream, rpc.HandlePacketData, rpc.HandleStreamClose)
	}()
	return rpc.Wait(ctx)
}

// sendAck sends the ack packet.
func sendAck(stream RpcStream, errStr string) error {
	return stream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Ack{
			Ack: &RpcAck{Error: errStr},
		},
	})
}
'''))
W = "rpcstream/writer.go"
R("b2 rs writer", fn(W, "func (r *RpcStreamWriter) Write(", '''
func (r *RpcStreamWriter) Write(p []byte) (n int, err error) {
	if n = len(p); n == 0 {
		return 0, nil
	}
	pkt := &RpcStreamPacket{Body: &RpcStreamPacket_Data{Data: p}}
	if err := r.RpcStream.Send(pkt); err != nil {
		return 0, err
	}
	return n, nil
}
'''), fn(W, "func (r *RpcStreamWriter) WritePacket(", '''
func (r *RpcStreamWriter) WritePacket(p *srpc.Packet) error {
	data, err := p.MarshalVT()
	if err == nil {
		_, err = r.Write(data)
	}
	return err
}
'''))
