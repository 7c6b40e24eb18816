// Package nx holds what the network checks share: server set-up on a private
// loopback address, raw peers for every transport, and a logger that perturbs
// the schedule.
package nx

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"

	"verif/hx"
)

// Ports below the ephemeral range; every worker process has its own address.
const (
	TCPPort = 21001
	WSPort  = 21002
	KCPPort = 21003
)

// IP is this process's private loopback address.
func IP() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 64+(p>>16)&63, (p>>8)&255, p&255)
}

// Liveness limit: generous, because the machine may be loaded.
const Patience = 30 * time.Second

type jitterLog struct{ n, seed uint64 }

func (j *jitterLog) hit() {
	if j.seed == 0 {
		return
	}
	x := atomic.AddUint64(&j.n, 1)*0x9E3779B97F4A7C15 ^ j.seed*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	switch x % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(x>>8%120) * time.Microsecond)
	case 3:
		for i := 0; i < int(x>>8%5); i++ {
			runtime.Gosched()
		}
	}
}
func (j *jitterLog) InfoF(string, ...interface{})                    { j.hit() }
func (j *jitterLog) ErrorF(string, ...interface{})                   { j.hit() }
func (j *jitterLog) DebugF(string, ...interface{})                   { j.hit() }
func (j *jitterLog) InfoFX(context.Context, string, ...interface{})  { j.hit() }
func (j *jitterLog) ErrorFX(context.Context, string, ...interface{}) { j.hit() }
func (j *jitterLog) DebugFX(context.Context, string, ...interface{}) { j.hit() }

// Quiet silences zinx's log; a non-zero seed makes every log call a schedule perturbation.
func Quiet(seed uint64) { zlog.SetLogger(&jitterLog{seed: seed}) }

// Jitter is a seeded perturbation a handler can call.
func Jitter(x uint64) {
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 31
	switch x % 5 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
	}
}

// Conf is the server side of a case.
type Conf struct {
	Transport string // tcp tls ws kcp
	Mode      string // "" Hash Bind DynamicBind
	Pool      uint32
	MaxConn   int
	TaskLen   uint32
	MsgChan   uint32
	ReadBuf   uint32
	Slices    bool
	ReqPool   bool
	Jitter    uint64
	Procs     int
	Beat      bool `json:",omitempty"` // heartbeat detection is on (with an interval no case reaches)
}

// Server applies the configuration to the process and makes a server (not started).
func Server(c Conf) (ziface.IServer, error) {
	Quiet(c.Jitter)
	if c.Procs > 0 {
		runtime.GOMAXPROCS(c.Procs)
	}
	g := zconf.GlobalObject
	g.Host, g.TCPPort, g.WsPort, g.KcpPort = IP(), TCPPort, WSPort, KCPPort
	g.WorkerMode, g.WorkerPoolSize = c.Mode, c.Pool
	if c.MaxConn > 0 {
		g.MaxConn = c.MaxConn
	} else {
		g.MaxConn = 100
	}
	if c.TaskLen > 0 {
		g.MaxWorkerTaskLen = c.TaskLen
	}
	if c.MsgChan > 0 {
		g.MaxMsgChanLen = c.MsgChan
	}
	if c.ReadBuf > 0 {
		g.IOReadBuffSize = c.ReadBuf
	}
	g.RouterSlicesMode, g.RequestPoolMode = c.Slices, c.ReqPool
	switch c.Transport {
	case "tls":
		cf, kf, err := Cert()
		if err != nil {
			return nil, fmt.Errorf("HARNESS: %v", err)
		}
		g.CertFile, g.PrivateKeyFile = cf, kf
		g.Mode = zconf.ServerModeTcp
	case "ws":
		g.Mode = zconf.ServerModeWebsocket
	case "kcp":
		g.Mode = zconf.ServerModeKcp
		g.KcpRecvWindow, g.KcpSendWindow = 256, 256
	case "both":
		g.Mode = ""
	default:
		g.Mode = zconf.ServerModeTcp
	}
	s := znet.NewServer()
	if c.Beat {
		s.StartHeartBeat(time.Hour)
	}
	return s, nil
}

// Listening reports whether the server's socket of this transport (tcp, tls, ws or kcp) is open.
func Listening(tr string) bool {
	switch tr {
	case "kcp":
		return bound("/proc/net/udp", KCPPort)
	case "ws":
		return bound("/proc/net/tcp", WSPort)
	}
	return bound("/proc/net/tcp", TCPPort)
}

// Up waits until the server of this transport listens.
func Up(tr string) error {
	ok := hx.Wait(Patience, func() bool {
		if tr == "both" {
			return Listening("tcp") && Listening("ws")
		}
		return Listening(tr)
	})
	if !ok {
		return fmt.Errorf("the %s server is not listening %v after it was started", tr, Patience)
	}
	return nil
}

// The kernel's list is not read in one piece, and a socket can be passed over: ask again before saying no.
func bound(file string, port int) bool {
	return Bound(file, IP(), port)
}

// Bound reports whether a socket listens on ip and port.
func Bound(file, ip string, port int) bool {
	for i := 0; i < 3; i++ {
		if bound1(file, ip, port) {
			return true
		}
	}
	return false
}

func bound1(file, at string, port int) bool {
	b, err := os.ReadFile(file)
	if err != nil {
		return false
	}
	ip := net.ParseIP(at).To4()
	key := fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], port)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[1] == key && (f[3] == "0A" || strings.HasSuffix(file, "udp")) {
			return true
		}
	}
	return false
}

var certOnce sync.Once
var certErr error

// Cert writes a self-signed certificate into the scratch directory.
func Cert() (string, string, error) {
	d := os.Getenv("HX_DIR")
	cf, kf := filepath.Join(d, "cert.pem"), filepath.Join(d, "key.pem")
	certOnce.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			certErr = err
			return
		}
		tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "zinx"},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
		der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
		if err != nil {
			certErr = err
			return
		}
		kb, err := x509.MarshalECPrivateKey(k)
		if err != nil {
			certErr = err
			return
		}
		if certErr = os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600); certErr != nil {
			return
		}
		certErr = os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600)
	})
	return cf, kf, certErr
}

// Peer is a raw (non-zinx) endpoint.
type Peer struct {
	tr  string
	nc  net.Conn
	ws  *websocket.Conn
	buf []byte // ws: unread rest of the last message
	wmu sync.Mutex

	sent int
}

// Dial connects a raw peer, retrying while the server comes up.
func Dial(tr string) (*Peer, error) { return DialFor(tr, Patience) }

// DialFor is Dial with a time limit.
func DialFor(tr string, d time.Duration) (*Peer, error) {
	end := time.Now().Add(d)
	for {
		p, err := dial(tr, d)
		if err == nil {
			return p, nil
		}
		if time.Now().After(end) {
			return nil, err
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func dial(tr string, d time.Duration) (*Peer, error) {
	switch tr {
	case "ws":
		dl := websocket.Dialer{HandshakeTimeout: d}
		ws, _, err := dl.Dial(fmt.Sprintf("ws://%s:%d/", IP(), WSPort), nil)
		if err != nil {
			return nil, err
		}
		return &Peer{tr: tr, ws: ws, nc: ws.UnderlyingConn()}, nil
	case "kcp":
		s, err := kcp.DialWithOptions(fmt.Sprintf("%s:%d", IP(), KCPPort), nil, 0, 0)
		if err != nil {
			return nil, err
		}
		s.SetStreamMode(true)
		s.SetNoDelay(1, 10, 2, 1)
		s.SetWindowSize(256, 256)
		s.SetACKNoDelay(true)
		return &Peer{tr: tr, nc: s}, nil
	case "tls":
		c, err := tls.DialWithDialer(&net.Dialer{Timeout: d}, "tcp4", fmt.Sprintf("%s:%d", IP(), TCPPort), &tls.Config{InsecureSkipVerify: true})
		if err != nil {
			return nil, err
		}
		return &Peer{tr: tr, nc: c}, nil
	}
	c, err := net.DialTimeout("tcp4", fmt.Sprintf("%s:%d", IP(), TCPPort), d)
	if err != nil {
		return nil, err
	}
	return &Peer{tr: tr, nc: c}, nil
}

// Local identifies the peer by its port (a KCP socket does not know its own address).
func (p *Peer) Local() string { return Port(p.nc.LocalAddr().String()) }

// Port is the port of an address.
func Port(addr string) string { return addr[strings.LastIndexByte(addr, ':')+1:] }

// Net is the underlying connection.
func (p *Peer) Net() net.Conn { return p.nc }

// Write sends the bytes cut into the given chunk sizes (cycled; empty: one piece).
func (p *Peer) Write(b []byte, chunks []int) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(chunks) > 0 {
			if k := chunks[i%len(chunks)]; k > 0 && k < n {
				n = k
			}
		}
		var err error
		if p.ws != nil {
			typ := websocket.BinaryMessage
			if p.sent++; p.sent%2 == 0 && utf8.Valid(b[:n]) {
				typ = websocket.TextMessage
			}
			err = p.ws.WriteMessage(typ, b[:n])
		} else {
			_, err = p.nc.Write(b[:n])
		}
		if err != nil {
			return err
		}
		b = b[n:]
		if len(chunks) > 0 && i%3 == 2 {
			runtime.Gosched()
		}
	}
	return nil
}

// Ping sends a WebSocket ping frame.
func (p *Peer) Ping() error {
	return p.ws.WriteControl(websocket.PingMessage, []byte("ping"), time.Now().Add(Patience))
}

// Read implements io.Reader.
func (p *Peer) Read(b []byte) (int, error) {
	if p.ws == nil {
		return p.nc.Read(b)
	}
	for len(p.buf) == 0 {
		typ, m, err := p.ws.ReadMessage()
		if err != nil {
			return 0, err
		}
		if typ == websocket.TextMessage && !utf8.Valid(m) {
			return 0, errors.New("a text message that is not UTF-8 was received")
		}
		p.buf = m
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

// Close closes the socket (orderly).
func (p *Peer) Close() { p.nc.Close() }

// Reset closes the socket abruptly where the transport has such a thing.
func (p *Peer) Reset() {
	if t, ok := p.nc.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	p.nc.Close()
}

// SetReadDeadline bounds reads.
func (p *Peer) SetReadDeadline(t time.Time) {
	if p.ws != nil {
		p.ws.SetReadDeadline(t)
		return
	}
	p.nc.SetReadDeadline(t)
}

// Gone reports whether the server ended the connection within d (data is drained).
// KCP has no end-of-stream, so it always reports false there.
func (p *Peer) Gone(d time.Duration) bool {
	if p.tr == "kcp" {
		return false
	}
	p.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		_, err := p.Read(b)
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				return false
			}
			return true
		}
	}
}

// TLV is a message in the default format.
func TLV(id uint32, body []byte) []byte {
	b := make([]byte, 8, 8+len(body))
	binary.BigEndian.PutUint32(b, id)
	binary.BigEndian.PutUint32(b[4:], uint32(len(body)))
	return append(b, body...)
}

// ReadTLV reads one message in the default format; a length above 16 MB is garbage.
func ReadTLV(r io.Reader) (uint32, []byte, error) {
	var h [8]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return 0, nil, err
	}
	n := binary.BigEndian.Uint32(h[4:])
	if n > 16<<20 {
		return 0, nil, fmt.Errorf("garbled header % x", h)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return 0, nil, fmt.Errorf("truncated body: %w", err)
	}
	return binary.BigEndian.Uint32(h[:]), b, nil
}

// Router adapts functions to a classic router.
type Router struct {
	znet.BaseRouter
	Pre, H, Post func(ziface.IRequest)
}

func (r *Router) PreHandle(q ziface.IRequest) {
	if r.Pre != nil {
		r.Pre(q)
	}
}
func (r *Router) Handle(q ziface.IRequest) {
	if r.H != nil {
		r.H(q)
	}
}
func (r *Router) PostHandle(q ziface.IRequest) {
	if r.Post != nil {
		r.Post(q)
	}
}

// Route registers h for id in whichever routing style the server uses.
func Route(s ziface.IServer, slices bool, id uint32, h func(ziface.IRequest)) {
	if slices {
		s.AddRouterSlices(id, h)
	} else {
		s.AddRouter(id, &Router{H: h})
	}
}

// DialAt connects a raw peer to an address of its own; path is the WebSocket path.
func DialAt(tr, ip string, port int, path string) (*Peer, error) {
	addr := fmt.Sprintf("%s:%d", ip, port)
	switch tr {
	case "ws":
		dl := websocket.Dialer{HandshakeTimeout: Patience}
		ws, _, err := dl.Dial("ws://"+addr+path, nil)
		if err != nil {
			return nil, err
		}
		return &Peer{tr: tr, ws: ws, nc: ws.UnderlyingConn()}, nil
	case "kcp":
		s, err := kcp.DialWithOptions(addr, nil, 0, 0)
		if err != nil {
			return nil, err
		}
		s.SetStreamMode(true)
		s.SetNoDelay(1, 10, 2, 1)
		s.SetACKNoDelay(true)
		return &Peer{tr: tr, nc: s}, nil
	case "tls":
		c, err := tls.DialWithDialer(&net.Dialer{Timeout: Patience}, "tcp4", addr, &tls.Config{InsecureSkipVerify: true})
		if err != nil {
			return nil, err
		}
		return &Peer{tr: tr, nc: c}, nil
	}
	c, err := net.DialTimeout("tcp4", addr, Patience)
	if err != nil {
		return nil, err
	}
	return &Peer{tr: tr, nc: c}, nil
}
