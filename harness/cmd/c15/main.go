// C15: servers and clients start and stop cleanly from any state.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

const (
	idEcho = 1
	idStop = 2
)

// returns runs fn in a goroutine of its own and reports a panic or a block.
func returns(what string, fn func()) error {
	done := make(chan error, 1)
	go func() { done <- hx.Call(fn) }()
	select {
	case err := <-done:
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		return nil
	case <-time.After(nx.Patience):
		return fmt.Errorf("%s has not returned after %v", what, nx.Patience)
	}
}

// ---- servers

// Op is one step of a server's life.
//
//	start, up         start (if it is not running), wait until it listens
//	dial, raw         N peers connect and exchange a message; N peers connect and stay silent
//	leave             all peers close
//	idle              US microseconds pass
//	stop              N goroutines call Stop
//	from              Stop is called inside How: start hook, stop hook, handler, close callback, websocket authentication
//	race              N peers dial while Stop is called US microseconds later
type Op struct {
	K   string
	N   int
	How string
	US  int
}

type SCase struct {
	Conf   nx.Conf
	HookUS int
	Ops    []Op
}

func genS(t *rapid.T) SCase {
	c := SCase{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "ws", "kcp", "tls", "both"}).Draw(t, "tr"),
		Mode:      rapid.SampledFrom([]string{"", "Hash", "Bind", "DynamicBind"}).Draw(t, "mode"),
		Pool:      uint32(rapid.IntRange(0, 3).Draw(t, "pool")),
		MaxConn:   rapid.SampledFrom([]int{2, 8, 50}).Draw(t, "max"),
		Procs:     rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
		Beat:      rapid.IntRange(0, 3).Draw(t, "beat") == 0,
	}}
	if c.Conf.Transport == "kcp" {
		c.Conf.MaxConn = 50 // late packets of peers that have left take slots
	}
	if rapid.IntRange(0, 3).Draw(t, "jq") > 0 {
		c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	c.HookUS = rapid.SampledFrom([]int{0, 0, 300, 3000}).Draw(t, "hook")
	op := rapid.Custom(func(t *rapid.T) Op {
		return Op{
			K:   rapid.SampledFrom([]string{"start", "start", "up", "dial", "dial", "raw", "leave", "idle", "stop", "stop", "from", "race", "race"}).Draw(t, "k"),
			N:   rapid.IntRange(1, 5).Draw(t, "n"),
			How: rapid.SampledFrom([]string{"start", "stop", "handler", "callback", "auth"}).Draw(t, "how"),
			US:  rapid.SampledFrom([]int{0, 50, 300, 1000, 3000}).Draw(t, "us"),
		}
	})
	c.Ops = rapid.SliceOfN(op, 1, 10).Draw(t, "ops")
	return c
}

func runS(c SCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	trs := []string{c.Conf.Transport}
	if c.Conf.Transport == "both" {
		trs = []string{"tcp", "ws"}
	}
	mgr := s.GetConnMgr()
	var starts, stops atomic.Int64
	var arm atomic.Pointer[string]
	fired := make(chan error, 100)
	// fire calls Stop, once, in the place where it is armed
	fire := func(where string) {
		if p := arm.Load(); p != nil && *p == where && arm.CompareAndSwap(p, nil) {
			fired <- hx.Call(s.Stop)
		}
	}
	s.SetOnConnStart(func(cn ziface.IConnection) {
		starts.Add(1)
		cn.AddCloseCallback(&arm, "k", func() { fire("callback") })
		time.Sleep(time.Duration(c.HookUS) * time.Microsecond)
		fire("start")
	})
	s.SetOnConnStop(func(cn ziface.IConnection) {
		fire("stop")
		stops.Add(1)
	})
	s.SetWebsocketAuth(func(*http.Request) error { fire("auth"); return nil })
	s.AddRouter(idEcho, &nx.Router{H: func(q ziface.IRequest) {
		_ = q.GetConnection().SendMsg(idEcho, append([]byte("re:"), q.GetData()...))
	}})
	s.AddRouter(idStop, &nx.Router{H: func(q ziface.IRequest) { fire("handler") }})

	var peers []*nx.Peer
	var raws []net.Conn
	exchange := func(p *nx.Peer, k int) error {
		m := []byte(fmt.Sprintf("m%d of %s", k, p.Local()))
		p.SetReadDeadline(time.Now().Add(nx.Patience))
		if err := p.Write(nx.TLV(idEcho, m), nil); err != nil {
			return err
		}
		id, b, err := nx.ReadTLV(p)
		if err != nil {
			return err
		}
		if id != idEcho || !bytes.Equal(b, append([]byte("re:"), m...)) {
			return fmt.Errorf("the answer to %q is message %d %q", m, id, b)
		}
		return nil
	}
	running, up := false, false
	rounds, nstop, served := 0, 0, 0
	stopped := func(was bool) error {
		for _, tr := range trs {
			if nx.Listening(tr) {
				return fmt.Errorf("Stop has returned, but the %s socket is still listening", tr)
			}
		}
		if was {
			for _, tr := range trs {
				if tr == "kcp" {
					continue
				}
				if p, err := nx.DialFor(tr, 0); err == nil {
					if !p.Gone(nx.Patience) {
						return fmt.Errorf("Stop has returned, but a %s peer can connect", tr)
					}
					p.Close()
				}
			}
		}
		if !hx.Wait(nx.Patience, func() bool { return mgr.Len() == 0 && starts.Load() == stops.Load() }) {
			return fmt.Errorf("%v after Stop %d connections are registered, %d start hooks and %d stop hooks have run", nx.Patience, mgr.Len(), starts.Load(), stops.Load())
		}
		for i, p := range peers {
			if c.Conf.Transport != "kcp" && !p.Gone(nx.Patience) {
				return fmt.Errorf("%v after Stop the socket of peer %d is still open", nx.Patience, i)
			}
			p.Close()
		}
		for i, r := range raws {
			r.SetReadDeadline(time.Now().Add(nx.Patience))
			b := make([]byte, 1000)
			for {
				_, err := r.Read(b)
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					return fmt.Errorf("%v after Stop the socket of silent peer %d is still open", nx.Patience, i)
				}
				if err != nil {
					break
				}
			}
			r.Close()
		}
		peers, raws = nil, nil
		running, up = false, false
		nstop++
		return nil
	}
	ready := func() error {
		if !up {
			if err := nx.Up(c.Conf.Transport); err != nil {
				return err
			}
			up = true
		}
		return nil
	}
	dialN := func(n int) error {
		for i := 0; i < n && len(peers)+len(raws) < c.Conf.MaxConn-1; i++ {
			p, err := nx.DialFor(trs[(i+len(peers))%len(trs)], nx.Patience)
			if err != nil {
				return fmt.Errorf("dialling the running server: %v", err)
			}
			peers = append(peers, p)
			for k := 0; k < 2; k++ {
				if err := exchange(p, k); err != nil {
					return fmt.Errorf("round %d: a message to the running server is not answered: %v", rounds, err)
				}
			}
			served++
		}
		return nil
	}
	// clear ends all connections: a KCP server does not notice that a peer has left
	clear := func() {
		for _, id := range mgr.GetAllConnID() {
			if cn, err := mgr.Get(id); err == nil {
				cn.Stop()
			}
		}
	}
	step := func(o Op) error {
		switch o.K {
		case "start":
			if running {
				return nil
			}
			running = true
			rounds++
			return returns("Start", s.Start)
		case "up":
			if running {
				return ready()
			}
		case "dial":
			if !running {
				return nil
			}
			if err := ready(); err != nil {
				return err
			}
			return dialN(o.N)
		case "raw":
			if !running || c.Conf.Transport == "kcp" {
				return nil
			}
			if err := ready(); err != nil {
				return err
			}
			port := nx.TCPPort
			if trs[len(trs)-1] == "ws" {
				port = nx.WSPort
			}
			for i := 0; i < o.N && len(peers)+len(raws) < c.Conf.MaxConn-1; i++ {
				r, err := net.Dial("tcp4", fmt.Sprintf("%s:%d", nx.IP(), port))
				if err != nil {
					return fmt.Errorf("dialling the running server: %v", err)
				}
				raws = append(raws, r)
			}
		case "leave":
			for _, p := range peers {
				p.Close()
			}
			for _, r := range raws {
				r.Close()
			}
			if running {
				if !hx.Wait(nx.Patience, func() bool {
					if c.Conf.Transport == "kcp" {
						clear()
					}
					return mgr.Len() == 0 && starts.Load() == stops.Load()
				}) {
					return fmt.Errorf("all peers have left, but %d connections are registered, %d start hooks and %d stop hooks have run", mgr.Len(), starts.Load(), stops.Load())
				}
			}
			peers, raws = nil, nil
		case "idle":
			time.Sleep(time.Duration(o.US) * time.Microsecond)
		case "stop":
			was := running
			errs := make(chan error, o.N)
			for i := 0; i < o.N; i++ {
				go func() { errs <- returns("Stop", s.Stop) }()
			}
			for i := 0; i < o.N; i++ {
				if err := <-errs; err != nil {
					return err
				}
			}
			rec.Label(o.N > 1, "concurrent stops")
			rec.Label(!was, "stop while not running")
			rec.Label(was && !up, "stop at once after start")
			return stopped(was)
		case "from":
			if !running {
				return nil
			}
			how := o.How
			if how == "auth" && trs[len(trs)-1] != "ws" {
				how = "start"
			}
			if err := ready(); err != nil {
				return err
			}
			if len(peers)+len(raws) >= c.Conf.MaxConn-1 {
				return nil
			}
			arm.Store(&how)
			// a stop while the peer is being accepted may cut its handshake, and a late callback of an earlier connection may be the one that stops
			p, err := nx.DialFor(trs[len(trs)-1], 0)
			if err != nil && how != "auth" && how != "start" && how != "callback" {
				return fmt.Errorf("dialling the running server: %v", err)
			}
			if err == nil {
				peers = append(peers, p)
				_ = p.Write(nx.TLV(idStop, nil), nil)
				if how == "stop" || how == "callback" {
					if c.Conf.Transport == "kcp" {
						if !hx.Wait(nx.Patience, func() bool { return mgr.Len() > 0 || len(fired) > 0 }) {
							return fmt.Errorf("a KCP peer is not accepted")
						}
						clear()
					}
					p.Close()
					peers = peers[:len(peers)-1]
				}
			}
			select {
			case err := <-fired:
				if err != nil {
					return fmt.Errorf("Stop, called inside %s: %v", how, err)
				}
			case <-time.After(nx.Patience):
				return fmt.Errorf("Stop, called inside %s, has not returned after %v (or %s has not run)", how, nx.Patience, how)
			}
			rec.Label(true, "stop inside "+how)
			return stopped(true)
		case "race":
			if !running {
				return nil
			}
			if err := ready(); err != nil {
				return err
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			for i := 0; i < 2*o.N; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					p, err := nx.DialFor(trs[i%len(trs)], 0)
					if err != nil {
						return
					}
					_ = p.Write(nx.TLV(idEcho, nil), nil)
					mu.Lock()
					peers = append(peers, p)
					mu.Unlock()
				}(i)
			}
			time.Sleep(time.Duration(o.US) * time.Microsecond)
			if err := returns("Stop", s.Stop); err != nil {
				return err
			}
			for _, tr := range trs {
				if nx.Listening(tr) {
					return fmt.Errorf("Stop has returned, but the %s socket is still listening", tr)
				}
			}
			wg.Wait()
			rec.Label(len(peers) > 0, "stop while peers connect")
			return stopped(true)
		}
		return nil
	}
	for i, o := range c.Ops {
		if err := step(o); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.K, err)
		}
	}
	for _, o := range []Op{{K: "start"}, {K: "dial", N: 2}, {K: "stop", N: 1}} {
		if err := step(o); err != nil {
			return fmt.Errorf("at the end (%s): %w", o.K, err)
		}
	}
	rec.Label(true, c.Conf.Transport)
	rec.Label(rounds > 1, "restarted")
	rec.Nontrivial(rounds > 1 || nstop > 1)
	return nil
}

// ---- clients

// COp is one step of a client's life.
//
//	listen            the raw server becomes How: ok, silent (accepts, never answers), none (nothing listens)
//	start, restart    connects, unless it is connected or connecting
//	echo              N messages in both directions
//	lose              the peer closes
//	stop              N goroutines call Stop
//	from              Stop is called inside How: start hook, stop hook, handler
//	race              a new start, and Stop US microseconds later
type COp struct {
	K   string
	N   int
	How string
	US  int
}

type CCase struct {
	Tr     string
	Reader bool // somebody reads the error channel
	Beat   bool // heartbeat detection is on
	Procs  int
	Jitter uint64
	Ops    []COp
}

func genC(t *rapid.T) CCase {
	c := CCase{
		Tr:     rapid.SampledFrom([]string{"tcp", "ws", "tls"}).Draw(t, "tr"),
		Reader: rapid.Bool().Draw(t, "reader"),
		Beat:   rapid.IntRange(0, 3).Draw(t, "beat") == 0,
		Procs:  rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
	}
	if rapid.IntRange(0, 3).Draw(t, "jq") > 0 {
		c.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	op := rapid.Custom(func(t *rapid.T) COp {
		o := COp{
			K:  rapid.SampledFrom([]string{"listen", "start", "start", "restart", "restart", "echo", "lose", "stop", "stop", "from", "race"}).Draw(t, "k"),
			N:  rapid.IntRange(1, 4).Draw(t, "n"),
			US: rapid.SampledFrom([]int{0, 50, 300, 1000, 3000}).Draw(t, "us"),
		}
		if o.K == "listen" {
			o.How = rapid.SampledFrom([]string{"ok", "silent", "none", "none"}).Draw(t, "lh")
		} else {
			o.How = rapid.SampledFrom([]string{"start", "stop", "handler"}).Draw(t, "how")
		}
		return o
	})
	c.Ops = rapid.SliceOfN(op, 1, 12).Draw(t, "ops")
	return c
}

type world struct {
	tr    string
	mu    sync.Mutex
	l     *nx.Listener
	quit  chan struct{}
	sl    net.Listener
	peers []*nx.Peer
	raws  []net.Conn
}

func (w *world) listen(how string) error {
	w.down()
	if how == "none" {
		return nil
	}
	if how == "silent" && w.tr != "tcp" {
		port := nx.TCPPort
		if w.tr == "ws" {
			port = nx.WSPort
		}
		sl, err := net.Listen("tcp4", fmt.Sprintf("%s:%d", nx.IP(), port))
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		w.sl = sl
		go func() {
			for {
				c, err := sl.Accept()
				if err != nil {
					return
				}
				w.mu.Lock()
				w.raws = append(w.raws, c)
				w.mu.Unlock()
			}
		}()
		return nil
	}
	l, err := nx.Listen(w.tr)
	if err != nil {
		return err
	}
	w.l, w.quit = l, make(chan struct{})
	go func(q chan struct{}) {
		for {
			select {
			case p := <-l.C:
				w.mu.Lock()
				w.peers = append(w.peers, p)
				w.mu.Unlock()
			case <-q:
				return
			}
		}
	}(w.quit)
	return nil
}
func (w *world) down() {
	if w.l != nil {
		w.l.Close()
		// what has been accepted is still collected
		time.Sleep(2 * time.Millisecond)
		close(w.quit)
		w.l = nil
	}
	if w.sl != nil {
		w.sl.Close()
		w.sl = nil
	}
}
func (w *world) silent() int { w.mu.Lock(); defer w.mu.Unlock(); return len(w.raws) }

// peerOf is the newest accepted peer with this remote port.
func (w *world) peerOf(port string) *nx.Peer {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i := len(w.peers) - 1; i >= 0; i-- {
		if nx.Port(w.peers[i].Net().RemoteAddr().String()) == port {
			return w.peers[i]
		}
	}
	return nil
}

// allGone: every connection the client has made is closed by it.
func (w *world) allGone() error {
	w.mu.Lock()
	ps, rs := w.peers, w.raws
	w.raws = nil
	w.mu.Unlock()
	for _, p := range ps {
		if !p.Gone(nx.Patience) {
			return fmt.Errorf("%v after the client was stopped a socket of it is still open", nx.Patience)
		}
	}
	for _, r := range rs {
		r.SetReadDeadline(time.Now().Add(nx.Patience))
		if w.tr == "ws" {
			// the dialer cannot be interrupted in the handshake: answer it now
			if q, err := http.ReadRequest(bufio.NewReader(r)); err == nil {
				h := sha1.Sum([]byte(q.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
				fmt.Fprintf(r, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", base64.StdEncoding.EncodeToString(h[:]))
			}
		}
		b := make([]byte, 4096)
		for {
			_, err := r.Read(b)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return fmt.Errorf("%v after the client was stopped the socket of its pending dial is still open", nx.Patience)
			}
			if err != nil {
				break
			}
		}
	}
	return nil
}

func runC(c CCase, rec *hx.Rec) error {
	if _, err := nx.Server(nx.Conf{Jitter: c.Jitter, Procs: c.Procs, Pool: 1}); err != nil {
		return err
	}
	w := &world{tr: c.Tr}
	defer w.down()
	mode := "ok"
	if err := w.listen(mode); err != nil {
		return err
	}
	cl := nx.Client(c.Tr)
	var starts, stops, nerr, nilerr atomic.Int64
	var arm atomic.Pointer[string]
	fired := make(chan error, 100)
	fire := func(where string) {
		if p := arm.Load(); p != nil && *p == where && arm.CompareAndSwap(p, nil) {
			fired <- hx.Call(cl.Stop)
		}
	}
	var mu sync.Mutex
	var got []string
	cl.SetOnConnStart(func(ziface.IConnection) { starts.Add(1); fire("start") })
	cl.SetOnConnStop(func(ziface.IConnection) { fire("stop"); stops.Add(1) })
	cl.AddRouter(idEcho, &nx.Router{H: func(q ziface.IRequest) {
		mu.Lock()
		got = append(got, string(q.GetData()))
		mu.Unlock()
	}})
	cl.AddRouter(idStop, &nx.Router{H: func(q ziface.IRequest) { fire("handler") }})
	beats := map[ziface.IConnection]int{}
	if c.Beat {
		zconf.GlobalObject.HeartbeatMax = 600
		cl.StartHeartBeatWithOption(3*time.Millisecond, &ziface.HeartBeatOption{MakeMsg: func(cn ziface.IConnection) []byte {
			mu.Lock()
			beats[cn]++
			mu.Unlock()
			return nil
		}})
	}
	if c.Reader {
		go func() {
			for {
				err, ok := <-cl.GetErrChan()
				switch {
				case !ok:
					time.Sleep(500 * time.Microsecond)
				case err == nil:
					nilerr.Add(1)
				default:
					nerr.Add(1)
				}
			}
		}()
	}
	running, connected, pending, unheard := false, false, false, false
	var peer *nx.Peer
	begins, nstop, failures, serial := 0, 0, 0, 0
	begin := func(k string) error {
		begins++
		running = true
		if k == "start" {
			return returns("Start", cl.Start)
		}
		return returns("Restart", cl.Restart)
	}
	everStarted := false
	settle := func(nr int, e0, s0 int64) error {
		switch {
		case mode == "none":
			failures++
			unheard = !c.Reader
			if c.Reader && !hx.Wait(nx.Patience, func() bool { return nerr.Load() > e0 }) {
				return fmt.Errorf("nothing listens, but no error was reported within %v", nx.Patience)
			}
		case mode == "silent" && c.Tr != "tcp":
			if !hx.Wait(nx.Patience, func() bool { return w.silent() > nr }) {
				return fmt.Errorf("the client has not dialled within %v", nx.Patience)
			}
			pending = true
		default:
			if !hx.Wait(nx.Patience, func() bool { return starts.Load() > s0 }) {
				return fmt.Errorf("the client is not connected %v after it was started", nx.Patience)
			}
			cn := cl.Conn()
			if cn == nil {
				return fmt.Errorf("a connected client has no connection")
			}
			if !hx.Wait(nx.Patience, func() bool { peer = w.peerOf(nx.Port(cn.LocalAddrString())); return peer != nil }) {
				return fmt.Errorf("the connection of a started client is not one its peer knows")
			}
			connected = true
		}
		return nil
	}
	stopped := func() error {
		if !hx.Wait(nx.Patience, func() bool { return starts.Load() == stops.Load() }) {
			return fmt.Errorf("%v after Stop %d start hooks and %d stop hooks have run", nx.Patience, starts.Load(), stops.Load())
		}
		if err := w.allGone(); err != nil {
			return err
		}
		running, connected, pending, unheard = false, false, false, false
		nstop++
		return nil
	}
	step := func(o COp) error {
		switch o.K {
		case "listen":
			// a dial nobody hears of may still be under way: it must not find the new server
			if pending || unheard {
				return nil
			}
			mode = o.How
			if err := w.listen(mode); err != nil {
				return err
			}
		case "start", "restart":
			if connected || pending {
				return nil
			}
			k := o.K
			if !everStarted {
				k = "start" // the decoder is set up by the first Start
			}
			everStarted = true
			nr := w.silent()
			e0, s0 := nerr.Load(), starts.Load()
			rec.Label(running, k+" after a loss or failed dial")
			rec.Label(!running && nstop > 0, k+" after stop")
			if err := begin(k); err != nil {
				return err
			}
			return settle(nr, e0, s0)
		case "echo":
			if !connected {
				return nil
			}
			cn := cl.Conn()
			if cn == nil {
				return fmt.Errorf("a connected client has no connection")
			}
			for i := 0; i < o.N; i++ {
				serial++
				m := fmt.Sprintf("message %d", serial)
				mu.Lock()
				n0 := len(got)
				mu.Unlock()
				if err := peer.Write(nx.TLV(idEcho, []byte(m)), nil); err != nil {
					return fmt.Errorf("HARNESS: %v", err)
				}
				if !hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return len(got) > n0 }) {
					return fmt.Errorf("start %d of the client: a message sent to it is not handled within %v", begins, nx.Patience)
				}
				mu.Lock()
				if len(got) != n0+1 || got[n0] != m {
					defer mu.Unlock()
					return fmt.Errorf("start %d of the client: %q was sent to it, its handler saw %q", begins, m, got[n0:])
				}
				mu.Unlock()
				if err := cn.SendMsg(idEcho, []byte(m)); err != nil {
					return fmt.Errorf("sending on a connected client: %v", err)
				}
				peer.SetReadDeadline(time.Now().Add(nx.Patience))
				id, b, err := nx.ReadTLV(peer)
				for c.Beat && err == nil && id == ziface.HeartBeatDefaultMsgID {
					id, b, err = nx.ReadTLV(peer)
				}
				if err != nil || id != idEcho || string(b) != m {
					return fmt.Errorf("the client sent %q, its peer read message %d %q (%v)", m, id, b, err)
				}
			}
			if c.Beat {
				mu.Lock()
				n0 := beats[cn]
				mu.Unlock()
				if !hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return beats[cn] > n0 }) {
					return fmt.Errorf("start %d of the client: heartbeats are configured, but none was sent on its connection within %v (%d before)", begins, nx.Patience, n0)
				}
				rec.Label(begins > 1, "heartbeats after another start")
			}
		case "lose":
			if !connected {
				return nil
			}
			p0 := stops.Load()
			peer.Close()
			connected = false
			if !hx.Wait(nx.Patience, func() bool { return stops.Load() > p0 }) {
				return fmt.Errorf("the peer has closed, but the client's connection has not ended within %v", nx.Patience)
			}
		case "stop":
			rec.Label(!running, "stop while not running")
			rec.Label(running && !connected && !pending, "stop after a loss or failed dial")
			rec.Label(pending, "stop while dialling")
			rec.Label(o.N > 1, "concurrent stops")
			errs := make(chan error, o.N)
			for i := 0; i < o.N; i++ {
				go func() { errs <- returns("Stop", cl.Stop) }()
			}
			for i := 0; i < o.N; i++ {
				if err := <-errs; err != nil {
					return err
				}
			}
			return stopped()
		case "from":
			if o.How != "start" && !connected || o.How == "start" && (connected || pending || mode == "none" || mode == "silent" && c.Tr != "tcp") {
				return nil
			}
			arm.Store(&o.How)
			switch o.How {
			case "start":
				k := "restart"
				if !everStarted {
					k = "start"
				}
				everStarted = true
				if err := begin(k); err != nil {
					return err
				}
			case "stop":
				peer.Close()
			case "handler":
				if err := peer.Write(nx.TLV(idStop, nil), nil); err != nil {
					return fmt.Errorf("HARNESS: %v", err)
				}
			}
			select {
			case err := <-fired:
				if err != nil {
					return fmt.Errorf("Stop, called inside %s: %v", o.How, err)
				}
			case <-time.After(nx.Patience):
				return fmt.Errorf("Stop, called inside %s, has not returned after %v (or %s has not run)", o.How, nx.Patience, o.How)
			}
			rec.Label(true, "stop inside "+o.How)
			return stopped()
		case "race":
			if connected || pending {
				return nil
			}
			k := "restart"
			if !everStarted {
				k = "start"
			}
			everStarted = true
			if err := begin(k); err != nil {
				return err
			}
			time.Sleep(time.Duration(o.US) * time.Microsecond)
			if err := returns("Stop", cl.Stop); err != nil {
				return err
			}
			time.Sleep(time.Millisecond)
			rec.Label(true, "stop while connecting")
			return stopped()
		}
		return nil
	}
	for i, o := range c.Ops {
		if err := step(o); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.K, err)
		}
	}
	end := []COp{{K: "stop", N: 1}, {K: "listen", How: "ok"}, {K: "start"}, {K: "echo", N: 1}, {K: "stop", N: 1}}
	for _, o := range end {
		if err := step(o); err != nil {
			return fmt.Errorf("at the end (%s): %w", o.K, err)
		}
	}
	time.Sleep(2 * time.Millisecond)
	if err := stopped(); err != nil {
		return err
	}
	if nilerr.Load() > 0 {
		return fmt.Errorf("a nil error was reported")
	}
	rec.Label(true, c.Tr)
	rec.Label(failures > 0, "failed dial")
	rec.Nontrivial(begins > 2 || failures > 0)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID: "C15",
		Rule: "server: a generated life of up to 10 steps (start, peers that talk or stay silent, peers leaving, Stop from one or several goroutines, from inside hooks, handlers, close callbacks or websocket authentication, and while peers are connecting) over TCP, TLS, WebSocket, KCP or TCP and WebSocket together; then one more start, exchange and stop. Oracle: every call returns without panic; when Stop has returned the sockets do not listen and a new peer cannot connect, the connection manager becomes empty, start and stop hooks have run in pairs, every peer's socket is closed; a started server answers. " +
			"client: a generated life of up to 12 steps over TCP, TLS and WebSocket against a raw server that answers, stays silent or does not exist, with or without a reader of the error channel. Oracle: every call returns; a failed dial is reported to the reader; after Stop hooks are paired and every socket the client opened, also that of a pending dial (over WebSocket: once its handshake is answered), is closed; a client that is started again exchanges messages, each handled once, and sends its heartbeats. " +
			"serve: up to three rounds of Serve, with peers, a Stop or none, and SIGINT or SIGTERM: Serve returns after the signal and not before, the server answers until it is stopped. " +
			"Non-trivial: started or stopped more than once, or a dial failed.",
		Assumptions: []string{"a server is started only while it is stopped, a client only while it is not connected or connecting", "something that has not happened within 30 s does not happen"},
		Facets: []hx.Facet{
			hx.F("server", 1600, 60000, genS, runS, hx.OneShot(), hx.Timeout(240*time.Second)),
			hx.F("serve", 300, 10000, genServe, runServe, hx.OneShot(), hx.Timeout(240*time.Second)),
			hx.F("client", 1600, 60000, genC, runC, hx.OneShot(), hx.Timeout(240*time.Second)),
		},
	})
}
