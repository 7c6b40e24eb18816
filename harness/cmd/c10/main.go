// C10: a connection starts once, ends once, and cleans up.
package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

const (
	idPing  = 1
	idStop  = 2 // the handler stops its connection
	idPanic = 3 // the interceptor panics in the read loop
)

// Act is one concurrent actor; it waits D microseconds after the barrier.
//
//	stop (N parties at once), clear, close, reset, half, hstop, panic, send (N
//	messages), flood (until it fails), dial, cb (add and remove callbacks),
//	poll (IsAlive, Context, registry)
type Act struct {
	K string
	I int
	N int
	D int
}

// Conn is how one of the initial connections is set up.
type Conn struct {
	Add     int  // close callbacks added by the start hook
	Late    int  // ... and after the start
	Rm      int  // ... of which this many are removed again before the barrier
	InStart bool // stopped inside the start hook
	Boom    int  // 1: its start hook panics, 2: its stop hook panics; nothing is required of it then, but of the others
}

type Case struct {
	Conf   nx.Conf
	Client bool
	HB     int  // heartbeat interval in ms, 0: off
	HBBig  bool // heartbeats large enough to fill the socket of a peer that does not read
	HookUS int  // start hook duration
	InStop bool // the stop hook sends and stops again
	Conns  []Conn
	Acts   []Act
	End    string // how the connections still live are ended at last
}

func gen(client bool) func(*rapid.T) Case {
	return func(t *rapid.T) Case {
		trs := []string{"tcp", "tcp", "ws", "ws", "kcp", "kcp", "tls"}
		if client {
			trs = []string{"tcp", "ws", "tls"}
		}
		c := Case{Client: client, Conf: nx.Conf{
			Transport: rapid.SampledFrom(trs).Draw(t, "tr"),
			Mode:      rapid.SampledFrom([]string{"", "Hash", "Bind", "DynamicBind"}).Draw(t, "mode"),
			Pool:      uint32(rapid.SampledFrom([]int{0, 1, 4}).Draw(t, "pool")),
			MaxConn:   1000,
			MsgChan:   uint32(rapid.SampledFrom([]int{1, 4, 1024}).Draw(t, "mc")),
			Slices:    !client && rapid.Bool().Draw(t, "sl"),
			ReqPool:   rapid.Bool().Draw(t, "rp"),
			Procs:     rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
		}}
		if rapid.IntRange(0, 3).Draw(t, "jq") > 0 {
			c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
		}
		if rapid.IntRange(0, 2).Draw(t, "hbq") == 0 {
			c.HB = rapid.IntRange(1, 5).Draw(t, "hb")
			c.HBBig = rapid.Bool().Draw(t, "hbbig")
		}
		c.HookUS = rapid.SampledFrom([]int{0, 0, 200, 2000}).Draw(t, "hook")
		c.InStop = rapid.Bool().Draw(t, "instop")
		c.Conns = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Conn {
			k := Conn{Add: rapid.IntRange(0, 3).Draw(t, "a"), Late: rapid.IntRange(0, 2).Draw(t, "l"), InStart: rapid.IntRange(0, 7).Draw(t, "is") == 0}
			if rapid.IntRange(0, 15).Draw(t, "bq") == 0 {
				k.Boom = rapid.IntRange(1, 2).Draw(t, "boom")
			}
			k.Rm = rapid.IntRange(0, k.Add+k.Late).Draw(t, "r")
			return k
		}), 1, 4).Draw(t, "conns")
		if c.Conf.Transport == "tls" && !client { // the handshake happens after the start hook, so such a dial fails
			for i := range c.Conns {
				c.Conns[i].InStart = false
				if c.Conns[i].Boom == 1 {
					c.Conns[i].Boom = 2
				}
			}
		}
		kinds := []string{"stop", "stop", "stop", "close", "reset", "half", "hstop", "panic", "send", "send", "send", "flood", "flood", "cb", "poll", "dial"}
		if !client {
			kinds = append(kinds, "clear", "dial")
		}
		c.Acts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Act {
			return Act{rapid.SampledFrom(kinds).Draw(t, "k"), rapid.IntRange(0, 3).Draw(t, "i"), rapid.IntRange(1, 6).Draw(t, "n"),
				rapid.SampledFrom([]int{0, 0, 0, 20, 100, 500, 3000}).Draw(t, "d")}
		}), 1, 12).Draw(t, "acts")
		c.End = rapid.SampledFrom([]string{"stop", "clear", "close"}).Draw(t, "end")
		return c
	}
}

type cb struct {
	n     int
	exact int // required count when the connection has ended; -1: at most 1
}

type entry struct {
	mu                       sync.Mutex
	c                        ziface.IConnection
	port                     string
	spec                     Conn
	starts, stops            int
	started                  bool
	bad                      string
	pings                    int
	cbs                      []*cb
	must, may, nonread, boom bool
	p                        *nx.Peer
	gone                     chan struct{}
	pingsSent                int
}

func (e *entry) endedNow() bool {
	e.mu.Lock()
	s := e.stops > 0
	e.mu.Unlock()
	return s || e.c.Context().Err() != nil
}

func (e *entry) addCB(key int, exact int) {
	k := &cb{exact: exact}
	e.mu.Lock()
	e.cbs = append(e.cbs, k)
	e.mu.Unlock()
	e.c.AddCloseCallback("h", key, func() { e.mu.Lock(); k.n++; e.mu.Unlock() })
	if e.c.Context().Err() != nil { // ended meanwhile: it may have come too late
		e.mu.Lock()
		k.exact = -1
		e.mu.Unlock()
	}
}

type world struct {
	mu     sync.Mutex
	byConn map[ziface.IConnection]*entry
	byPort map[string]*entry
	queue  []Conn // set-up of the next connection (connections are made one at a time)
}

func run(c Case, rec *hx.Rec) error {
	w := &world{byConn: map[ziface.IConnection]*entry{}, byPort: map[string]*entry{}}
	tr := c.Conf.Transport
	key := func(cn ziface.IConnection) string {
		if c.Client {
			return nx.Port(cn.LocalAddrString())
		}
		return nx.Port(cn.RemoteAddrString())
	}
	find := func(cn ziface.IConnection, make bool) *entry {
		w.mu.Lock()
		defer w.mu.Unlock()
		e := w.byConn[cn]
		if e == nil && make {
			e = &entry{c: cn, port: key(cn)}
			w.byConn[cn] = e
			if w.byPort[e.port] == nil {
				w.byPort[e.port] = e
			}
		}
		return e
	}
	port := func(p string) *entry { w.mu.Lock(); defer w.mu.Unlock(); return w.byPort[p] }
	onStart := func(cn ziface.IConnection) {
		e := find(cn, true)
		var sp Conn
		w.mu.Lock()
		if w.byPort[e.port] == e && len(w.queue) > 0 {
			sp, w.queue = w.queue[0], w.queue[1:]
		}
		w.mu.Unlock()
		e.mu.Lock()
		e.starts++
		e.spec = sp
		e.mu.Unlock()
		for i := 0; i < sp.Add; i++ {
			e.addCB(i, 1)
		}
		if c.HookUS > 0 {
			time.Sleep(time.Duration(c.HookUS) * time.Microsecond)
		}
		if sp.InStart {
			cn.Stop()
		}
		e.mu.Lock()
		e.started = true
		e.mu.Unlock()
		if sp.Boom == 1 {
			panic("planted start hook panic")
		}
	}
	onStop := func(cn ziface.IConnection) {
		e := find(cn, false)
		if e == nil {
			w.mu.Lock()
			w.byConn[cn] = &entry{c: cn, port: key(cn), stops: 1, bad: "the stop hook ran before the start hook"}
			w.mu.Unlock()
			return
		}
		e.mu.Lock()
		e.stops++
		if !e.started {
			e.bad = "the stop hook ran before the start hook was done"
		}
		boom := e.spec.Boom == 2
		e.mu.Unlock()
		if boom {
			panic("planted stop hook panic")
		}
		if c.InStop {
			cn.Stop()
			_ = cn.SendMsg(9, []byte("bye"))
			_ = cn.SendBuffMsg(9, []byte("bye"))
			_ = cn.SendToQueue(nx.TLV(9, []byte("bye")))
			_ = cn.Send(nx.TLV(9, []byte("bye")))
			cn.IsAlive()
		}
	}
	ping := func(q ziface.IRequest) {
		e := find(q.GetConnection(), false)
		if e == nil {
			w.mu.Lock()
			w.byConn[q.GetConnection()] = &entry{c: q.GetConnection(), port: "?", bad: "a request was handled before the start hook ran"}
			w.mu.Unlock()
			return
		}
		e.mu.Lock()
		e.pings++
		if !e.started {
			e.bad = "a request was handled before the start hook was done"
		}
		e.mu.Unlock()
	}
	stopH := func(q ziface.IRequest) { q.GetConnection().Stop() }
	boom := icept(func(ch ziface.IChain) ziface.IcResp {
		if q, ok := ch.Request().(ziface.IRequest); ok && q.GetMsgID() == idPanic {
			panic("planted interceptor panic")
		}
		return ch.Proceed(ch.Request())
	})
	hbOpt := &ziface.HeartBeatOption{MakeMsg: func(ziface.IConnection) []byte {
		if c.HBBig {
			return make([]byte, 300<<10)
		}
		return []byte("hb")
	}}

	var srv ziface.IServer
	var mgr ziface.IConnManager
	var ln *nx.Listener
	var clients sync.Map // port -> client
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	zconf.GlobalObject.HeartbeatMax = 600
	if !c.Client {
		srv = s
		mgr = s.GetConnMgr()
		s.SetOnConnStart(onStart)
		s.SetOnConnStop(onStop)
		nx.Route(s, c.Conf.Slices, idPing, ping)
		nx.Route(s, c.Conf.Slices, idStop, stopH)
		s.AddInterceptor(boom)
		if c.HB > 0 {
			s.StartHeartBeatWithOption(time.Duration(c.HB)*time.Millisecond, hbOpt)
		}
		if pan := hx.Call(s.Start); pan != nil {
			return fmt.Errorf("start: %v", pan)
		}
		if err := nx.Up(tr); err != nil {
			return err
		}
	} else if ln, err = nx.Listen(tr); err != nil {
		return err
	}

	// connect makes one more connection and returns its entry once the start hook is running
	var connMu sync.Mutex
	connect := func(sp Conn, nonread bool) (*entry, error) {
		var p *nx.Peer
		var err error
		var e *entry
		if c.Client {
			connMu.Lock()
			defer connMu.Unlock()
			w.mu.Lock()
			w.queue = append(w.queue, sp)
			w.mu.Unlock()
			cl := nx.Client(tr)
			cl.SetOnConnStart(onStart)
			cl.SetOnConnStop(onStop)
			cl.AddRouter(idPing, &nx.Router{H: ping})
			cl.AddRouter(idStop, &nx.Router{H: stopH})
			if c.HB > 0 {
				cl.StartHeartBeatWithOption(time.Duration(c.HB)*time.Millisecond, hbOpt)
			}
			cl.Start()
			cl.AddInterceptor(boom)
			select {
			case p = <-ln.C:
			case <-time.After(nx.Patience):
				return nil, fmt.Errorf("the client does not connect")
			}
			pt := nx.Port(p.Net().RemoteAddr().String())
			clients.Store(pt, cl)
			if !hx.Wait(nx.Patience, func() bool { e = port(pt); return e != nil }) {
				return nil, fmt.Errorf("the start hook does not run for an established client connection")
			}
		} else {
			connMu.Lock()
			defer connMu.Unlock()
			w.mu.Lock()
			w.queue = []Conn{sp}
			w.mu.Unlock()
			p, err = nx.Dial(tr)
			if err != nil {
				return nil, fmt.Errorf("dial: %v", err)
			}
			lp := p.Local()
			_ = p.Write(nx.TLV(idPing, nil), nil)
			if !hx.Wait(nx.Patience, func() bool { e = port(lp); return e != nil }) {
				return nil, fmt.Errorf("the start hook does not run for a connection that was accepted")
			}
		}
		e.mu.Lock()
		e.p, e.nonread = p, nonread
		e.gone = make(chan struct{})
		e.pingsSent = 1
		e.mu.Unlock()
		if c.Client {
			e.pingsSent = 0
		}
		if !nonread {
			e.drain()
		}
		return e, nil
	}

	flooded := map[int]bool{}
	for _, a := range c.Acts {
		if a.K == "flood" {
			flooded[a.I%len(c.Conns)] = true
		}
	}
	var es []*entry
	anyBoom := false
	for i, sp := range c.Conns {
		e, err := connect(sp, flooded[i] || c.HBBig)
		if err != nil {
			return err
		}
		es = append(es, e)
		e.boom = sp.Boom > 0
		anyBoom = anyBoom || e.boom
		if sp.InStart {
			e.must = true
			continue // the actors race with its start hook
		}
		if !hx.Wait(nx.Patience, func() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.started }) {
			return fmt.Errorf("HARNESS: start hook did not finish")
		}
		if got := e.spec; got.Add != sp.Add {
			return fmt.Errorf("HARNESS: start hook saw the wrong set-up")
		}
		for k := 0; k < sp.Late; k++ {
			e.addCB(sp.Add+k, 1)
		}
		for k := 0; k < sp.Rm; k++ {
			j := (k*2 + i) % (sp.Add + sp.Late)
			e.mu.Lock()
			for e.cbs[j].exact == 0 {
				j = (j + 1) % (sp.Add + sp.Late)
			}
			e.cbs[j].exact = 0
			e.mu.Unlock()
			e.c.RemoveCloseCallback("h", j)
		}
		e.c.RemoveCloseCallback("h", 999) // never added
		e.c.RemoveCloseCallback("g", 0)
	}
	// who has to end
	parties := make([]int, len(es))
	clear := false
	for _, a := range c.Acts {
		i := a.I % len(es)
		switch a.K {
		case "stop", "hstop":
			es[i].must = true
			parties[i] += a.N
		case "close", "reset", "half":
			if tr != "kcp" {
				es[i].must = true
				parties[i]++
			}
		case "panic":
			es[i].may = true
		case "clear":
			clear = true
			for _, e := range es {
				e.must = true
			}
			for i := range parties {
				parties[i]++
			}
		}
	}
	// barrier
	go_ := make(chan struct{})
	var actors sync.WaitGroup // actors that have to return
	var extraMu sync.Mutex
	var extra []*entry
	var actErr error
	fail := func(err error) {
		extraMu.Lock()
		if actErr == nil {
			actErr = err
		}
		extraMu.Unlock()
	}
	type sender struct {
		e    *entry
		what string
		done chan struct{}
	}
	var senders []*sender
	for ai, a := range c.Acts {
		a, ai := a, ai
		e := es[a.I%len(es)]
		start := func() {
			<-go_
			if a.D > 0 {
				time.Sleep(time.Duration(a.D) * time.Microsecond)
			}
		}
		spawn := func(f func()) { actors.Add(1); go func() { defer actors.Done(); start(); f() }() }
		switch a.K {
		case "stop":
			for k := 0; k < a.N; k++ {
				spawn(e.c.Stop)
			}
		case "clear":
			spawn(mgr.ClearConn)
		case "close":
			if tr != "kcp" {
				spawn(e.p.Close)
			}
		case "reset":
			if tr != "kcp" {
				spawn(e.p.Reset)
			}
		case "half":
			if tr != "kcp" {
				spawn(func() {
					if h, ok := e.p.Net().(interface{ CloseWrite() error }); ok {
						if h.CloseWrite() == nil {
							return
						}
					}
					e.p.Close()
				})
			}
		case "hstop":
			// several messages, so that the handler is reached more than once
			spawn(func() {
				for k := 0; k < a.N; k++ {
					if e.p.Write(nx.TLV(idStop, nil), nil) != nil {
						break
					}
				}
				// a peer that closed first has ended the connection anyway
			})
		case "panic":
			spawn(func() { _ = e.p.Write(nx.TLV(idPanic, nil), nil) })
		case "cb":
			spawn(func() {
				for k := 0; k < a.N; k++ {
					kk := 1000 + ai*10 + k
					e.addCB(kk, -1)
					if k%2 == 1 {
						e.c.RemoveCloseCallback("h", kk)
					}
				}
			})
		case "poll":
			spawn(func() {
				for k := 0; k < a.N*20; k++ {
					e.c.IsAlive()
					_ = e.c.Context().Err()
					if mgr != nil {
						_, _ = mgr.Get(e.c.GetConnID())
						mgr.Len()
					}
					nx.Jitter(uint64(k + ai))
				}
			})
		case "dial":
			for k := 0; k < (a.N+1)/2; k++ {
				k := k
				spawn(func() {
					x, err := connect(Conn{Add: k % 2}, c.HBBig)
					if err != nil {
						if clear { // the server may have ended it before the request arrived
							return
						}
						fail(err)
						return
					}
					x.may = clear
					extraMu.Lock()
					extra = append(extra, x)
					extraMu.Unlock()
				})
			}
		case "send", "flood":
			sd := &sender{e: e, what: a.K, done: make(chan struct{})}
			senders = append(senders, sd)
			go func() {
				defer close(sd.done)
				start()
				if a.K == "flood" {
					body := make([]byte, 400<<10)
					for k := 0; k < 400; k++ {
						if sendBy(e.c, a.N, body) != nil && e.c.Context().Err() != nil {
							return
						}
					}
					return
				}
				for k := 0; k < a.N*3; k++ {
					_ = sendBy(e.c, a.N+k, hx.Fill(uint64(k), 20*k))
				}
			}()
		}
	}
	close(go_)
	fin := make(chan struct{})
	go func() { actors.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(nx.Patience):
		return fmt.Errorf("a Stop, ClearConn, AddCloseCallback, IsAlive or registry call has not returned after %v", nx.Patience)
	}
	if actErr != nil {
		return actErr
	}
	all := append(append([]*entry{}, es...), extra...)
	check := func(when string) error {
		for i, e := range all {
			if e.boom {
				continue
			}
			if e.must {
				if err := ended(e, mgr, tr); err != nil {
					return fmt.Errorf("%s: connection %d (%s): %v", when, i, tr, err)
				}
			} else if e.may {
				// either is fine, but it must be one or the other
				if hx.Wait(20*time.Millisecond, e.endedNow) {
					e.must = true
					if err := ended(e, mgr, tr); err != nil {
						return fmt.Errorf("%s: connection %d (%s): %v", when, i, tr, err)
					}
				}
			}
		}
		for i, e := range all {
			if e.must || e.may || e.boom {
				continue
			}
			if err := working(e, mgr, tr); err != nil {
				return fmt.Errorf("%s: connection %d (%s), which nobody ended: %v", when, i, tr, err)
			}
		}
		return nil
	}
	if err := check("after the actors"); err != nil {
		return err
	}
	time.Sleep(3 * time.Millisecond)
	for _, e := range all {
		if err := counts(e); err != nil {
			return err
		}
	}
	nEnded, nLive := 0, 0
	for _, e := range all {
		if e.must {
			nEnded++
		} else {
			nLive++
		}
	}
	// end what is left
	for _, e := range all {
		if !e.must {
			e.must = true
			switch {
			case c.End == "close" && tr != "kcp":
				e.p.Close()
			case c.End == "clear" && mgr != nil:
			default:
				e.c.Stop()
			}
		}
	}
	if c.End == "clear" && mgr != nil {
		mgr.ClearConn()
	}
	if err := check("at the end (" + c.End + ")"); err != nil {
		return err
	}
	for _, sd := range senders {
		if sd.e.boom {
			continue
		}
		select {
		case <-sd.done:
		case <-time.After(nx.Patience):
			return fmt.Errorf("a send (%s) on an ended connection (%s) has not returned after %v", sd.what, tr, nx.Patience)
		}
	}
	time.Sleep(5 * time.Millisecond)
	w.mu.Lock()
	var ghosts []*entry
	for _, e := range w.byConn {
		ghosts = append(ghosts, e)
	}
	w.mu.Unlock()
	for _, e := range ghosts {
		if err := counts(e); err != nil {
			return err
		}
	}
	if mgr != nil && tr != "kcp" && !anyBoom {
		if !hx.Wait(nx.Patience, func() bool { return mgr.Len() == 0 }) {
			return fmt.Errorf("every connection has ended, but the connection manager still holds %d", mgr.Len())
		}
	}
	for _, e := range all {
		e.p.Close()
	}
	_ = srv
	side := "server"
	if c.Client {
		side = "client"
	}
	rec.Label(true, side+" "+tr)
	multi := false
	for i := range parties {
		multi = multi || parties[i] > 1
	}
	rec.Label(multi, "several parties end one connection")
	rec.Label(len(flooded) > 0, "blocked sender")
	rec.Label(c.HB > 0 && c.HBBig, "blocked heartbeat")
	rec.Label(clear && len(extra) > 0, "clear during accept")
	rec.Label(anyBoom, "hook panic")
	rec.Label(nEnded > 0 && nLive > 0, "others stay live")
	rec.Nontrivial(nEnded > 0 && (multi || len(senders) > 0))
	return nil
}

type icept func(ziface.IChain) ziface.IcResp

func (f icept) Intercept(ch ziface.IChain) ziface.IcResp { return f(ch) }

func (e *entry) drain() {
	e.mu.Lock()
	e.nonread = false
	p, g := e.p, e.gone
	e.mu.Unlock()
	go func() {
		b := make([]byte, 64<<10)
		for {
			if _, err := p.Read(b); err != nil {
				close(g)
				return
			}
		}
	}()
}

func sendBy(c ziface.IConnection, m int, body []byte) error {
	switch m % 4 {
	case 0:
		return c.SendMsg(7, body)
	case 1:
		return c.SendBuffMsg(7, body)
	case 2:
		return c.Send(nx.TLV(7, body))
	}
	return c.SendToQueue(nx.TLV(7, body))
}

func counts(e *entry) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.boom {
		return nil
	}
	if e.bad != "" {
		return fmt.Errorf("connection from port %s: %s", e.port, e.bad)
	}
	if e.starts != 1 {
		return fmt.Errorf("connection from port %s: the start hook ran %d times", e.port, e.starts)
	}
	if e.stops > 1 {
		return fmt.Errorf("connection from port %s: the stop hook ran %d times", e.port, e.stops)
	}
	for i, k := range e.cbs {
		if k.n > 1 || (k.exact == 0 && k.n > 0) {
			return fmt.Errorf("connection from port %s: close callback %d ran %d times (still registered: %v)", e.port, i, k.n, k.exact != 0)
		}
		if e.stops == 0 && k.n > 0 && e.c.Context().Err() == nil {
			return fmt.Errorf("connection from port %s: a close callback ran but the connection is live", e.port)
		}
	}
	return nil
}

func ended(e *entry, mgr ziface.IConnManager, tr string) error {
	var why string
	if !hx.Wait(nx.Patience, func() bool {
		why = ""
		if e.c.Context().Err() == nil {
			why = "its context has not ended"
			return false
		}
		e.mu.Lock()
		if e.stops == 0 {
			why = "the stop hook has not run"
		}
		for i, k := range e.cbs {
			if k.exact == 1 && k.n != 1 {
				why = fmt.Sprintf("close callback %d of %d ran %d times", i, len(e.cbs), k.n)
			}
		}
		e.mu.Unlock()
		if why == "" && e.c.IsAlive() {
			why = "it reports itself alive"
		}
		if why == "" && mgr != nil {
			if x, err := mgr.Get(e.c.GetConnID()); err == nil && x == e.c {
				why = "it is still in the connection manager"
			}
		}
		return why == ""
	}) {
		return fmt.Errorf("it was ended, but %v later %s", nx.Patience, why)
	}
	if err := counts(e); err != nil {
		return err
	}
	if tr != "kcp" {
		e.mu.Lock()
		nr := e.nonread
		e.mu.Unlock()
		if nr {
			e.drain()
		}
		select {
		case <-e.gone:
		case <-time.After(nx.Patience):
			return fmt.Errorf("it was ended, but %v later its socket is still open", nx.Patience)
		}
	}
	for m := 0; m < 4; m++ {
		got := make(chan error, 1)
		go func() { got <- sendBy(e.c, m, []byte("late")) }()
		select {
		case err := <-got:
			if err == nil {
				return fmt.Errorf("%s on the ended connection returned no error", []string{"SendMsg", "SendBuffMsg", "Send", "SendToQueue"}[m])
			}
		case <-time.After(nx.Patience):
			return fmt.Errorf("%s on the ended connection blocks", []string{"SendMsg", "SendBuffMsg", "Send", "SendToQueue"}[m])
		}
	}
	rest := make(chan error, 1)
	where := make(chan string, 10)
	go func() {
		step := ""
		do := func(s string, f func()) {
			step = s
			where <- s
			f()
		}
		err := hx.Call(func() {
			do("AddCloseCallback", func() { e.c.AddCloseCallback("late", 0, func() {}) })
			do("RemoveCloseCallback", func() { e.c.RemoveCloseCallback("late", 0) })
			do("SetProperty", func() { e.c.SetProperty("late", 1) })
			do("GetProperty", func() { _, _ = e.c.GetProperty("late") })
			do("RemoveProperty", func() { e.c.RemoveProperty("late") })
			do("RemoteAddrString", func() { e.c.RemoteAddrString(); e.c.LocalAddrString() })
			do("Stop", func() { e.c.Stop() })
		})
		if err != nil {
			err = fmt.Errorf("%s on the ended connection: %v", step, err)
		}
		rest <- err
	}()
	select {
	case err := <-rest:
		if err != nil {
			return err
		}
	case <-time.After(nx.Patience):
		last := ""
		for len(where) > 0 {
			last = <-where
		}
		return fmt.Errorf("%s on the ended connection blocks", last)
	}
	return nil
}

func working(e *entry, mgr ziface.IConnManager, tr string) error {
	e.mu.Lock()
	n := e.pings
	e.mu.Unlock()
	if err := e.p.Write(nx.TLV(idPing, nil), nil); err != nil {
		return fmt.Errorf("it was closed (%v)", err)
	}
	if !hx.Wait(nx.Patience, func() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.pings > n }) {
		return fmt.Errorf("its request is not handled (context: %v)", e.c.Context().Err())
	}
	if err := counts(e); err != nil {
		return err
	}
	e.mu.Lock()
	stops, bad := e.stops, e.bad
	e.mu.Unlock()
	if stops > 0 || e.c.Context().Err() != nil {
		return fmt.Errorf("it has ended (stop hook ran %d times, context %v) %s", stops, e.c.Context().Err(), bad)
	}
	if mgr != nil {
		if x, err := mgr.Get(e.c.GetConnID()); err != nil || x != e.c {
			return fmt.Errorf("it is not in the connection manager")
		}
	}
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C10",
		Rule:        "a live server (TCP, TLS, WebSocket, KCP) or zinx clients against a raw server, 1-4 connections with close callbacks added and removed, then up to 12 concurrent actors: server-side stops by several parties, clearing the connection manager, peer close/reset/half-close, handlers that stop their connection, interceptor panics, sends by every method, floods of a peer that does not read, blocked heartbeats, further dials, callback changes, polling. Oracle: every connection that was ended has exactly one start and one stop hook run, exactly one run of every callback still registered and none of the removed ones, an ended context, no registry entry, a closed socket, and sends that fail promptly; blocked senders return; every other connection still answers with no stop hook run. Facet callbacks: any history of callback additions and removals, by the start hook and then several parties; model: the list of those registered. Non-trivial: a connection was ended by several parties at once or with sends in flight; a callback was added after one was removed.",
		Assumptions: []string{"something that has not happened within 30 s does not happen", "KCP has no close notification, so a KCP peer cannot end a connection and does not see its end"},
		Facets: []hx.Facet{
			hx.F("server", 3000, 150000, gen(false), run, hx.OneShot()),
			hx.F("client", 1000, 50000, gen(true), run, hx.OneShot()),
			hx.F("callbacks", 800, 40000, genCB, runCB, hx.OneShot()),
		},
	})
}
