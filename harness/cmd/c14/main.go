// C14: heartbeats keep healthy connections and end dead ones.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---- the checker on scripted connections, in virtual time

// VConn is alive in [0, T0), dead in [T0, T1), alive in [T1, T2) ... (milliseconds)
type VConn struct {
	Toggle  []int
	SendErr bool
	Start   int // ms after the start of the case
	Stop    int // ms after its start
	Twice   bool
	Again   int // ms: started again this long after its stop (0: not)
}

type VCase struct {
	Interval int // ms
	MsgID    uint32
	Router   bool
	Slices   bool
	MakeMsg  bool
	Beat     bool
	NotAlive bool
	Clone    bool // every connection gets a clone, else the one connection gets the checker itself
	Conns    []VConn
}

func genV(t *rapid.T) VCase {
	c := VCase{
		Interval: rapid.SampledFrom([]int{2, 10, 100, 1000, 5000, 60000}).Draw(t, "i"),
		MsgID:    rapid.OneOf(rapid.Uint32Range(0, 5), rapid.Uint32Range(0, 200000), rapid.Uint32()).Draw(t, "id"), Router: rapid.Bool().Draw(t, "r"), Slices: rapid.Bool().Draw(t, "sl"), MakeMsg: rapid.Bool().Draw(t, "mm"),
		Beat: rapid.IntRange(0, 3).Draw(t, "bf") == 0, NotAlive: rapid.Bool().Draw(t, "na"), Clone: rapid.Bool().Draw(t, "cl"),
	}
	if rapid.IntRange(0, 9).Draw(t, "defid") == 0 {
		c.MsgID = ziface.HeartBeatDefaultMsgID
	}
	n := 1
	if c.Clone {
		n = rapid.IntRange(1, 4).Draw(t, "n")
	}
	ms := rapid.Custom(func(t *rapid.T) int { return rapid.IntRange(0, 12*c.Interval).Draw(t, "ms") })
	for i := 0; i < n; i++ {
		v := VConn{Toggle: rapid.SliceOfN(ms, 0, 4).Draw(t, "tg"), SendErr: rapid.Bool().Draw(t, "se"), Start: rapid.IntRange(0, 3*c.Interval).Draw(t, "st"), Stop: ms.Draw(t, "sp"), Twice: rapid.Bool().Draw(t, "tw")}
		sort.Ints(v.Toggle)
		if rapid.IntRange(0, 3).Draw(t, "ag") == 0 {
			v.Again = rapid.IntRange(1, 2*c.Interval).Draw(t, "again")
		}
		c.Conns = append(c.Conns, v)
	}
	return c
}

type ev struct {
	at   time.Duration
	what string // send, beat, dead, stop
	id   uint32
	msg  string
	live bool
}

type vconn struct {
	nx.FakeConn
	t0    time.Time
	spec  VConn
	mu    sync.Mutex
	evs   []ev
	hb    ziface.IHeartbeatChecker
	asked bool
}

func (v *vconn) IsAlive() bool {
	ms := float64(time.Since(v.t0)) / 1e6
	n := 0
	for _, x := range v.spec.Toggle {
		if ms >= float64(x)+0.25 {
			n++
		}
	}
	return n%2 == 0
}
func (v *vconn) log(e ev) {
	e.at = time.Since(v.t0)
	e.live = v.IsAlive()
	v.mu.Lock()
	v.evs = append(v.evs, e)
	v.mu.Unlock()
}
func (v *vconn) SendMsg(id uint32, b []byte) error {
	v.log(ev{what: "send", id: id, msg: string(b)})
	if v.spec.SendErr {
		return errors.New("planted send error")
	}
	return nil
}
func (v *vconn) Stop()                                   { v.log(ev{what: "stop"}) }
func (v *vconn) SetHeartBeat(h ziface.IHeartbeatChecker) { v.hb = h }
func (v *vconn) mark() string                            { return fmt.Sprintf("beat of %d", v.ID) }

func runV(c VCase, rec *hx.Rec) error {
	nx.Quiet(0)
	return hx.Virtual(rec, func() error {
		I := time.Duration(c.Interval) * time.Millisecond
		h := znet.NewHeartbeatChecker(I)
		id := uint32(ziface.HeartBeatDefaultMsgID)
		if c.MakeMsg {
			h.SetHeartbeatMsgFunc(func(cn ziface.IConnection) []byte { return []byte(cn.(*vconn).mark()) })
		}
		h.SetHeartbeatMsgFunc(nil) // keeps what is set
		if c.Router {
			if c.Slices {
				h.BindRouterSlices(c.MsgID, func(ziface.IRequest) {})
			} else {
				h.BindRouter(c.MsgID, &nx.Router{})
			}
			id = c.MsgID
		}
		if c.Beat {
			h.SetHeartbeatFunc(func(cn ziface.IConnection) error { cn.(*vconn).log(ev{what: "beat"}); return errors.New("x") })
		}
		if c.NotAlive {
			h.SetOnRemoteNotAlive(func(cn ziface.IConnection) { cn.(*vconn).log(ev{what: "dead"}) })
		}
		h.SetOnRemoteNotAlive(nil)
		h.SetHeartbeatFunc(nil)
		if h.MsgID() != id {
			return fmt.Errorf("the checker's message id is %d, not %d", h.MsgID(), id)
		}
		var wg sync.WaitGroup
		cs := make([]*vconn, len(c.Conns))
		t0 := time.Now()
		errs := make([]error, len(c.Conns))
		for i, sp := range c.Conns {
			k := h
			if c.Clone {
				k = h.Clone()
				if k.MsgID() != id || k.Router() != h.Router() || len(k.RouterSlices()) != len(h.RouterSlices()) {
					return fmt.Errorf("a clone differs: message id %d for %d, %d handlers for %d", k.MsgID(), id, len(k.RouterSlices()), len(h.RouterSlices()))
				}
			}
			v := &vconn{FakeConn: nx.FakeConn{ID: uint64(i + 1)}, t0: t0, spec: sp}
			cs[i] = v
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				k.BindConn(v)
				if v.hb != k {
					errs[i] = fmt.Errorf("BindConn did not give the connection its checker")
					return
				}
				sp := v.spec
				rounds := 1
				if sp.Again > 0 {
					rounds = 2
				}
				time.Sleep(time.Duration(sp.Start)*time.Millisecond + 100*time.Microsecond)
				for r := 0; r < rounds; r++ {
					s := time.Since(t0)
					v.mu.Lock()
					v.evs = nil
					v.mu.Unlock()
					k.Start()
					time.Sleep(time.Duration(sp.Stop)*time.Millisecond + 500*time.Microsecond)
					stopped := make(chan struct{})
					go func() {
						k.Stop()
						if sp.Twice {
							k.Stop()
						}
						close(stopped)
					}()
					select {
					case <-stopped:
					case <-time.After(time.Hour):
						errs[i] = fmt.Errorf("Stop has not returned after an hour")
						return
					}
					e := time.Since(t0)
					if sp.Again > 0 && r == 0 {
						time.Sleep(time.Duration(sp.Again) * time.Millisecond)
					} else {
						time.Sleep(5*I + time.Second)
					}
					if errs[i] = judge(c, v, I, id, s, e); errs[i] != nil {
						errs[i] = fmt.Errorf("connection %d, round %d: %v", i, r, errs[i])
						return
					}
				}
			}(i)
		}
		wg.Wait()
		n := 0
		for i, err := range errs {
			if err != nil {
				return err
			}
			n += len(cs[i].evs)
		}
		rec.Label(len(cs) > 1, "several connections")
		rec.Label(c.Beat, "custom sender")
		rec.Label(c.NotAlive, "custom not-alive action")
		rec.Label(n > 5, "more than 5 ticks")
		rec.Nontrivial(n > 0)
		return nil
	})
}

func judge(c VCase, v *vconn, I time.Duration, id uint32, start, stop time.Duration) error {
	v.mu.Lock()
	defer v.mu.Unlock()
	want := int((stop - start) / I)
	if len(v.evs) != want {
		return fmt.Errorf("%d heartbeats or not-alive actions in %v at an interval of %v, expected %d", len(v.evs), stop-start, I, want)
	}
	for k, e := range v.evs {
		due := start + time.Duration(k+1)*I
		if d := e.at - due; d > I/5 || d < -I/5 {
			return fmt.Errorf("action %d at %v, due at %v", k, e.at, due)
		}
		what := "send"
		switch {
		case !e.live && c.NotAlive:
			what = "dead"
		case !e.live:
			what = "stop"
		case c.Beat:
			what = "beat"
		}
		if e.what != what {
			return fmt.Errorf("action %d is %q, expected %q (alive: %v)", k, e.what, what, e.live)
		}
		if what == "send" && (e.id != id || (c.MakeMsg && e.msg != v.mark()) || (!c.MakeMsg && e.msg == "")) {
			return fmt.Errorf("heartbeat %d has id %d and text %q", k, e.id, e.msg)
		}
	}
	return nil
}

// ---- live connections

// Peer of a live case. Gap: ms between two things it sends; Until: ms after which it
// falls silent (0: never); Kind: msg, part (bytes of an unfinished message), ping
// (WebSocket ping frames), hb (the heartbeat message itself).
type Peer struct {
	Kind  string
	Gap   int
	Until int
	Delay int
}

type Case struct {
	Conf     nx.Conf
	Client   bool
	Interval int
	MakeMsg  bool
	NotAlive string // "" default, "note": only recorded, "stop": recorded and stopped
	Custom   bool   // custom message id and router
	Beat     bool
	Peers    []Peer
	Restart  string // client: after the first part the connection is ended by stop or close and the client restarted
}

const total = 2100 * time.Millisecond

func gen(client bool) func(*rapid.T) Case {
	return func(t *rapid.T) Case {
		trs := []string{"tcp", "ws", "kcp", "tls"}
		if client {
			trs = []string{"tcp", "ws", "tls"}
		}
		c := Case{Client: client, Conf: nx.Conf{Transport: rapid.SampledFrom(trs).Draw(t, "tr"), Pool: uint32(rapid.IntRange(0, 2).Draw(t, "pool")), MaxConn: 100,
			Slices: !client && rapid.Bool().Draw(t, "sl"), Mode: rapid.SampledFrom([]string{"", "Bind", "DynamicBind"}).Draw(t, "mode")},
			Interval: rapid.SampledFrom([]int{20, 50, 100, 200, 400}).Draw(t, "i"), MakeMsg: rapid.Bool().Draw(t, "mm"),
			NotAlive: rapid.SampledFrom([]string{"", "", "note", "stop"}).Draw(t, "na"), Custom: rapid.Bool().Draw(t, "cu"), Beat: !client && rapid.IntRange(0, 4).Draw(t, "b") == 0}
		kinds := []string{"msg", "msg", "part", "hb"}
		if c.Conf.Transport == "ws" {
			kinds = append(kinds, "ping", "ping")
		}
		n := rapid.IntRange(2, 8).Draw(t, "n")
		if client {
			n = rapid.IntRange(1, 3).Draw(t, "n")
			c.Restart = rapid.SampledFrom([]string{"", "stop", "close"}).Draw(t, "re")
		}
		for i := 0; i < n; i++ {
			c.Peers = append(c.Peers, Peer{rapid.SampledFrom(kinds).Draw(t, "k"), rapid.SampledFrom([]int{30, 150, 300, 500}).Draw(t, "g"),
				rapid.SampledFrom([]int{0, 0, 1, 300, 700}).Draw(t, "u"), rapid.IntRange(0, 100).Draw(t, "d")})
		}
		return c
	}
}

type lconn struct {
	c         ziface.IConnection
	dead      []time.Time // not-alive actions
	beats     []time.Time // heartbeats made or sent by a custom function
	stopped   time.Time
	dialled   time.Time
	lastBegin time.Time
	lastEnd   time.Time
	maxGap    time.Duration
	got       []time.Time // heartbeats that arrived at the peer
	bad       error
	badWrite  bool
	sent      int // heartbeats the peer sent
	handled   int // given to the custom handler
}

func run(c Case, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	zconf.GlobalObject.HeartbeatMax = 1
	const max = time.Second
	I := time.Duration(c.Interval) * time.Millisecond
	// measures how late this process is scheduled; timing is not judged on an overloaded machine
	var lag atomic.Int64
	go func() {
		for {
			t := time.Now()
			time.Sleep(5 * time.Millisecond)
			if d := int64(time.Since(t) - 5*time.Millisecond); d > lag.Load() {
				lag.Store(d)
			}
		}
	}()
	var mu sync.Mutex
	byConn := map[ziface.IConnection]*lconn{}
	byPort := map[string]*lconn{}
	key := func(cn ziface.IConnection) string {
		if c.Client {
			return nx.Port(cn.LocalAddrString())
		}
		return nx.Port(cn.RemoteAddrString())
	}
	get := func(cn ziface.IConnection) *lconn { // mu held
		l := byConn[cn]
		if l == nil {
			l = &lconn{c: cn}
			byConn[cn] = l
			if byPort[key(cn)] == nil {
				byPort[key(cn)] = l
			}
		}
		return l
	}
	onStart := func(cn ziface.IConnection) { mu.Lock(); get(cn); mu.Unlock() }
	onStop := func(cn ziface.IConnection) { mu.Lock(); get(cn).stopped = time.Now(); mu.Unlock() }
	id := uint32(ziface.HeartBeatDefaultMsgID)
	opt := &ziface.HeartBeatOption{}
	if c.MakeMsg {
		opt.MakeMsg = func(cn ziface.IConnection) []byte {
			mu.Lock()
			l := get(cn)
			l.beats = append(l.beats, time.Now())
			mu.Unlock()
			return []byte("hb" + key(cn))
		}
	}
	if c.NotAlive != "" {
		opt.OnRemoteNotAlive = func(cn ziface.IConnection) {
			mu.Lock()
			l := get(cn)
			l.dead = append(l.dead, time.Now())
			mu.Unlock()
			if c.NotAlive == "stop" {
				cn.Stop()
			}
		}
	}
	if c.Custom {
		opt.HeartBeatMsgID = 77
		h := func(q ziface.IRequest) {
			mu.Lock()
			l := get(q.GetConnection())
			l.handled++
			if q.GetMsgID() != 77 || string(q.GetData()) != "peer beat" {
				l.bad = fmt.Errorf("the heartbeat's handler was given message %d %q", q.GetMsgID(), q.GetData())
			}
			mu.Unlock()
		}
		opt.Router = &nx.Router{H: h}
		opt.RouterSlices = []ziface.RouterHandler{h}
		id = 77
	}
	hb := id // what the peers send as heartbeats
	wantMsg := func(port string) []byte {
		if c.MakeMsg {
			return []byte("hb" + port)
		}
		return nil
	}
	var ln *nx.Listener
	if !c.Client {
		s.SetOnConnStart(onStart)
		s.SetOnConnStop(onStop)
		nx.Route(s, c.Conf.Slices, 1, func(ziface.IRequest) {})
		s.StartHeartBeatWithOption(I, opt)
		if c.Beat {
			s.GetHeartBeat().SetHeartbeatFunc(func(cn ziface.IConnection) error {
				mu.Lock()
				l := get(cn)
				l.beats = append(l.beats, time.Now())
				mu.Unlock()
				return cn.SendMsg(78, []byte("beat"+key(cn)))
			})
			id = 78
			wantMsg = func(port string) []byte { return []byte("beat" + port) }
		}
		if pan := hx.Call(s.Start); pan != nil {
			return fmt.Errorf("start: %v", pan)
		}
		if err := nx.Up(c.Conf.Transport); err != nil {
			return err
		}
	} else if ln, err = nx.Listen(c.Conf.Transport); err != nil {
		return err
	}
	// drive plays a peer until the end time and returns what it saw
	drive := func(p *nx.Peer, sp Peer, l *lconn, port string, begin, end time.Time) {
		go func() {
			for {
				i, b, err := nx.ReadTLV(p)
				if err != nil {
					return
				}
				mu.Lock()
				if i != id || (wantMsg(port) != nil && !bytes.Equal(b, wantMsg(port))) || len(b) == 0 {
					l.bad = fmt.Errorf("a heartbeat with id %d and text %q arrived, expected id %d and %q", i, b, id, wantMsg(port))
				}
				l.got = append(l.got, time.Now())
				mu.Unlock()
			}
		}()
		frame := nx.TLV(1, make([]byte, 4000))
		pos := 0
		for k := 0; ; k++ {
			now := time.Now()
			if now.After(end) || (sp.Until > 0 && k > 0 && now.Sub(begin) > time.Duration(sp.Until)*time.Millisecond) {
				return
			}
			var err error
			switch sp.Kind {
			case "msg":
				err = p.Write(nx.TLV(1, []byte("data")), nil)
			case "hb":
				err = p.Write(nx.TLV(hb, []byte("peer beat")), nil)
				mu.Lock()
				l.sent++
				mu.Unlock()
			case "part":
				err = p.Write(frame[pos:pos+1], nil)
				pos++
			case "ping":
				err = p.Ping()
			}
			mu.Lock()
			if err != nil {
				l.badWrite = true
				mu.Unlock()
				return
			}
			if g := time.Since(l.lastEnd); !l.lastEnd.IsZero() && g > l.maxGap {
				l.maxGap = g
			}
			l.lastBegin, l.lastEnd = now, time.Now()
			mu.Unlock()
			if w := time.Until(end); w < time.Duration(sp.Gap)*time.Millisecond {
				time.Sleep(w)
			} else {
				time.Sleep(time.Duration(sp.Gap) * time.Millisecond)
			}
		}
	}
	wait := func(port string) (*lconn, error) {
		var l *lconn
		if !hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); l = byPort[port]; return l != nil }) {
			return nil, fmt.Errorf("a connection does not start")
		}
		return l, nil
	}
	judgeOne := func(sp Peer, l *lconn, from, to time.Time) error {
		over := time.Duration(lag.Load()) > 60*time.Millisecond
		if c.Custom && sp.Kind == "hb" {
			hx.Wait(nx.Patience, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return l.handled == l.sent || l.badWrite || l.c.Context().Err() != nil || !l.stopped.IsZero()
			})
		}
		mu.Lock()
		defer mu.Unlock()
		if c.Custom && sp.Kind == "hb" && (l.handled > l.sent || l.handled < l.sent && !l.badWrite && l.c.Context().Err() == nil && l.stopped.IsZero()) {
			return fmt.Errorf("%d of %d heartbeats of the peer were given to the heartbeat's handler", l.handled, l.sent)
		}
		if l.bad != nil {
			return l.bad
		}
		ended := l.c.Context().Err() != nil || !l.stopped.IsZero()
		if sp.Until == 0 {
			if !over && l.maxGap < 700*time.Millisecond && (ended || len(l.dead) > 0) {
				return fmt.Errorf("a connection on which something (%s) arrived at least every %v was taken for dead (ended: %v, not-alive actions: %d)", sp.Kind, l.maxGap, ended, len(l.dead))
			}
		} else {
			// dead since lastEnd: nothing before lastBegin+max, something until lastEnd+max+2I
			at := l.stopped
			if len(l.dead) > 0 {
				at = l.dead[0]
			}
			if !at.IsZero() && at.Before(l.lastBegin.Add(max-2*time.Millisecond)) {
				return fmt.Errorf("a connection was taken for dead %v after the last thing that arrived, the allowed interval is %v", at.Sub(l.lastBegin), max)
			}
			lim := l.lastEnd.Add(max + 2*I + 250*time.Millisecond)
			if at.IsZero() && to.After(lim) && !over {
				return fmt.Errorf("a connection on which nothing has arrived for %v was not taken for dead (allowed %v, detection interval %v)", to.Sub(l.lastEnd), max, I)
			}
			if !at.IsZero() && at.After(lim) && !over {
				return fmt.Errorf("a connection was taken for dead only %v after the last arrival (allowed %v, detection interval %v)", at.Sub(l.lastEnd), max, I)
			}
			if c.NotAlive == "" && len(l.dead) > 0 {
				return fmt.Errorf("HARNESS: impossible")
			}
			if c.NotAlive == "note" && ended {
				return fmt.Errorf("the not-alive action was replaced, but the connection was ended")
			}
		}
		// heartbeats while it lived
		stop := to
		if !l.stopped.IsZero() && l.stopped.Before(stop) {
			stop = l.stopped
		}
		if c.NotAlive == "note" && len(l.dead) > 0 && l.dead[0].Before(stop) {
			stop = l.dead[0]
		}
		d := stop.Sub(l.dialled)
		if n := len(l.got); n > int(d/I)+2+int(lagTicks(time.Duration(lag.Load()), I)) && !l.badWrite {
			return fmt.Errorf("%d heartbeats arrived in %v at an interval of %v", n, d, I)
		} else if !over && n < int(d/I)-3-int(120*time.Millisecond/I) && !l.badWrite {
			return fmt.Errorf("only %d heartbeats arrived in %v at an interval of %v", n, d, I)
		}
		// none after the end
		if !l.stopped.IsZero() && !over {
			for _, b := range l.beats {
				if b.After(l.stopped.Add(I + 200*time.Millisecond)) {
					return fmt.Errorf("a heartbeat was made %v after the connection ended", b.Sub(l.stopped))
				}
			}
		}
		return nil
	}
	var wg sync.WaitGroup
	errs := make([]error, len(c.Peers))
	restarts := 0
	for i, sp := range c.Peers {
		wg.Add(1)
		go func(i int, sp Peer) {
			defer wg.Done()
			time.Sleep(time.Duration(sp.Delay) * time.Millisecond)
			if !c.Client {
				t0 := time.Now()
				p, err := nx.Dial(c.Conf.Transport)
				if err != nil {
					errs[i] = fmt.Errorf("dial: %v", err)
					return
				}
				defer p.Close()
				if c.Conf.Transport == "kcp" { // a silent KCP peer does not exist for the server
					_ = p.Write(nx.TLV(1, nil), nil)
				}
				l, err := wait(p.Local())
				if err != nil {
					errs[i] = err
					return
				}
				mu.Lock()
				l.dialled, l.lastBegin, l.lastEnd = t0, t0, time.Now()
				mu.Unlock()
				end := t0.Add(total)
				drive(p, sp, l, p.Local(), t0, end)
				time.Sleep(time.Until(end))
				errs[i] = judgeOne(sp, l, t0, time.Now())
				return
			}
			cl := nx.Client(c.Conf.Transport)
			cl.SetOnConnStart(onStart)
			cl.SetOnConnStop(onStop)
			cl.AddRouter(1, &nx.Router{})
			cl.StartHeartBeatWithOption(I, opt)
			parts := 1
			if c.Restart != "" {
				parts = 2
				sp.Until = 0
			}
			for part := 0; part < parts; part++ {
				t0 := time.Now()
				var p *nx.Peer
				connMu.Lock()
				if part == 0 {
					cl.Start()
				} else {
					cl.Restart()
				}
				select {
				case p = <-ln.C:
				case <-time.After(nx.Patience):
					errs[i] = fmt.Errorf("the client does not connect")
				}
				connMu.Unlock()
				if errs[i] != nil {
					return
				}
				port := nx.Port(p.Net().RemoteAddr().String())
				l, err := wait(port)
				if err != nil {
					errs[i] = err
					return
				}
				mu.Lock()
				l.dialled, l.lastBegin, l.lastEnd = t0, t0, time.Now()
				mu.Unlock()
				end := t0.Add(total)
				if parts == 2 {
					end = t0.Add(total / 2)
				}
				drive(p, sp, l, port, t0, end)
				time.Sleep(time.Until(end))
				if errs[i] = judgeOne(sp, l, t0, time.Now()); errs[i] != nil {
					errs[i] = fmt.Errorf("client connection %d: %w", part, errs[i])
					return
				}
				if parts == 2 && part == 0 {
					mu.Lock()
					restarts++
					mu.Unlock()
					if c.Restart == "close" {
						p.Close()
						if !hx.Wait(nx.Patience, func() bool { return l.c.Context().Err() != nil }) {
							errs[i] = fmt.Errorf("the client connection does not end")
							return
						}
					} else {
						l.c.Stop()
					}
				} else {
					p.Close()
				}
			}
		}(i, sp)
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("peer %d (%s): %w", i, c.Conf.Transport, err)
		}
	}
	over := time.Duration(lag.Load()) > 60*time.Millisecond
	live, dead := 0, 0
	for _, sp := range c.Peers {
		if sp.Until == 0 {
			live++
		} else {
			dead++
		}
	}
	rec.Label(over, "overloaded, timing not judged")
	rec.Label(true, c.Conf.Transport)
	rec.Label(live > 0 && dead > 0, "healthy and dead together")
	rec.Label(restarts > 0, "client restarted")
	rec.Nontrivial(!over && (live > 0 && dead > 0 || c.Client))
	return nil
}

var connMu sync.Mutex

func lagTicks(lag, I time.Duration) int64 { return int64(lag / I) }

var _ = websocket.PingMessage

func main() {
	hx.Main(hx.Property{
		ID:          "C14",
		Rule:        "checker: heartbeat checkers (direct or cloned for 1-4 scripted connections that turn dead and alive, with every combination of custom message, message id, sender and not-alive action, stopped once or twice, restarted) in virtual time; the exact sequence and time of sends and not-alive actions is predicted. server/client: real connections (TCP, TLS, WebSocket, KCP; zinx clients against a raw server, restarted after the connection ended) with an allowed idle time of 1 s, detection every 20-400 ms, peers that send messages, fragments, heartbeats or WebSocket pings every 30-500 ms, or fall silent: healthy ones are never taken for dead, silent ones not before 1 s and by 1 s plus two intervals (250 ms slack), heartbeats arrive at the interval with the right id and text, none are made after the end; the peer's own heartbeats reach the custom handler. fresh: a checker of the user that looks 0-500 us after it was started finds every new connection alive. Upper time limits are not judged when the process was scheduled more than 60 ms late. Non-trivial: a tick happened / healthy and silent peers together.",
		Assumptions: []string{"the allowed idle time is zconf's HeartbeatMax"},
		Facets: []hx.Facet{
			hx.F("checker", 4000, 200000, genV, runV, hx.OneShot()),
			hx.F("server", 250, 10000, gen(false), run, hx.OneShot(), hx.Wide(32)),
			hx.F("client", 150, 6000, gen(true), run, hx.OneShot(), hx.Wide(32)),
			hx.F("fresh", 400, 10000, genF, runF, hx.OneShot()),
		},
	})
}
