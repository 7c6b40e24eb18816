// C11: never more connections than the limit, and slots are reused.
package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

const idPing = 1

// Peer is one client: it dials D microseconds after the barrier, pings (unless Quick),
// holds the connection for Hold microseconds and leaves.
type Peer struct {
	WS    bool // with both transports on: over WebSocket
	D     int
	Quick bool
	Hold  int
	Leave string // close, reset, stop (server side)
}

type Case struct {
	Conf   nx.Conf
	HookUS int
	Peers  []Peer
}

func gen(t *rapid.T) Case {
	c := Case{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "ws", "ws", "kcp", "tls", "both", "both"}).Draw(t, "tr"),
		Mode:      rapid.SampledFrom([]string{"", "Bind", "DynamicBind"}).Draw(t, "mode"),
		Pool:      uint32(rapid.IntRange(0, 3).Draw(t, "pool")),
		MaxConn:   rapid.IntRange(1, 6).Draw(t, "max"),
		Procs:     rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
		Beat:      rapid.IntRange(0, 3).Draw(t, "beat") == 0,
	}}
	if rapid.IntRange(0, 3).Draw(t, "jq") > 0 {
		c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	c.HookUS = rapid.SampledFrom([]int{0, 0, 300, 3000}).Draw(t, "hook")
	c.Peers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Peer {
		return Peer{rapid.Bool().Draw(t, "ws"), rapid.SampledFrom([]int{0, 0, 0, 100, 1000, 5000}).Draw(t, "d"), rapid.IntRange(0, 3).Draw(t, "q") == 0,
			rapid.SampledFrom([]int{0, 200, 2000, 8000}).Draw(t, "h"), rapid.SampledFrom([]string{"close", "close", "reset", "stop"}).Draw(t, "l")}
	}), 1, 24).Draw(t, "peers")
	return c
}

func run(c Case, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	max := c.Conf.MaxConn
	mgr := s.GetConnMgr()
	var mu sync.Mutex
	live, peak, over := 0, 0, 0
	byPort := map[string]ziface.IConnection{}
	pinged := map[string]int{}
	kcp := c.Conf.Transport == "kcp"
	s.SetOnConnStart(func(cn ziface.IConnection) {
		n := mgr.Len()
		mu.Lock()
		live++
		if live > peak {
			peak = live
		}
		if n > max || live > max {
			over++
			if n > peak {
				peak = n
			}
		}
		p := nx.Port(cn.RemoteAddrString())
		old := byPort[p]
		if old == nil {
			byPort[p] = cn
		}
		mu.Unlock()
		if c.HookUS > 0 {
			time.Sleep(time.Duration(c.HookUS) * time.Microsecond)
		}
		if kcp && old != nil {
			cn.Stop() // a late packet of a peer that has left: KCP makes a connection of it
		}
	})
	s.SetOnConnStop(func(cn ziface.IConnection) { mu.Lock(); live--; mu.Unlock() })
	nx.Route(s, false, idPing, func(q ziface.IRequest) {
		mu.Lock()
		pinged[nx.Port(q.GetConnection().RemoteAddrString())]++
		mu.Unlock()
	})
	if pan := hx.Call(s.Start); pan != nil {
		return fmt.Errorf("start: %v", pan)
	}
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	var quit atomic.Bool
	defer quit.Store(true)
	go func() {
		for !quit.Load() {
			if n := mgr.Len(); n > max {
				mu.Lock()
				over++
				if n > peak {
					peak = n
				}
				mu.Unlock()
			}
			time.Sleep(50 * time.Microsecond)
		}
	}()
	tr := func(ws bool) string {
		if c.Conf.Transport == "both" {
			if ws {
				return "ws"
			}
			return "tcp"
		}
		return c.Conf.Transport
	}
	served := func(p *nx.Peer) bool { mu.Lock(); defer mu.Unlock(); return pinged[p.Local()] > 0 }
	var refused atomic.Int64
	// serve dials until a request of the connection is handled: a connection over the
	// limit may be refused, and then the peer comes again
	serve := func(t string) (*nx.Peer, error) {
		end := time.Now().Add(nx.Patience)
		var last error
		for time.Now().Before(end) {
			p, err := nx.DialFor(t, time.Until(end))
			if err != nil {
				return nil, fmt.Errorf("dial: %v", err)
			}
			gone := make(chan struct{})
			go func() { b := make([]byte, 256); _, _ = p.Read(b); close(gone) }()
			last = p.Write(nx.TLV(idPing, nil), nil)
			for last == nil && !served(p) && time.Now().Before(end) {
				select {
				case <-gone:
					if !served(p) {
						last = fmt.Errorf("refused")
					}
				case <-time.After(200 * time.Microsecond):
				}
			}
			if served(p) {
				return p, nil
			}
			refused.Add(1)
			p.Close()
			time.Sleep(time.Millisecond)
		}
		return nil, fmt.Errorf("a connection is not served within %v (limit %d, %d in the connection manager): %v", nx.Patience, max, mgr.Len(), last)
	}
	leave := func(p *nx.Peer, how string) {
		mu.Lock()
		cn := byPort[p.Local()]
		mu.Unlock()
		if kcp {
			p.Close()
			if cn != nil {
				cn.Stop()
			}
			return
		}
		switch how {
		case "reset":
			p.Reset()
		case "stop":
			if cn != nil {
				cn.Stop()
			}
			defer p.Close()
			if cn != nil {
				p.Gone(nx.Patience)
			}
		default:
			p.Close()
		}
	}
	bar := make(chan struct{})
	var wg sync.WaitGroup
	errs := make([]error, len(c.Peers))
	for i, sp := range c.Peers {
		wg.Add(1)
		go func(i int, sp Peer) {
			defer wg.Done()
			<-bar
			time.Sleep(time.Duration(sp.D) * time.Microsecond)
			var p *nx.Peer
			var err error
			if sp.Quick && !kcp { // a KCP peer that is silent does not exist for the server
				if p, err = nx.DialFor(tr(sp.WS), nx.Patience); err != nil {
					errs[i] = fmt.Errorf("dial: %v", err)
					return
				}
			} else if p, err = serve(tr(sp.WS)); err != nil {
				errs[i] = err
				return
			}
			time.Sleep(time.Duration(sp.Hold) * time.Microsecond)
			leave(p, sp.Leave)
		}(i, sp)
	}
	close(bar)
	wg.Wait()
	check := func(when string) error {
		mu.Lock()
		defer mu.Unlock()
		if over > 0 || peak > max {
			return fmt.Errorf("%s: %d connections were live at once, the limit is %d", when, peak, max)
		}
		return nil
	}
	if err := check("while peers came and went"); err != nil {
		return err
	}
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("peer %d of %d: %v", i, len(c.Peers), err)
		}
	}
	// fill the limit again, then one more
	var full []*nx.Peer
	for i := 0; i < max; i++ {
		p, err := serve(tr(i%2 == 0))
		if err != nil {
			return fmt.Errorf("refilling, %d of %d in use: %v", i, max, err)
		}
		full = append(full, p)
	}
	extra := make(chan error, 1)
	var ep *nx.Peer
	go func() {
		p, err := serve(tr(len(c.Peers)%2 == 0))
		ep = p
		extra <- err
	}()
	select {
	case err := <-extra:
		if e2 := check("with the limit reached"); e2 != nil {
			return e2
		}
		if err == nil {
			return fmt.Errorf("with %d connections live, the limit, one more was served", max)
		}
		return err
	case <-time.After(4 * time.Millisecond):
	}
	leave(full[0], c.Peers[0].Leave)
	if err := <-extra; err != nil {
		return fmt.Errorf("one of %d connections was ended, but its slot is not reused: %v", max, err)
	}
	if err := check("at the end"); err != nil {
		return err
	}
	for _, p := range full[1:] {
		if !kcp && p.Write(nx.TLV(idPing, nil), nil) != nil {
			return fmt.Errorf("a connection under the limit was ended")
		}
	}
	ep.Close()
	for _, p := range full {
		p.Close()
	}
	rec.Label(true, c.Conf.Transport)
	rec.Label(refused.Load() > 0, "refused")
	rec.Label(peak == max, "limit reached")
	rec.Nontrivial(len(c.Peers) > max)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C11",
		Rule:        "a live server per case (TCP, TLS, WebSocket, KCP, or TCP and WebSocket together) with a limit of 1-6, and up to 24 peers that dial at once or staggered, hold, and leave by close, reset or a server-side stop; then the limit is filled again and exceeded by one. Oracle: the number of connections between their start and stop hooks, and the connection manager's length sampled throughout, never exceed the limit; every peer is served eventually; the one above the limit is served only once another has left; the others stay up. Facet starve: 1-4 rounds in which the process can open no descriptor while peers under the limit connect, give up or leave; every one that has not given up is served afterwards, live ones are served meanwhile. Non-trivial: more peers than the limit; peers waited for a descriptor.",
		Assumptions: []string{"a connection above the limit may wait or be refused; a peer that is refused dials again", "something that has not happened within 30 s does not happen"},
		Facets:      []hx.Facet{hx.F("live", 2000, 100000, gen, run, hx.OneShot()), hx.F("starve", 600, 30000, genStarve, runStarve, hx.OneShot())},
	})
}
