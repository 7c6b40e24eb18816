package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// Round is one time without descriptors: New peers connect meanwhile, Drop of
// them give up before it ends, and Leave of the peers already served leave.
type Round struct {
	New   int
	Drop  int
	Reset bool
	Hold  int // ms
	Leave int
	Clear bool // all leave by ClearConn
}

type SCase struct {
	Tr     string
	Mode   string
	Max    int
	Procs  int
	Rounds []Round
}

func genStarve(t *rapid.T) SCase {
	return SCase{
		Tr:    rapid.SampledFrom([]string{"tcp", "tcp", "tls", "ws"}).Draw(t, "tr"),
		Mode:  rapid.SampledFrom([]string{"", "Bind", "DynamicBind"}).Draw(t, "mode"),
		Max:   rapid.IntRange(1, 8).Draw(t, "max"),
		Procs: rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
		Rounds: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Round {
			n := rapid.IntRange(0, 6).Draw(t, "n")
			return Round{n, rapid.IntRange(0, n).Draw(t, "d"), rapid.Bool().Draw(t, "r"),
				rapid.SampledFrom([]int{0, 2, 10, 40}).Draw(t, "h"), rapid.IntRange(0, 3).Draw(t, "l"), rapid.IntRange(0, 5).Draw(t, "c") == 0}
		}), 1, 4).Draw(t, "rounds"),
	}
}

func runStarve(c SCase, rec *hx.Rec) error {
	s, err := nx.Server(nx.Conf{Transport: c.Tr, Mode: c.Mode, Pool: 2, MaxConn: c.Max, Procs: c.Procs})
	if err != nil {
		return err
	}
	mgr := s.GetConnMgr()
	var mu sync.Mutex
	live, peak := 0, 0
	pinged := map[string]int{}
	s.SetOnConnStart(func(cn ziface.IConnection) {
		mu.Lock()
		if live++; live > peak {
			peak = live
		}
		mu.Unlock()
	})
	s.SetOnConnStop(func(cn ziface.IConnection) { mu.Lock(); live--; mu.Unlock() })
	nx.Route(s, false, idPing, func(q ziface.IRequest) {
		mu.Lock()
		pinged[nx.Port(q.GetConnection().RemoteAddrString())]++
		mu.Unlock()
	})
	var failed atomic.Int64
	s.Start()
	if err := nx.Up(c.Tr); err != nil {
		return err
	}
	ping := func(p *nx.Peer) error {
		mu.Lock()
		n := pinged[p.Local()]
		mu.Unlock()
		if err := p.Write(nx.TLV(idPing, nil), nil); err != nil {
			return err
		}
		if !hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return pinged[p.Local()] > n }) {
			return fmt.Errorf("its request is not handled within %v (limit %d, %d in the connection manager)", nx.Patience, c.Max, mgr.Len())
		}
		return nil
	}
	var in []*nx.Peer
	for ri, r := range c.Rounds {
		var hs []*nx.Half
		for i := 0; i < r.New && len(in)+i < c.Max; i++ {
			h, err := nx.NewHalf()
			if err != nil {
				return fmt.Errorf("HARNESS: %v", err)
			}
			hs = append(hs, h)
		}
		var leaving []*nx.Peer
		feed, err := nx.Starve()
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		err = func() error {
			defer feed()
			for _, h := range hs {
				if err := h.Connect(c.Tr); err != nil {
					return fmt.Errorf("round %d: connect: %v", ri, err)
				}
			}
			time.Sleep(time.Duration(r.Hold) * time.Millisecond)
			for i, p := range in {
				if err := ping(p); err != nil {
					return fmt.Errorf("round %d: while no connection can be accepted, connection %d: %v", ri, i, err)
				}
			}
			for i := 0; i < r.Drop && len(hs) > 0; i++ {
				hs[0].Drop(r.Reset)
				hs = hs[1:]
			}
			if r.Clear {
				leaving, in = in, nil
				mgr.ClearConn()
			} else {
				n := min(r.Leave, len(in))
				leaving, in = in[:n], in[n:]
			}
			for _, p := range leaving {
				p.Close()
			}
			return nil
		}()
		if err != nil {
			return err
		}
		if len(hs) > 0 && r.Hold > 0 {
			failed.Add(1)
		}
		got := make([]*nx.Peer, len(hs))
		errs := make([]error, len(hs))
		var wg sync.WaitGroup
		for i, h := range hs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p, err := h.Peer(c.Tr)
				if err == nil {
					got[i] = p
					err = ping(p)
				}
				errs[i] = err
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * nx.Patience):
			return fmt.Errorf("round %d: a peer that connected while no connection could be accepted is not answered within %v after", ri, 2*nx.Patience)
		}
		for i, err := range errs {
			if err != nil {
				return fmt.Errorf("round %d: peer %d of %d, which connected while no connection could be accepted: %v", ri, i, len(hs), err)
			}
			in = append(in, got[i])
		}
		mu.Lock()
		pk := peak
		mu.Unlock()
		if pk > c.Max {
			return fmt.Errorf("round %d: %d connections were live at once, the limit is %d", ri, pk, c.Max)
		}
		// those that left are gone, and nothing is left of those that gave up
		if !hx.Wait(nx.Patience, func() bool { return mgr.Len() == len(in) }) {
			return fmt.Errorf("round %d: %d connections are live, but the connection manager holds %d", ri, len(in), mgr.Len())
		}
	}
	for _, p := range in {
		if err := ping(p); err != nil {
			return fmt.Errorf("at the end: %v", err)
		}
		p.Close()
	}
	rec.Label(true, c.Tr)
	rec.Label(failed.Load() > 0, "peers waited for descriptors")
	rec.Nontrivial(failed.Load() > 0)
	return nil
}
