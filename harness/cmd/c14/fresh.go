package main

// A connection that has just started is alive for its checker, however soon the checker looks.

import (
	"fmt"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

type FCase struct {
	Tr     string
	Client bool
	Max    int // allowed idle time, s
	HookMS int // time the start hook takes
	DelayU int // when the checker first looks, µs after its start (0: at once)
	N      int // connections
	Jitter uint64
}

func genF(t *rapid.T) FCase {
	c := FCase{Client: rapid.Bool().Draw(t, "client"), Max: rapid.IntRange(5, 60).Draw(t, "max"), HookMS: rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "hook"),
		DelayU: rapid.SampledFrom([]int{0, 0, 1, 50, 500}).Draw(t, "delay"), N: rapid.IntRange(1, 6).Draw(t, "n"), Jitter: rapid.Uint64Range(0, 1000).Draw(t, "j")}
	trs := []string{"tcp", "ws", "kcp"}
	if c.Client {
		trs = []string{"tcp", "ws", "tls"}
	}
	c.Tr = rapid.SampledFrom(trs).Draw(t, "tr")
	return c
}

// probe is a checker of the user's own, bound in the start hook; it looks as soon as it is started.
type probe struct {
	ziface.IHeartbeatChecker
	c    ziface.IConnection
	wait time.Duration
	seen chan bool
}

func (p *probe) Start() {
	if p.wait == 0 {
		p.seen <- p.c.IsAlive()
		return
	}
	go func() {
		time.Sleep(p.wait)
		p.seen <- p.c.IsAlive()
	}()
}
func (p *probe) Stop() {}

func runF(c FCase, rec *hx.Rec) error {
	s, err := nx.Server(nx.Conf{Transport: c.Tr, Pool: 1, MaxConn: 100, Jitter: c.Jitter})
	if err != nil {
		return err
	}
	zconf.GlobalObject.HeartbeatMax = c.Max
	seen := make(chan bool, 100)
	hook := func(cn ziface.IConnection) {
		if c.HookMS > 0 {
			time.Sleep(time.Duration(c.HookMS) * time.Millisecond)
		}
		cn.SetHeartBeat(&probe{c: cn, wait: time.Duration(c.DelayU) * time.Microsecond, seen: seen})
	}
	var peers []*nx.Peer
	if c.Client {
		ln, err := nx.Listen(c.Tr)
		if err != nil {
			return err
		}
		for i := 0; i < c.N; i++ {
			cl := nx.Client(c.Tr)
			cl.SetOnConnStart(hook)
			cl.Start()
			select {
			case p := <-ln.C:
				peers = append(peers, p)
			case <-time.After(nx.Patience):
				return fmt.Errorf("HARNESS: the client does not connect")
			}
		}
	} else {
		s.SetOnConnStart(hook)
		if pan := hx.Call(s.Start); pan != nil {
			return fmt.Errorf("start: %v", pan)
		}
		if err := nx.Up(c.Tr); err != nil {
			return err
		}
		for i := 0; i < c.N; i++ {
			p, err := nx.Dial(c.Tr)
			if err != nil {
				return fmt.Errorf("HARNESS: dial: %v", err)
			}
			if c.Tr == "kcp" {
				_ = p.Write(nx.TLV(77, nil), nil)
			}
			peers = append(peers, p)
		}
	}
	begin := time.Now()
	for i := 0; i < c.N; i++ {
		select {
		case ok := <-seen:
			if !ok && time.Since(begin) < time.Duration(c.Max)*time.Second/2 {
				return fmt.Errorf("a %s connection (client side: %v) that has just started is not alive for its heartbeat checker (allowed idle time %d s)", c.Tr, c.Client, c.Max)
			}
		case <-time.After(nx.Patience):
			return fmt.Errorf("the heartbeat checker bound to a %s connection (client side: %v) was not started", c.Tr, c.Client)
		}
	}
	for _, p := range peers {
		p.Close()
	}
	rec.Label(true, fmt.Sprintf("%s client=%v", c.Tr, c.Client))
	rec.Nontrivial(true)
	return nil
}
