// C05: a worker bound to a connection serves it alone and is given back.
package main

import (
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

const (
	idPing  = 1
	idBlock = 2
)

// Op is one step. K: connect, ping, block, unblock, close (send N, then orderly
// close), stop (server side), swap (close or stop one and dial another at once),
// burst (N+1 peers connect at once; the server's start hooks are held back until
// all have arrived), bounce (the same, after up to I+1 connections were stopped at once).
type Op struct {
	K string
	I int
	N int
}

type Case struct {
	Conf nx.Conf
	Ops  []Op
}

func gen(t *rapid.T) Case {
	c := Case{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "tcp", "ws", "kcp"}).Draw(t, "tr"),
		Mode:      rapid.SampledFrom([]string{"Bind", "DynamicBind", "DynamicBind"}).Draw(t, "mode"),
		Pool:      uint32(rapid.IntRange(1, 6).Draw(t, "pool")),
		MaxConn:   rapid.IntRange(1, 8).Draw(t, "max"),
		TaskLen:   uint32(rapid.SampledFrom([]int{1, 2, 64}).Draw(t, "tl")),
		Slices:    rapid.Bool().Draw(t, "sl"),
		ReqPool:   rapid.Bool().Draw(t, "rp"),
		Procs:     rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
		Beat:      rapid.IntRange(0, 3).Draw(t, "beat") == 0,
	}}
	if rapid.IntRange(0, 3).Draw(t, "jq") > 0 {
		c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	kinds := []string{"connect", "connect", "connect", "connect", "ping", "block", "block", "unblock", "close", "stop", "swap", "swap", "burst", "burst", "bounce"}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return Op{rapid.SampledFrom(kinds).Draw(t, "k"), rapid.IntRange(0, 7).Draw(t, "i"), rapid.IntRange(0, 6).Draw(t, "n")}
	}), 3, 40).Draw(t, "ops")
	for i := rapid.IntRange(0, 4).Draw(t, "pre"); i > 0; i-- {
		c.Ops = append([]Op{{K: "connect"}}, c.Ops...)
	}
	return c
}

type conn struct {
	n       uint32
	p       *nx.Peer
	sent    int // pings
	handled int // pings
	wid     uint32
	c       ziface.IConnection
	gate    chan struct{} // non-nil: a handler of this connection is blocked on it
	entered bool
	must    int // pings that have to be handled eventually
	lossy   bool
}

func run(c Case, rec *hx.Rec) error {
	sc := c.Conf
	if sc.Transport == "kcp" {
		// a packet that arrives late from a peer the server has dropped makes the KCP
		// listener open a new session for it; leave room for those
		sc.MaxConn += 60
	}
	s, err := nx.Server(sc)
	if err != nil {
		return err
	}
	tr := c.Conf.Transport
	var mu sync.Mutex
	all := map[uint32]*conn{}
	get := func(q ziface.IRequest) *conn {
		return all[binary.BigEndian.Uint32(q.GetData())]
	}
	nx.Route(s, c.Conf.Slices, idPing, func(q ziface.IRequest) {
		w := q.GetConnection().GetWorkerID()
		mu.Lock()
		defer mu.Unlock()
		k := get(q)
		k.handled++
		k.wid, k.c = w, q.GetConnection()
	})
	nx.Route(s, c.Conf.Slices, idBlock, func(q ziface.IRequest) {
		mu.Lock()
		k := get(q)
		k.entered = true
		g := k.gate
		mu.Unlock()
		<-g
	})
	// the start hook runs just before the connection takes its worker
	want, arrived := 0, 0
	var held chan struct{}
	s.SetOnConnStart(func(ziface.IConnection) {
		mu.Lock()
		if want == 0 {
			mu.Unlock()
			return
		}
		arrived++
		h := held
		if arrived == want {
			close(h)
			want = 0
		}
		mu.Unlock()
		select {
		case <-h:
		case <-time.After(300 * time.Millisecond):
		}
	})
	if pan := hx.Call(s.Start); pan != nil {
		return fmt.Errorf("start: %v", pan)
	}
	if err := nx.Up(tr); err != nil {
		return err
	}
	var live []*conn
	num := uint32(0)
	mk := func(id uint32, k *conn) []byte {
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, k.n)
		return nx.TLV(id, b)
	}
	ping := func(k *conn, n int) error {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, mk(idPing, k)...)
		}
		mu.Lock()
		k.sent += n
		k.must = k.sent
		mu.Unlock()
		if n == 0 {
			return nil
		}
		return k.p.Write(b, nil)
	}
	wait := func(d time.Duration, f func() bool) bool {
		return hx.Wait(d, func() bool { mu.Lock(); defer mu.Unlock(); return f() })
	}
	nBlocked := func() int {
		b := 0
		for _, k := range live {
			if k.gate != nil {
				b++
			}
		}
		return b
	}
	// every live connection without a blocked handler answers while the others stay blocked
	probe := func(why string) error {
		for _, k := range live {
			if k.gate == nil {
				if err := ping(k, 1); err != nil {
					return fmt.Errorf("connection %d was ended by the server (%v)", k.n, err)
				}
			}
		}
		for _, k := range live {
			if k.gate == nil && !wait(nx.Patience, func() bool { return k.handled >= k.sent }) {
				return fmt.Errorf("after %s: a request of connection %d is not handled while the handlers of %d other connections are blocked (%d live, limit %d, mode %s, pool %d)", why, k.n, nBlocked(), len(live), c.Conf.MaxConn, c.Conf.Mode, c.Conf.Pool)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		seen := map[uint32]uint32{}
		for _, k := range live {
			if o, dup := seen[k.wid]; dup {
				return fmt.Errorf("after %s: connections %d and %d are both live and both bound to worker %d (%d live, limit %d, mode %s, pool %d)", why, o, k.n, k.wid, len(live), c.Conf.MaxConn, c.Conf.Mode, c.Conf.Pool)
			}
			seen[k.wid] = k.n
		}
		return nil
	}
	connect := func() error {
		end := time.Now().Add(nx.Patience)
		for {
			num++
			k := &conn{n: num}
			mu.Lock()
			all[num] = k
			mu.Unlock()
			p, err := nx.DialFor(tr, time.Until(end))
			if err == nil {
				k.p = p
				if err = ping(k, 1); err == nil {
					if !wait(time.Until(end), func() bool { return k.handled >= 1 }) {
						err = fmt.Errorf("its request is not handled")
					}
					if err == nil {
						live = append(live, k)
						return nil
					}
				}
				p.Close()
			}
			mu.Lock()
			k.must, k.lossy = 0, true
			mu.Unlock()
			if time.Now().After(end) {
				return fmt.Errorf("a new connection is not served although only %d of %d are live: %v", len(live), c.Conf.MaxConn, err)
			}
			time.Sleep(time.Millisecond)
		}
	}
	bursts := 0
	burst := func(n int) error {
		if free := c.Conf.MaxConn - len(live); n > free {
			n = free
		}
		if n < 1 {
			return nil
		}
		ks := make([]*conn, n)
		ok := make([]bool, n)
		mu.Lock()
		want, arrived, held = n, 0, make(chan struct{})
		for i := range ks {
			num++
			ks[i] = &conn{n: num}
			all[num] = ks[i]
		}
		mu.Unlock()
		var wg sync.WaitGroup
		for i, k := range ks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p, err := nx.DialFor(tr, 5*time.Second)
				if err != nil {
					return
				}
				k.p = p
				ok[i] = ping(k, 1) == nil && wait(5*time.Second, func() bool { return k.handled >= 1 })
				if !ok[i] {
					p.Close()
				}
			}()
		}
		wg.Wait()
		mu.Lock()
		want = 0
		mu.Unlock()
		good := 0
		for i, k := range ks {
			if ok[i] {
				live = append(live, k)
				good++
				continue
			}
			// turned away (an ended connection still counted) or slow: once more, alone
			mu.Lock()
			k.must, k.lossy = 0, true
			mu.Unlock()
			if err := connect(); err != nil {
				return err
			}
		}
		if good > 1 {
			bursts++
		}
		return nil
	}
	unblock := func(k *conn) {
		mu.Lock()
		g := k.gate
		k.gate, k.entered = nil, false
		mu.Unlock()
		if g != nil {
			close(g)
		}
	}
	drop := func(i int, hard bool, n int) error {
		k := live[i]
		live = append(live[:i:i], live[i+1:]...)
		if tr == "kcp" {
			hard = true
		}
		if hard {
			mu.Lock()
			k.lossy = true
			cc := k.c
			mu.Unlock()
			cc.Stop()
			unblock(k)
			if tr == "kcp" {
				k.p.Close()
			}
			return nil
		}
		unblock(k)
		err := ping(k, n)
		k.p.Close()
		if err != nil {
			return fmt.Errorf("connection %d was ended by the server (%v)", k.n, err)
		}
		return nil
	}
	swapped, blockedPeak, ended := 0, 0, 0
	for step, o := range c.Ops {
		why := fmt.Sprintf("step %d (%s)", step, o.K)
		var err error
		if len(live) == 0 && o.K != "connect" && o.K != "burst" {
			continue
		}
		i := 0
		if len(live) > 0 {
			i = o.I % len(live)
		}
		switch o.K {
		case "connect":
			if len(live) >= c.Conf.MaxConn {
				continue
			}
			if err = connect(); err == nil {
				err = probe(why)
			}
		case "burst":
			if err = burst(o.N + 1); err == nil {
				err = probe(why)
			}
		case "bounce":
			var wg sync.WaitGroup
			for j := 0; j <= o.I && len(live) > 0; j++ {
				ended++
				k := live[0]
				live = live[1:]
				mu.Lock()
				k.lossy = true
				mu.Unlock()
				wg.Add(1)
				go func() {
					defer wg.Done()
					k.c.Stop()
					unblock(k)
					if tr == "kcp" {
						k.p.Close()
					}
				}()
			}
			if o.N%2 == 0 {
				wg.Wait()
			}
			if err = burst(o.N + 1); err == nil {
				err = probe(why)
			}
			wg.Wait()
		case "ping":
			k := live[i]
			if k.gate != nil {
				if k.sent-k.handled < 12 {
					err = ping(k, o.N)
				}
			} else {
				err = ping(k, o.N)
			}
		case "block":
			k := live[i]
			if k.gate != nil {
				continue
			}
			mu.Lock()
			k.gate = make(chan struct{})
			mu.Unlock()
			if err = k.p.Write(mk(idBlock, k), nil); err != nil {
				return fmt.Errorf("connection %d was ended by the server (%v)", k.n, err)
			}
			if !wait(nx.Patience, func() bool { return k.entered }) {
				return fmt.Errorf("%s: a request of connection %d is not handled (%d other handlers blocked)", why, k.n, nBlocked()-1)
			}
			if b := nBlocked(); b > blockedPeak && len(live) > b {
				blockedPeak = b
			}
			err = probe(why)
		case "unblock":
			unblock(live[i])
			err = probe(why)
		case "close":
			ended++
			err = drop(i, false, o.N)
		case "stop":
			ended++
			if live[i].gate != nil { // fill the queue behind the blocked handler first
				_ = ping(live[i], o.N)
				time.Sleep(time.Millisecond)
			}
			err = drop(i, true, 0)
		case "swap":
			ended++
			if err = drop(i, o.N%2 == 0, o.N); err == nil {
				if err = connect(); err == nil {
					swapped++
					err = probe(why)
				}
			}
		}
		if err != nil {
			return fmt.Errorf("%s: %w", why, err)
		}
	}
	for _, k := range live {
		unblock(k)
	}
	if err := probe("the end"); err != nil {
		return err
	}
	var lost error
	if !wait(nx.Patience, func() bool {
		lost = nil
		for _, k := range all {
			if !k.lossy && k.handled < k.must {
				lost = fmt.Errorf("connection %d: %d of %d accepted requests handled", k.n, k.handled, k.must)
			}
		}
		return lost == nil
	}) {
		return lost
	}
	mu.Lock()
	for _, k := range all {
		if k.handled > k.sent {
			mu.Unlock()
			return fmt.Errorf("connection %d: %d requests handled, %d sent", k.n, k.handled, k.sent)
		}
	}
	mu.Unlock()
	for _, k := range live {
		k.p.Reset()
	}
	rec.Label(true, tr+" "+c.Conf.Mode)
	rec.Label(bursts > 0, "taken at once")
	rec.Label(swapped > 0, "swap at once")
	rec.Label(blockedPeak > 0, "blocked beside live")
	rec.Label(int(c.Conf.Pool) > c.Conf.MaxConn, "pool > limit")
	rec.Nontrivial(blockedPeak > 0 && ended > 0)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C05",
		Rule:        "a live server per case (TCP, WebSocket or KCP; Bind or DynamicBind; pool 1-6, connection limit 1-8, queue length 1/2/64, schedule perturbation) under a history of up to 40 connects, pings, blocked handlers, releases, peer closes with requests in flight, server-side stops, immediate reconnects at the limit, and bursts of connections whose start hooks are released together so that they take their workers at the same time. Oracle: after every step each live connection without a blocked handler answers while the blocked ones stay blocked, live connections report distinct workers, requests accepted before an orderly close are handled, new connections are served. Non-trivial: a handler was blocked beside another live connection and a connection ended.",
		Assumptions: []string{"a request not handled within 30 s is delayed or lost"},
		Facets:      []hx.Facet{hx.F("live", 6000, 250000, gen, run, hx.OneShot())},
	})
}
