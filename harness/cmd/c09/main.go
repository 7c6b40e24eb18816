// C09: sent messages arrive whole, once and in order.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

type Msg struct {
	M string // SendMsg SendBuffMsg Send SendToQueue
	N int
	P int `json:",omitempty"` // pause before it, in 100 us
}

type Case struct {
	Conf    nx.Conf
	Client  bool // the sending side is a zinx client
	Conns   int
	Senders [][]Msg
	Stall   int // ms the peer waits before it reads
	Echo    int // requests the peer sends meanwhile
}

var methods = []string{"SendMsg", "SendBuffMsg", "Send", "SendToQueue"}

func gen(t *rapid.T) Case {
	c := Case{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "tcp", "tcp", "tls", "ws", "ws", "kcp"}).Draw(t, "tr"),
		Pool:      2,
		MsgChan:   uint32(rapid.SampledFrom([]int{1, 2, 8, 64, 1024}).Draw(t, "mc")),
		Procs:     rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
	}}
	if rapid.Bool().Draw(t, "jq") {
		c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	c.Client = c.Conf.Transport != "kcp" && rapid.IntRange(0, 2).Draw(t, "client") == 0
	c.Conns = 1
	if !c.Client && rapid.IntRange(0, 3).Draw(t, "two") == 0 {
		c.Conns = 2
	}
	size := rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 3000),
		rapid.SampledFrom([]int{16384 - 20 - 8, 16384 - 21 - 8, 16384 - 19 - 8, 16384, 8192, 5000, 30000, 70000}))
	// a script uses one or two methods most of the time
	c.Senders = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []Msg {
		ms := rapid.SliceOfN(rapid.SampledFrom(methods), 1, 2).Draw(t, "methods")
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg {
			return Msg{rapid.SampledFrom(ms).Draw(t, "m"), size.Draw(t, "n"), rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 10}).Draw(t, "p")}
		}), 1, 40).Draw(t, "msgs")
	}), 1, 5).Draw(t, "senders")
	c.Stall = rapid.SampledFrom([]int{0, 0, 0, 2, 15}).Draw(t, "stall")
	c.Echo = rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "echo")
	return c
}

// head: connection, sender, number, size, method
const head = 20

func body(conn, s, k int, m Msg, buf []byte) []byte {
	b := buf[:0]
	for _, v := range []int{conn, s, k, m.N, mi(m.M)} {
		b = binary.BigEndian.AppendUint32(b, uint32(v))
	}
	return append(b, hx.Fill(uint64(conn*100000+s*1000+k+1), m.N)...)
}

func mi(m string) int {
	for i, x := range methods {
		if x == m {
			return i
		}
	}
	return -1
}

type outcome struct{ err error }

func run(c Case, rec *hx.Rec) error {
	tr := c.Conf.Transport
	conns := make(chan ziface.IConnection, 10)
	var peers []*nx.Peer
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	if c.Client {
		l, err := nx.Listen(tr)
		if err != nil {
			return err
		}
		cl := nx.Client(tr)
		cl.SetOnConnStart(func(k ziface.IConnection) { conns <- k })
		cl.AddRouter(1, &nx.Router{})
		cl.Start()
		select {
		case p := <-l.C:
			peers = append(peers, p)
		case <-time.After(nx.Patience):
			return fmt.Errorf("the client did not connect within %v", nx.Patience)
		}
	} else {
		s.SetOnConnStart(func(k ziface.IConnection) { conns <- k })
		nx.Route(s, false, 1, func(ziface.IRequest) {})
		s.Start()
		if err := nx.Up(tr); err != nil {
			return err
		}
		for i := 0; i < c.Conns; i++ {
			p, err := nx.Dial(tr)
			if err != nil {
				return fmt.Errorf("dial: %v", err)
			}
			peers = append(peers, p)
			if tr == "kcp" { // the server knows a KCP peer when it has sent something
				p.Write(nx.TLV(1, nil), nil)
			}
		}
	}
	byPort := map[string]int{}
	for i, p := range peers {
		byPort[p.Local()] = i
	}
	got := make([]ziface.IConnection, len(peers))
	for range peers {
		select {
		case k := <-conns:
			if c.Client {
				got[0] = k
			} else {
				i, ok := byPort[nx.Port(k.RemoteAddrString())]
				if !ok {
					return fmt.Errorf("HARNESS: unknown peer %s", k.RemoteAddrString())
				}
				got[i] = k
			}
		case <-time.After(nx.Patience):
			return fmt.Errorf("no start hook within %v", nx.Patience)
		}
	}
	// outcome[conn][sender][k]
	res := make([][][]outcome, len(peers))
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad error
	fail := func(f string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
		mu.Unlock()
	}
	gate := make(chan struct{})
	for ci := range peers {
		res[ci] = make([][]outcome, len(c.Senders))
		for si, ms := range c.Senders {
			res[ci][si] = make([]outcome, len(ms))
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := got[ci]
				var buf []byte
				<-gate
				for i, m := range ms {
					if m.P > 0 {
						time.Sleep(time.Duration(m.P) * 100 * time.Microsecond)
					}
					buf = body(ci, si, i, m, buf)
					var err error
					pan := hx.Call(func() {
						switch m.M {
						case "SendMsg": // the caller's buffer is reused right after
							err = k.SendMsg(uint32(si), buf)
						case "SendBuffMsg":
							err = k.SendBuffMsg(uint32(si), buf)
						case "Send":
							err = k.Send(nx.TLV(uint32(si), buf))
						case "SendToQueue":
							err = k.SendToQueue(nx.TLV(uint32(si), buf))
						}
					})
					if pan != nil {
						fail("%s: %v", m.M, pan)
						return
					}
					res[ci][si][i] = outcome{err}
				}
			}()
		}
	}
	sent := make(chan struct{})
	go func() { wg.Wait(); close(sent) }()
	// readers
	rg := make([]*reader, len(peers))
	close(gate)
	if c.Stall > 0 {
		time.Sleep(time.Duration(c.Stall) * time.Millisecond)
	}
	for ci, p := range peers {
		rg[ci] = &reader{c: c, ci: ci, seen: map[[2]int]int{}, last: map[[2]int]int{}}
		go rg[ci].loop(p)
		for i := 0; i < c.Echo; i++ {
			p.Write(nx.TLV(1, []byte("echo")), nil)
		}
	}
	select {
	case <-sent:
	case <-time.After(2 * nx.Patience):
		return fmt.Errorf("a send call has not returned after %v although the peer reads", 2*nx.Patience)
	}
	if bad != nil {
		return bad
	}
	// everything that succeeded arrives
	var missing error
	hx.Wait(nx.Patience, func() bool {
		missing = nil
		for ci, r := range rg {
			if e := r.err(); e != nil {
				missing = e
				return true
			}
			for si := range c.Senders {
				for i := range c.Senders[si] {
					if res[ci][si][i].err == nil && r.count(si, i) == 0 {
						missing = fmt.Errorf("message %d of sender %d (%s, %d bytes) on connection %d was reported sent but did not arrive within %v", i, si, c.Senders[si][i].M, c.Senders[si][i].N, ci, nx.Patience)
						return false
					}
				}
			}
		}
		return true
	})
	if missing != nil {
		return fmt.Errorf("%s (client side: %v): %w", tr, c.Client, missing)
	}
	time.Sleep(3 * time.Millisecond)
	failures, total := 0, 0
	roomy, noRoom := 0, 0
	for ci, r := range rg {
		if e := r.err(); e != nil {
			return fmt.Errorf("%s (client side: %v): %w", tr, c.Client, e)
		}
		queued, refused := 0, 0
		var why error
		for si := range c.Senders {
			for i, m := range c.Senders[si] {
				total++
				direct := m.M == "SendMsg" || m.M == "Send"
				if !direct {
					queued++
				}
				if err := res[ci][si][i].err; err != nil {
					failures++
					if direct {
						return fmt.Errorf("%s (client side: %v): %s of %d bytes was refused on a live connection: %v", tr, c.Client, m.M, m.N, err)
					}
					refused++
					why = err
				}
			}
		}
		if queued > int(c.Conf.MsgChan) {
			continue
		}
		// the queue never was full: a refusal takes a sender that lost the
		// processor for the whole time limit at the wrong moment, a rare thing
		roomy += queued
		noRoom += refused
		if refused >= 8 && refused*4 > queued {
			return fmt.Errorf("%s (client side: %v): %d of %d buffered or queued sends were refused although the queue has room for all (%d): %v", tr, c.Client, refused, queued, c.Conf.MsgChan, why)
		}
	}
	mixed := map[string]bool{}
	for _, ms := range c.Senders {
		for _, m := range ms {
			mixed[m.M] = true
		}
	}
	for _, p := range peers {
		p.Reset()
	}
	rec.Label(true, tr)
	rec.Label(c.Client, "client side")
	rec.Label(failures > 0, "some sends refused")
	rec.Label(len(mixed) > 1, "several methods")
	rec.Label(roomy >= 8, "8 or more sends to a queue with room")
	rec.Label(noRoom > 0, "refused although there was room")
	rec.Nontrivial(len(c.Senders) > 1 && total-failures > 2)
	return nil
}

type reader struct {
	c    Case
	ci   int
	mu   sync.Mutex
	seen map[[2]int]int
	last map[[2]int]int // (sender, method) -> last number
	e    error
}

func (r *reader) err() error { r.mu.Lock(); defer r.mu.Unlock(); return r.e }
func (r *reader) count(s, k int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.seen[[2]int{s, k}]
}

func (r *reader) loop(p *nx.Peer) {
	var prev string
	for {
		id, b, err := nx.ReadTLV(p)
		r.mu.Lock()
		if err != nil {
			if !errors.Is(err, net.ErrClosed) {
				r.e = fmt.Errorf("the byte stream to the peer breaks off or is garbled after %q: %v", prev, err)
			}
			r.mu.Unlock()
			return
		}
		r.e = r.take(id, b)
		if len(b) >= head {
			prev = fmt.Sprintf("message %d of sender %d", binary.BigEndian.Uint32(b[8:]), binary.BigEndian.Uint32(b[4:]))
		}
		stop := r.e != nil
		r.mu.Unlock()
		if stop {
			return
		}
	}
}

func (r *reader) take(id uint32, b []byte) error {
	if len(b) < head {
		return fmt.Errorf("a message that nobody sent arrived (id %d, %d bytes)", id, len(b))
	}
	f := func(i int) int { return int(binary.BigEndian.Uint32(b[4*i:])) }
	ci, s, k := f(0), f(1), f(2)
	if s >= len(r.c.Senders) || k >= len(r.c.Senders[s]) || int(id) != s {
		return fmt.Errorf("a message that nobody sent arrived (id %d, %d bytes, starts % x)", id, len(b), b[:head])
	}
	if ci != r.ci {
		return fmt.Errorf("message %d of sender %d for connection %d arrived on connection %d", k, s, ci, r.ci)
	}
	m := r.c.Senders[s][k]
	if !bytes.Equal(b, body(ci, s, k, m, nil)) {
		return fmt.Errorf("message %d of sender %d (%s, %d bytes) arrived altered", k, s, m.M, m.N)
	}
	r.seen[[2]int{s, k}]++
	if r.seen[[2]int{s, k}] > 1 {
		return fmt.Errorf("message %d of sender %d (%s) arrived twice", k, s, m.M)
	}
	key := [2]int{s, mi(m.M)}
	if l, ok := r.last[key]; ok && l > k {
		return fmt.Errorf("message %d of sender %d (%s) arrived after message %d sent later with the same method", k, s, m.M, l)
	}
	r.last[key] = k
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C09",
		Rule:        "a live zinx server (TCP, TLS, WebSocket, KCP; 1-2 connections) or client (TCP, TLS, WebSocket) sends to raw peers: 1-5 concurrent senders with up to 40 messages each of 0-70000 bytes (sizes around the 16 KiB write buffer), each sender using one or two of SendMsg, SendBuffMsg, Send, SendToQueue, with generated queue length, pauses, a peer that starts reading late, and schedule perturbation; the caller's buffer is reused after SendMsg and SendBuffMsg return. Oracle: the peer's parsed stream: every message reported sent arrives once, whole and unaltered, in order per sender and method; refused ones at most once; nothing else arrives; direct sends are not refused, and sends to a queue with room for all of them are not refused in numbers. Non-trivial: two or more senders and more than two successful sends.",
		Assumptions: []string{"loopback delivers what is written", "a message not there 30 s after its send is lost"},
		Facets:      []hx.Facet{hx.F("live", 12000, 400000, gen, run, hx.OneShot(), hx.Timeout(150*time.Second))},
	})
}
