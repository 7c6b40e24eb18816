// C04: each request is handled exactly once, per connection in order.
package main

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// registered ids; anything else is unknown to the server
var ids = []uint32{0, 1, 2, 100, 65536, 0xffffffff}
var unknown = []uint32{3, 99, 101, 0xfffffffe}

type Msg struct {
	ID      uint32
	N       int
	Unknown bool `json:",omitempty"`
}

type ConnC struct {
	Msgs   []Msg
	Chunks []int
	Burst  int // messages written per write
}

type Case struct {
	Conf  nx.Conf
	Conns []ConnC
	Slow  uint64 // handler jitter seed, 0: none
}

func genConf(t *rapid.T, transports []string) nx.Conf {
	c := nx.Conf{
		Transport: rapid.SampledFrom(transports).Draw(t, "transport"),
		Mode:      rapid.SampledFrom([]string{"", "Hash", "Bind", "DynamicBind"}).Draw(t, "mode"),
		Pool:      uint32(rapid.IntRange(0, 4).Draw(t, "pool")),
		MaxConn:   rapid.IntRange(8, 20).Draw(t, "maxconn"),
		TaskLen:   uint32(rapid.SampledFrom([]int{1, 2, 16, 1024}).Draw(t, "tasklen")),
		ReadBuf:   uint32(rapid.SampledFrom([]int{1, 7, 16, 64, 1024, 4096}).Draw(t, "readbuf")),
		Slices:    rapid.Bool().Draw(t, "slices"),
		ReqPool:   rapid.Bool().Draw(t, "reqpool"),
		Procs:     rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs"),
	}
	if rapid.Bool().Draw(t, "jitterq") {
		c.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "jitter")
	}
	if c.Mode == "DynamicBind" && c.Pool == 0 {
		c.Pool = 1
	}
	return c
}

func genChunks(t *rapid.T) []int {
	switch rapid.IntRange(0, 3).Draw(t, "cm") {
	case 0, 1:
		return nil
	case 2:
		return []int{rapid.SampledFrom([]int{1, 3, 8, 9, 100}).Draw(t, "c1")}
	}
	return rapid.SliceOfN(rapid.IntRange(1, 60), 1, 6).Draw(t, "cs")
}

func gen(t *rapid.T) Case {
	c := Case{Conf: genConf(t, []string{"tcp", "tcp", "tcp", "ws", "ws", "kcp", "tls"})}
	msg := rapid.Custom(func(t *rapid.T) Msg {
		var m Msg
		if rapid.IntRange(0, 9).Draw(t, "u") == 0 {
			m.Unknown = true
			m.ID = rapid.SampledFrom(unknown).Draw(t, "uid")
		} else {
			m.ID = rapid.SampledFrom(ids).Draw(t, "id")
		}
		m.N = rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 20), rapid.IntRange(0, 1500), rapid.SampledFrom([]int{0, 1016, 1024, 4088, 4096, 9000})).Draw(t, "n")
		return m
	})
	nc := rapid.IntRange(1, 6).Draw(t, "conns")
	for i := 0; i < nc; i++ {
		c.Conns = append(c.Conns, ConnC{
			Msgs:   rapid.SliceOfN(msg, 0, 40).Draw(t, "msgs"),
			Chunks: genChunks(t),
			Burst:  rapid.SampledFrom([]int{1, 2, 5, 100}).Draw(t, "burst"),
		})
	}
	if rapid.Bool().Draw(t, "slowq") {
		c.Slow = rapid.Uint64Range(1, 1000).Draw(t, "slow")
	}
	return c
}

func body(ci, seq, n int) []byte { return hx.Fill(uint64(ci*1000+seq+1), n) }

type seenReq struct {
	id   uint32
	data []byte // the slice the handler saw
	copy []byte // what it contained then
}

func run(c Case, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	ordered := c.Conf.Pool > 0 || c.Conf.Mode == "Bind"
	type connState struct {
		busy int32
		seen []seenReq
		id   uint64
		conn ziface.IConnection
	}
	var mu sync.Mutex
	byAddr := map[string]*connState{}
	var bad error
	fail := func(f string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
		mu.Unlock()
	}
	total := int64(0)
	handler := func(regID uint32) func(ziface.IRequest) {
		return func(q ziface.IRequest) {
			conn := q.GetConnection()
			if conn == nil {
				fail("request without a connection")
				return
			}
			addr := nx.Port(conn.RemoteAddrString())
			mu.Lock()
			st := byAddr[addr]
			if st == nil {
				st = &connState{id: conn.GetConnID(), conn: conn}
				byAddr[addr] = st
			}
			if st.id != conn.GetConnID() || st.conn != conn {
				if bad == nil {
					bad = fmt.Errorf("requests of %s come with two connections (%d, %d)", addr, st.id, conn.GetConnID())
				}
			}
			mu.Unlock()
			if n := atomic.AddInt32(&st.busy, 1); n > 1 && ordered {
				fail("two requests of one connection are handled at the same time")
			}
			if q.GetMsgID() != regID {
				fail("the handler of id %d got a request with id %d", regID, q.GetMsgID())
			}
			d := q.GetData()
			cp := append([]byte{}, d...)
			if c.Slow != 0 {
				nx.Jitter(c.Slow + uint64(atomic.LoadInt64(&total)))
			}
			if !bytes.Equal(cp, q.GetData()) {
				fail("payload changed while it was being handled")
			}
			mu.Lock()
			st.seen = append(st.seen, seenReq{q.GetMsgID(), d, cp})
			mu.Unlock()
			atomic.AddInt32(&st.busy, -1)
			atomic.AddInt64(&total, 1)
		}
	}
	for _, id := range ids {
		nx.Route(s, c.Conf.Slices, id, handler(id))
	}
	s.Start()
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	peers := make([]*nx.Peer, len(c.Conns))
	want := int64(0)
	for i := range c.Conns {
		p, err := nx.Dial(c.Conf.Transport)
		if err != nil {
			return fmt.Errorf("dial: %v", err)
		}
		peers[i] = p
		for _, m := range c.Conns[i].Msgs {
			if !m.Unknown {
				want++
			}
		}
	}
	var wg sync.WaitGroup
	for i := range c.Conns {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cc := c.Conns[i]
			var b []byte
			for k, m := range cc.Msgs {
				b = append(b, nx.TLV(m.ID, body(i, k, m.N))...)
				if (k+1)%cc.Burst == 0 || k == len(cc.Msgs)-1 {
					if err := peers[i].Write(b, cc.Chunks); err != nil {
						fail("the server ended a healthy connection: write: %v", err)
						return
					}
					b = b[:0:0]
				}
			}
		}(i)
	}
	wg.Wait()
	failed := func() bool { mu.Lock(); defer mu.Unlock(); return bad != nil }
	ok := hx.Wait(nx.Patience, func() bool { return atomic.LoadInt64(&total) >= want || failed() })
	time.Sleep(8 * time.Millisecond) // a duplicate would follow
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	multi := 0
	for i, cc := range c.Conns {
		st := byAddr[peers[i].Local()]
		var seen []seenReq
		if st != nil {
			seen = st.seen
		}
		var exp []seenReq
		for k, m := range cc.Msgs {
			if !m.Unknown {
				exp = append(exp, seenReq{id: m.ID, copy: body(i, k, m.N)})
			}
		}
		if len(exp) > 1 {
			multi++
		}
		for k, r := range seen {
			if !bytes.Equal(r.data, r.copy) {
				return fmt.Errorf("payload of request #%d of connection %d changed after it was handled", k, i)
			}
		}
		if ordered {
			for k := 0; k < len(seen) && k < len(exp); k++ {
				if seen[k].id != exp[k].id || !bytes.Equal(seen[k].copy, exp[k].copy) {
					return fmt.Errorf("connection %d: handled request #%d is id %d (%d bytes), sent was id %d (%d bytes)", i, k, seen[k].id, len(seen[k].copy), exp[k].id, len(exp[k].copy))
				}
			}
		} else {
			left := map[string]int{}
			for _, e := range exp {
				left[fmt.Sprintf("%d/%s", e.id, e.copy)]++
			}
			for _, r := range seen {
				k := fmt.Sprintf("%d/%s", r.id, r.copy)
				if left[k] == 0 {
					return fmt.Errorf("connection %d: a request was handled that was not sent, or twice (id %d, %d bytes)", i, r.id, len(r.copy))
				}
				left[k]--
			}
		}
		if len(seen) != len(exp) {
			return fmt.Errorf("connection %d: %d requests handled, %d sent (all sent handled within %v: %v)", i, len(seen), len(exp), nx.Patience, ok)
		}
	}
	if n := len(byAddr); n > len(c.Conns) {
		return fmt.Errorf("requests from %d peers, %d connected", n, len(c.Conns))
	}
	for _, p := range peers {
		p.Reset()
	}
	rec.Label(true, c.Conf.Transport)
	rec.Label(true, fmt.Sprintf("mode=%s pool>0:%v", c.Conf.Mode, c.Conf.Pool > 0))
	rec.Nontrivial(multi >= 2)
	return nil
}

// Without a decoder every read is a request; the payloads concatenate to the stream.
type RawCase struct {
	Conf   nx.Conf
	Pieces [][]int // per connection: sizes of the writes
}

func genRaw(t *rapid.T) RawCase {
	c := RawCase{Conf: genConf(t, []string{"tcp", "tcp", "ws", "kcp"})}
	if c.Conf.Pool == 0 {
		c.Conf.Pool = 1
	}
	if c.Conf.ReadBuf < 16 {
		c.Conf.ReadBuf = 16
	}
	c.Pieces = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(1, 300), 1, 25), 1, 3).Draw(t, "pieces")
	return c
}

func runRaw(c RawCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	s.SetDecoder(nil)
	var mu sync.Mutex
	got := map[string][][]byte{}
	n := 0
	nx.Route(s, c.Conf.Slices, 0, func(q ziface.IRequest) {
		nx.Jitter(uint64(n))
		mu.Lock()
		a := nx.Port(q.GetConnection().RemoteAddrString())
		got[a] = append(got[a], append([]byte{}, q.GetData()...))
		n += len(q.GetData())
		mu.Unlock()
	})
	s.Start()
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	want := map[string][]byte{}
	total := 0
	var wg sync.WaitGroup
	var peers []*nx.Peer
	for i, ps := range c.Pieces {
		p, err := nx.Dial(c.Conf.Transport)
		if err != nil {
			return fmt.Errorf("dial: %v", err)
		}
		peers = append(peers, p)
		sum := 0
		for _, k := range ps {
			sum += k
		}
		st := hx.Fill(uint64(i+1), sum)
		want[p.Local()] = st
		total += sum
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.Write(st, ps)
		}()
	}
	wg.Wait()
	hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return n >= total })
	time.Sleep(3 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	for a, w := range want {
		g := bytes.Join(got[a], nil)
		if !bytes.Equal(g, w) {
			k := 0
			for k < len(g) && k < len(w) && g[k] == w[k] {
				k++
			}
			return fmt.Errorf("%s without a decoder: %d bytes handled, %d sent, first difference at byte %d", c.Conf.Transport, len(g), len(w), k)
		}
	}
	for _, p := range peers {
		p.Reset()
	}
	rec.Label(true, c.Conf.Transport)
	rec.Nontrivial(total > 100)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C04",
		Rule:        "a live server per case (fresh process) with generated transport (TCP, TLS, WebSocket, KCP), worker mode, pool size, queue length, read-buffer size, router style, request pooling and schedule perturbation; 1-6 raw peers send 0-40 requests each (10% unknown ids) in generated bursts and chunks. Oracle: per-connection sequence model (order and one-at-a-time when a worker pool is used, multiset otherwise). Non-trivial: at least two connections with two or more known requests.",
		Assumptions: []string{"loopback sockets neither lose nor reorder (KCP repairs both)", "a request not handled within 30 s is lost"},
		Facets: []hx.Facet{
			hx.F("live", 1600, 60000, gen, run, hx.OneShot()),
			hx.F("raw", 400, 15000, genRaw, runRaw, hx.OneShot()),
		},
	})
}
