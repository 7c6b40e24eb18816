// C13: requests never see each other's data.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---- histories on request objects

// Op. K: new, set, resp, edit (replace id and data), inplace (overwrite the data
// bytes), copy, dirty (abort / goto / half-run chain), call (run the bound
// handlers), put (recycle).
type Op struct {
	K string
	H int
	V int
}

type HCase struct {
	Pool, Slices bool
	Ops          []Op
}

func genH(t *rapid.T) HCase {
	kinds := []string{"new", "new", "new", "set", "set", "resp", "edit", "inplace", "copy", "copy", "dirty", "call", "put", "put"}
	return HCase{rapid.IntRange(0, 4).Draw(t, "pool") > 0, rapid.Bool().Draw(t, "slices"),
		rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
			return Op{rapid.SampledFrom(kinds).Draw(t, "k"), rapid.IntRange(0, 9).Draw(t, "h"), rapid.IntRange(0, 9).Draw(t, "v")}
		}), 2, 80).Draw(t, "ops")}
}

type hnd struct {
	n      int
	q      ziface.IRequest
	conn   ziface.IConnection
	id     uint32
	data   []byte
	keys   map[string]any
	resp   any
	copied bool
	ran    bool // its handlers have run, or its state was disturbed
}

func (h *hnd) check() error {
	if h.q.GetMsgID() != h.id || !bytes.Equal(h.q.GetData(), h.data) {
		return fmt.Errorf("id %d data %x, expected id %d data %x", h.q.GetMsgID(), h.q.GetData(), h.id, h.data)
	}
	if m := h.q.GetMessage(); m.GetMsgID() != h.id || !bytes.Equal(m.GetData(), h.data) || m.GetDataLen() != uint32(len(h.data)) {
		return fmt.Errorf("message id %d len %d data %x, expected id %d data %x", m.GetMsgID(), m.GetDataLen(), m.GetData(), h.id, h.data)
	}
	if h.q.GetResponse() != h.resp {
		return fmt.Errorf("response %v, expected %v", h.q.GetResponse(), h.resp)
	}
	if !h.copied && h.q.GetConnection() != h.conn {
		return fmt.Errorf("connection %v, expected %v", h.q.GetConnection(), h.conn)
	}
	for i := 0; i < 5; i++ {
		k := fmt.Sprint("k", i)
		v, ok := h.q.Get(k)
		w, wok := h.keys[k]
		if ok != wok || v != w {
			return fmt.Errorf("key %s is %v (%v), expected %v (%v)", k, v, ok, w, wok)
		}
	}
	return nil
}

func runH(c HCase, rec *hx.Rec) error {
	nx.Quiet(0)
	zconf.GlobalObject.RequestPoolMode, zconf.GlobalObject.RouterSlicesMode = c.Pool, c.Slices
	defer func() { zconf.GlobalObject.RequestPoolMode, zconf.GlobalObject.RouterSlicesMode = false, false }()
	var live []*hnd
	n, reused, copies := 0, 0, 0
	puts := 0
	for step, o := range c.Ops {
		if len(live) == 0 && o.K != "new" {
			continue
		}
		var h *hnd
		i := 0
		if len(live) > 0 {
			i = o.H % len(live)
			h = live[i]
		}
		switch o.K {
		case "new":
			n++
			d := hx.Fill(uint64(n), o.V)
			k := &hnd{n: n, conn: &nx.FakeConn{ID: uint64(n)}, id: uint32(n * 3), data: append([]byte{}, d...), keys: map[string]any{}}
			k.q = znet.GetRequest(k.conn, zpack.NewMessageByMsgId(k.id, uint32(len(d)), d))
			live = append(live, k)
			if puts > 0 && c.Pool {
				reused++
			}
		case "set":
			k, v := fmt.Sprint("k", o.V%5), n*1000+step
			h.q.Set(k, v)
			h.keys[k] = v
		case "resp":
			h.resp = fmt.Sprint("r", step)
			h.q.SetResponse(h.resp)
		case "edit":
			h.id, h.data = uint32(1000+step), hx.Fill(uint64(step), o.V)
			m := h.q.GetMessage()
			m.SetMsgID(h.id)
			m.SetData(append([]byte{}, h.data...))
			m.SetDataLen(uint32(len(h.data)))
		case "inplace":
			for k := range h.q.GetData() {
				h.q.GetData()[k] ^= 0x5a
				h.data[k] ^= 0x5a
			}
		case "copy":
			k := &hnd{n: h.n, q: h.q.Copy(), id: h.id, data: append([]byte{}, h.data...), keys: map[string]any{}, resp: h.resp, copied: true, ran: true}
			for a, b := range h.keys {
				k.keys[a] = b
			}
			live = append(live, k)
			copies++
		case "dirty":
			if h.copied {
				continue
			}
			h.ran = true
			switch o.V % 4 {
			case 0:
				h.q.Abort()
			case 1:
				h.q.Goto(znet.POST_HANDLE)
			case 2:
				h.q.BindRouterSlices([]ziface.RouterHandler{func(q ziface.IRequest) { q.Abort() }, func(ziface.IRequest) {}})
				h.q.RouterSlicesNext()
			case 3:
				h.q.BindRouter(&nx.Router{H: func(q ziface.IRequest) { q.Abort() }})
				h.q.Call()
			}
		case "call":
			if h.ran {
				continue
			}
			h.ran = true
			var tr []int
			f := func(k int) func(ziface.IRequest) { return func(q ziface.IRequest) { tr = append(tr, k) } }
			if c.Slices {
				h.q.BindRouterSlices([]ziface.RouterHandler{f(1), f(2), f(3)})
				h.q.RouterSlicesNext()
				if fmt.Sprint(tr) != "[1 2 3]" {
					return fmt.Errorf("step %d: a fresh request ran handlers %v", step, tr)
				}
				continue
			}
			h.q.Call() // no router bound: must not run anybody else's
			if len(tr) != 0 {
				return fmt.Errorf("step %d: a request without a router ran %v", step, tr)
			}
			h.q.BindRouter(&nx.Router{Pre: f(1), H: f(2), Post: f(3)})
			h.q.Call()
			if fmt.Sprint(tr) != "[1 2 3]" {
				return fmt.Errorf("step %d: a fresh request ran phases %v", step, tr)
			}
		case "put":
			if h.copied {
				live = append(live[:i:i], live[i+1:]...)
				continue
			}
			live = append(live[:i:i], live[i+1:]...)
			znet.PutRequest(h.q)
			puts++
		}
		for _, k := range live {
			if err := k.check(); err != nil {
				what := fmt.Sprintf("request %d", k.n)
				if k.copied {
					what = fmt.Sprintf("the copy of request %d", k.n)
				}
				return fmt.Errorf("step %d (%s): %s: %w", step, o.K, what, err)
			}
		}
	}
	rec.Label(c.Pool, "pool")
	rec.Label(copies > 0, "copies")
	rec.Label(reused > 0, "acquired after recycling")
	rec.Nontrivial(reused > 0 || copies > 0)
	return nil
}

// ---- concurrent key storage on one request

type CCase struct {
	Pool bool
	G    int // goroutines
	N    int // operations each
	Copy bool
}

func runC(c CCase, rec *hx.Rec) error {
	nx.Quiet(0)
	zconf.GlobalObject.RequestPoolMode = c.Pool
	defer func() { zconf.GlobalObject.RequestPoolMode = false }()
	q := znet.GetRequest(&nx.FakeConn{}, zpack.NewMessageByMsgId(1, 3, []byte("abc")))
	var wg sync.WaitGroup
	var bad atomic.Value
	for g := 0; g < c.G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			own := fmt.Sprint("own", g)
			for i := 0; i < c.N; i++ {
				q.Set(own, i)
				q.Set("shared", g)
				if v, ok := q.Get(own); !ok || v != i {
					bad.Store(fmt.Errorf("goroutine %d: key set to %d reads %v (%v)", g, i, v, ok))
					return
				}
				if v, ok := q.Get("shared"); !ok || v.(int) < 0 || v.(int) >= c.G {
					bad.Store(fmt.Errorf("shared key reads %v (%v)", v, ok))
					return
				}
				if c.Copy && i%8 == g%8 {
					k := q.Copy()
					if v, ok := k.Get(own); !ok || v != i {
						bad.Store(fmt.Errorf("goroutine %d: copy taken after setting %d reads %v (%v)", g, i, v, ok))
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	rec.Nontrivial(c.G > 1)
	if e, ok := bad.Load().(error); ok {
		return e
	}
	return nil
}

// ---- live traffic

type LCase struct {
	Conf  nx.Conf
	Conns [][]int // per connection: what each request's handler does (bit 0 copy+goroutine, bit 1 set keys, bit 2 panic at the end, bit 3 response, bit 4: an interceptor substitutes its own request type)
}

func genL(t *rapid.T) LCase {
	c := LCase{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "tcp", "ws", "kcp"}).Draw(t, "tr"),
		Mode:      rapid.SampledFrom([]string{"", "Bind"}).Draw(t, "mode"),
		Pool:      uint32(rapid.IntRange(0, 3).Draw(t, "pool")),
		Slices:    rapid.Bool().Draw(t, "sl"),
		ReqPool:   rapid.IntRange(0, 4).Draw(t, "rp") > 0,
		Procs:     rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
	}}
	if rapid.Bool().Draw(t, "jq") {
		c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	c.Conns = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 31), 1, 40), 1, 5).Draw(t, "conns")
	return c
}

// own is a user-defined request type.
type own struct {
	ziface.BaseRequest
	in   ziface.IRequest
	keys sync.Map
}

func (o *own) GetConnection() ziface.IConnection { return o.in.GetConnection() }
func (o *own) GetData() []byte                   { return o.in.GetData() }
func (o *own) GetMsgID() uint32                  { return o.in.GetMsgID() }
func (o *own) GetMessage() ziface.IMessage       { return o.in.GetMessage() }
func (o *own) BindRouter(r ziface.IRouter)       { o.in.BindRouter(r) }
func (o *own) Call()                             { o.in.Call() }
func (o *own) BindRouterSlices(h []ziface.RouterHandler) {
	o.in.BindRouterSlices(h)
}
func (o *own) RouterSlicesNext() { o.in.RouterSlicesNext() }

type sub struct{}

func (sub) Intercept(c ziface.IChain) ziface.IcResp {
	q, ok := c.Request().(ziface.IRequest)
	if ok {
		if d := q.GetData(); len(d) >= 12 && d[11]&16 != 0 {
			return c.Proceed(&own{in: q})
		}
	}
	return c.Proceed(c.Request())
}

func runL(c LCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	s.AddInterceptor(sub{})
	var mu sync.Mutex
	var bad error
	fail := func(f string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
		mu.Unlock()
	}
	var done, pend int64
	var later sync.WaitGroup
	body := func(ci, k, flags int) []byte {
		b := make([]byte, 12)
		binary.BigEndian.PutUint32(b, uint32(ci))
		binary.BigEndian.PutUint32(b[4:], uint32(k))
		binary.BigEndian.PutUint32(b[8:], uint32(flags))
		return append(b, hx.Fill(uint64(ci*100+k), k)...)
	}
	ports := make([]string, len(c.Conns))
	nx.Route(s, c.Conf.Slices, 5, func(q ziface.IRequest) {
		defer atomic.AddInt64(&done, 1)
		d := append([]byte{}, q.GetData()...)
		if len(d) < 12 {
			fail("a request with %d bytes", len(d))
			return
		}
		ci, k, flags := int(binary.BigEndian.Uint32(d)), int(binary.BigEndian.Uint32(d[4:])), int(binary.BigEndian.Uint32(d[8:]))
		if ci >= len(c.Conns) || k >= len(c.Conns[ci]) || !bytes.Equal(d, body(ci, k, flags)) || q.GetMsgID() != 5 {
			fail("a request with garbled data")
			return
		}
		mu.Lock()
		pt := ports[ci]
		mu.Unlock()
		if p := nx.Port(q.GetConnection().RemoteAddrString()); p != pt {
			fail("a request of the peer on port %s came with the connection of port %s", pt, p)
			return
		}
		for _, key := range []string{"who", "x"} {
			if v, ok := q.Get(key); ok {
				fail("request %d of connection %d starts with the key %s=%v of another request", k, ci, key, v)
				return
			}
		}
		who := fmt.Sprintf("%d/%d", ci, k)
		if flags&2 != 0 {
			q.Set("who", who)
			nx.Jitter(uint64(ci*100 + k))
			if v, ok := q.Get("who"); !ok || v != who {
				fail("request %s reads its key back as %v", who, v)
				return
			}
		}
		var resp any = q.GetResponse()
		if flags&8 != 0 {
			resp = "resp " + who
			q.SetResponse(resp)
		}
		if flags&1 != 0 {
			cp := q.Copy()
			later.Add(1)
			atomic.AddInt64(&pend, 1)
			go func() {
				defer later.Done()
				time.Sleep(time.Duration(k%5) * time.Millisecond)
				v, ok := cp.Get("who")
				if (flags&2 != 0) != ok || (ok && v != who) {
					fail("the copy of request %s has key %v (%v)", who, v, ok)
				}
				if cp.GetMsgID() != 5 || !bytes.Equal(cp.GetData(), d) {
					fail("the copy of request %s has id %d and data %x", who, cp.GetMsgID(), cp.GetData())
				}
				if flags&8 != 0 && cp.GetResponse() != resp {
					fail("the copy of request %s has response %v", who, cp.GetResponse())
				}
			}()
		}
		if flags&4 != 0 {
			panic("boom")
		}
	})
	s.Start()
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	want, copies := int64(0), 0
	var peers []*nx.Peer
	for ci := range c.Conns {
		p, err := nx.Dial(c.Conf.Transport)
		if err != nil {
			return fmt.Errorf("dial: %v", err)
		}
		peers = append(peers, p)
		mu.Lock()
		ports[ci] = p.Local()
		mu.Unlock()
		want += int64(len(c.Conns[ci]))
	}
	var wg sync.WaitGroup
	for ci, fl := range c.Conns {
		for _, f := range fl {
			copies += f & 1
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, f := range fl {
				if f&16 != 0 {
					f &^= 1 | 8 // the substitute keeps its own values
				}
				if err := peers[ci].Write(nx.TLV(5, body(ci, k, f)), nil); err != nil {
					fail("the server ended a healthy connection: %v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
	get := func() error { mu.Lock(); defer mu.Unlock(); return bad }
	if !hx.Wait(nx.Patience, func() bool { return atomic.LoadInt64(&done) >= want || get() != nil }) {
		return fmt.Errorf("%d of %d requests handled within %v", atomic.LoadInt64(&done), want, nx.Patience)
	}
	later.Wait()
	if e := get(); e != nil {
		return e
	}
	for _, p := range peers {
		p.Reset()
	}
	rec.Label(c.Conf.ReqPool, "pool")
	rec.Nontrivial(want > 3 && copies > 0)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:   "C13",
		Rule: "history: up to 80 operations (acquire, set keys, set response, edit or overwrite the message, copy, disturb its progress, run, recycle) on request objects with pooling on or off; after every operation every live request and copy is compared with its model. concurrent: 2-8 goroutines setting and reading keys of one request and copying it. live: 1-5 connections with up to 40 requests each whose handlers set keys and responses, hand copies to goroutines, panic, or are substituted by an interceptor with a user-defined request type. Non-trivial: a request acquired after a recycle or a copy (history), several goroutines (concurrent), more than three requests with a copy (live).",
		Facets: []hx.Facet{
			hx.F("history", 60000, 2000000, genH, runH),
			hx.F("concurrent", 20000, 600000, func(t *rapid.T) CCase {
				return CCase{rapid.Bool().Draw(t, "pool"), rapid.IntRange(2, 8).Draw(t, "g"), rapid.IntRange(1, 300).Draw(t, "n"), rapid.Bool().Draw(t, "copy")}
			}, runC),
			hx.F("live", 2500, 80000, genL, runL, hx.OneShot()),
		},
	})
}
