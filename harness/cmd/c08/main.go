// C08: interceptors run in order, once, and can short-circuit.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---- the chain alone: requests and responses are plain values or IRequests

// pass stop replace wrap pwim (proceed with message and response) pwimnil
// (ProceedWithIMessage without a response: plain proceed) twice
var chainActs = []string{"pass", "pass", "stop", "replace", "wrap", "pwim", "pwimnil", "pwimnomsg", "twice"}

type ChainCase struct {
	Acts  []string
	Start int    // position the chain is built with
	Req   string // plain, request
}

type step struct {
	I    int
	Req  string
	Resp string // response this stage saw from behind it
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case ziface.IRequest:
		m := x.GetMessage()
		return fmt.Sprintf("req(%d,%s,%v)", m.GetMsgID(), m.GetData(), x.GetResponse())
	}
	return fmt.Sprint(v)
}

type chainInt struct {
	i   int
	act string
	log *[]step
}

func (k *chainInt) Intercept(c ziface.IChain) ziface.IcResp {
	at := len(*k.log)
	*k.log = append(*k.log, step{I: k.i, Req: show(c.Request())})
	var r ziface.IcResp
	m := c.GetIMessage()
	if q, ok := c.Request().(ziface.IRequest); ok != (m != nil) || (ok && m != q.GetMessage()) {
		(*k.log)[at].Req += " GetIMessage is not the request's message"
	}
	switch k.act {
	case "stop":
		return fmt.Sprintf("stopped at %d", k.i)
	case "replace":
		r = c.Proceed(fmt.Sprintf("replaced at %d", k.i))
	case "wrap":
		r = c.Proceed(c.Request())
		(*k.log)[at].Resp = show(r)
		return fmt.Sprintf("wrap%d(%s)", k.i, show(r))
	case "pwim":
		r = c.ProceedWithIMessage(m, fmt.Sprintf("response of %d", k.i))
	case "pwimnil":
		r = c.ProceedWithIMessage(m, nil)
	case "pwimnomsg":
		r = c.ProceedWithIMessage(nil, "unused")
	case "twice":
		c.Proceed(c.Request())
		r = c.Proceed(c.Request())
	default:
		r = c.Proceed(c.Request())
	}
	(*k.log)[at].Resp = show(r)
	return r
}

// model of a request value
type mreq struct {
	plain string
	q     bool // an IRequest
	resp  *string
}

func (m mreq) show() string {
	if m.q {
		r := "<nil>"
		if *m.resp != "" {
			r = *m.resp
		}
		return fmt.Sprintf("req(%d,%s,%s)", 77, "payload", r)
	}
	return m.plain
}

func chainExpect(acts []string, i int, req mreq, log *[]step) string {
	if i >= len(acts) {
		return req.show()
	}
	at := len(*log)
	*log = append(*log, step{I: i, Req: req.show()})
	var r string
	switch acts[i] {
	case "stop":
		return fmt.Sprintf("stopped at %d", i)
	case "replace":
		r = chainExpect(acts, i+1, mreq{plain: fmt.Sprintf("replaced at %d", i)}, log)
	case "wrap":
		r = chainExpect(acts, i+1, req, log)
		(*log)[at].Resp = r
		return fmt.Sprintf("wrap%d(%s)", i, r)
	case "pwim":
		if req.q {
			*req.resp = fmt.Sprintf("response of %d", i)
		}
		r = chainExpect(acts, i+1, req, log)
	case "twice":
		chainExpect(acts, i+1, req, log)
		r = chainExpect(acts, i+1, req, log)
	default:
		r = chainExpect(acts, i+1, req, log)
	}
	(*log)[at].Resp = r
	return r
}

func runChain(c ChainCase, rec *hx.Rec) error {
	if c.Start > len(c.Acts) {
		c.Start = len(c.Acts)
	}
	var got, want []step
	var list []ziface.IInterceptor
	for i, a := range c.Acts {
		list = append(list, &chainInt{i, a, &got})
	}
	var req ziface.IcReq = "plain"
	m := mreq{plain: "plain"}
	if c.Req == "request" {
		req = znet.NewRequest(nil, zpack.NewMessageByMsgId(77, 7, []byte("payload")))
		e := ""
		m = mreq{q: true, resp: &e}
	}
	// the final response may be the request itself, so it is compared after the run as a whole
	wr := chainExpect(c.Acts, c.Start, m, &want)
	var gr string
	if pan := hx.Call(func() { gr = show(zinterceptor.NewChain(list, c.Start, req).Proceed(req)) }); pan != nil {
		return fmt.Errorf("chain %v from %d: %v", c.Acts, c.Start, pan)
	}
	if gr != wr {
		return fmt.Errorf("chain %v from %d on a %s: response %s, expected %s", c.Acts, c.Start, c.Req, gr, wr)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("chain %v from %d on a %s: steps %+v, expected %+v", c.Acts, c.Start, c.Req, got, want)
	}
	rec.Nontrivial(len(c.Acts)-c.Start >= 2)
	rec.Label(c.Req == "request", "on a request")
	return nil
}

// ---- interceptors of a server

// pass stop edit (change id and data of the message) swap (proceed with another request) resp (set a response) noroute (change to an unregistered id)
var srvActs = []string{"pass", "pass", "pass", "stop", "edit", "swap", "resp", "noroute"}

type Int struct{ Acts []string } // by request number, cycled

type SrvCase struct {
	Conf  nx.Conf
	Live  bool
	Head  bool // dispatch only: a head interceptor too
	Ints  []Int
	Reqs  [][]int // per connection: request ids (0-2)
	Added int     // interceptors added after the worker pool is running and before traffic
}

func genSrv(live bool) func(t *rapid.T) SrvCase {
	return func(t *rapid.T) SrvCase {
		c := SrvCase{Live: live, Conf: nx.Conf{Transport: "tcp", Pool: uint32(rapid.IntRange(0, 3).Draw(t, "pool")), ReqPool: rapid.Bool().Draw(t, "rp"), Slices: rapid.Bool().Draw(t, "sl")}}
		if live {
			c.Conf.Transport = rapid.SampledFrom([]string{"tcp", "tcp", "ws", "kcp"}).Draw(t, "tr")
			if rapid.Bool().Draw(t, "jq") {
				c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
			}
		} else {
			c.Head = rapid.Bool().Draw(t, "head")
		}
		n := rapid.IntRange(0, 8).Draw(t, "ints")
		for i := 0; i < n; i++ {
			c.Ints = append(c.Ints, Int{rapid.SliceOfN(rapid.SampledFrom(srvActs), 1, 4).Draw(t, "acts")})
		}
		c.Reqs = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 2), 1, 10), 1, 4).Draw(t, "reqs")
		return c
	}
}

type view struct {
	I    int // interceptor, or -1: handler
	ID   uint32
	Data string
	Resp string // set by an interceptor
}

func payload(n int, ver int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, uint32(n))
	binary.BigEndian.PutUint32(b[4:], uint32(ver))
	return b
}

type srvInt struct {
	i    int
	acts []string
	see  func(int, ziface.IRequest) (int, bool)
}

func (k *srvInt) Intercept(c ziface.IChain) ziface.IcResp {
	q, ok := c.Request().(ziface.IRequest)
	if !ok {
		return nil
	}
	n, ok := k.see(k.i, q)
	if !ok {
		return nil
	}
	m := c.GetIMessage()
	switch k.acts[n%len(k.acts)] {
	case "stop":
		return nil
	case "edit":
		m.SetMsgID((m.GetMsgID() + 1) % 3)
		m.SetData(payload(n, k.i+1))
		return c.ProceedWithIMessage(m, q.GetResponse())
	case "swap":
		nq := znet.NewRequest(q.GetConnection(), zpack.NewMessageByMsgId((m.GetMsgID()+1)%3, 8, payload(n, 100+k.i)))
		return c.Proceed(nq)
	case "resp":
		return c.ProceedWithIMessage(m, fmt.Sprintf("R%d", k.i))
	case "noroute":
		m.SetMsgID(99)
		return c.Proceed(c.Request())
	}
	return c.Proceed(c.Request())
}

// srvExpect is what request n (sent with id) goes through.
func srvExpect(ints []Int, n int, id uint32) (vs []view) {
	d, resp := payload(n, 0), ""
	for i, k := range ints {
		vs = append(vs, view{i, id, string(d), resp})
		switch k.Acts[n%len(k.Acts)] {
		case "stop":
			return
		case "edit":
			id, d = (id+1)%3, payload(n, i+1)
		case "swap":
			id, d, resp = (id+1)%3, payload(n, 100+i), ""
		case "resp":
			resp = fmt.Sprintf("R%d", i)
		case "noroute":
			id = 99
		}
	}
	if id < 3 {
		vs = append(vs, view{-1, id, string(d), resp})
	}
	return
}

func runSrv(c SrvCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	var mu sync.Mutex
	got := map[int][]view{}
	conns := map[int]map[string]bool{}
	events := 0
	var bad error
	total := 0
	for _, r := range c.Reqs {
		total += len(r)
	}
	see := func(i int, q ziface.IRequest) (int, bool) {
		d := append([]byte{}, q.GetData()...)
		r, _ := q.GetResponse().(string)
		addr := q.GetConnection().RemoteAddrString()
		mu.Lock()
		defer mu.Unlock()
		if len(d) != 8 || int(binary.BigEndian.Uint32(d)) >= total {
			if bad == nil {
				bad = fmt.Errorf("stage %d saw a message that is not a sent one, decoded: id %d data % x", i, q.GetMsgID(), d)
			}
			return 0, false
		}
		n := int(binary.BigEndian.Uint32(d))
		got[n] = append(got[n], view{i, q.GetMsgID(), string(d), r})
		if conns[n] == nil {
			conns[n] = map[string]bool{}
		}
		conns[n][addr] = true
		events++
		return n, true
	}
	for id := uint32(0); id < 3; id++ {
		id := id
		nx.Route(s, c.Conf.Slices, id, func(q ziface.IRequest) {
			if q.GetMsgID() != id {
				mu.Lock()
				if bad == nil {
					bad = fmt.Errorf("handler of %d got id %d", id, q.GetMsgID())
				}
				mu.Unlock()
			}
			see(-1, q)
		})
	}
	ints := append([]Int{}, c.Ints...)
	if c.Head {
		h := Int{[]string{"pass", "edit", "pass", "resp"}}
		ints = append([]Int{h}, ints...)
	}
	for i, k := range ints {
		x := &srvInt{i, k.Acts, see}
		if c.Head && i == 0 {
			continue
		}
		s.AddInterceptor(x)
	}
	if c.Head {
		s.GetMsgHandler().SetHeadInterceptor(&srvInt{0, ints[0].Acts, see})
	}
	feed, err := nx.NewFeed(s, c.Conf, c.Live, len(c.Reqs))
	if err != nil {
		return err
	}
	want := 0
	exp := map[int][]view{}
	var wg sync.WaitGroup
	n, touched := 0, 0
	for ci, ids := range c.Reqs {
		base := n
		for _, id := range ids {
			exp[n] = srvExpect(ints, n, uint32(id))
			want += len(exp[n])
			if len(exp[n]) > 2 {
				touched++
			}
			n++
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, id := range ids {
				if err := feed.Send(ci, uint32(id), payload(base+k, 0)); err != nil {
					mu.Lock()
					if bad == nil {
						bad = err
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return events >= want || bad != nil })
	time.Sleep(time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	for i := 0; i < n; i++ {
		if len(conns[i]) > 1 {
			return fmt.Errorf("request %d was seen with several connections %v", i, conns[i])
		}
		a, b := fmt.Sprintf("%q", got[i]), fmt.Sprintf("%q", exp[i])
		if !bytes.Equal([]byte(a), []byte(b)) && !(c.Live && sameButDecoded(got[i], exp[i])) {
			return fmt.Errorf("request %d: stages saw %s, expected %s", i, a, b)
		}
	}
	feed.Close()
	rec.Label(true, c.Conf.Transport)
	rec.Nontrivial(touched >= 2 && len(c.Reqs) > 0)
	return nil
}

// On a live server the decoder's own response is set before the first stage; it
// is not a string, so it reads as "" until an interceptor replaces it.
func sameButDecoded(a, b []view) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func main() {
	hx.Main(hx.Property{
		ID:   "C08",
		Rule: "chain: 0-8 interceptors with generated behaviour (pass, stop, replace the request, wrap the response, set a response, proceed twice) on plain values and requests, from any start position, against a recursive reference. dispatch/live: servers with 0-8 interceptors (pass, stop, edit the message, swap the request, set a response, reroute to an unknown id) and up to 4 concurrent connections, against the expected view (id, data, response) of every stage and handler per request. Non-trivial: two or more interceptors behind each other (chain), two requests that pass two or more stages (server).",
		Facets: []hx.Facet{
			hx.F("chain", 30000, 1500000, func(t *rapid.T) ChainCase {
				return ChainCase{rapid.SliceOfN(rapid.SampledFrom(chainActs), 0, 7).Draw(t, "acts"), rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "start"), rapid.SampledFrom([]string{"plain", "request"}).Draw(t, "req")}
			}, runChain),
			hx.F("dispatch", 20000, 800000, genSrv(false), runSrv),
			hx.F("live", 3000, 100000, genSrv(true), runSrv, hx.OneShot()),
		},
	})
}
