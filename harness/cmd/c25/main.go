// C25: WebSocket peers are admitted on their own terms.
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

const idPing = 1

// Peer is one client.
type Peer struct {
	D      int      // microseconds after the barrier
	Kind   string   // upgrade, get (a plain request), version (an upgrade of an unknown version)
	Other  bool     // on a path that is not the server's
	Denied string   `json:",omitempty"` // err, panic: the authentication refuses it
	AuthUS int      // how long the authentication takes
	Protos []string // the subprotocols it offers
	Pings  int
}

type Case struct {
	Conf  nx.Conf
	Path  string
	Auth  string // "" none, "plain", "ctx" (stores the token in the request's context)
	Peers []Peer
}

func gen(t *rapid.T) Case {
	c := Case{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"ws", "ws", "both"}).Draw(t, "tr"),
		Mode:      rapid.SampledFrom([]string{"", "Bind", "DynamicBind"}).Draw(t, "mode"),
		Pool:      uint32(rapid.IntRange(0, 4).Draw(t, "pool")),
		Procs:     rapid.SampledFrom([]int{1, 2, 8, 8}).Draw(t, "procs"),
		ReqPool:   rapid.Bool().Draw(t, "rp"),
	}}
	if rapid.IntRange(0, 3).Draw(t, "jq") > 0 {
		c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	c.Path = rapid.SampledFrom([]string{"/", "/ws", "/ws", "/a/b"}).Draw(t, "path")
	c.Auth = rapid.SampledFrom([]string{"", "plain", "ctx", "ctx"}).Draw(t, "auth")
	names := rapid.SampledFrom([]string{"a", "b", "c", "chat", "mqtt", "x.y-z"})
	denied := 0
	c.Peers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Peer {
		p := Peer{D: rapid.SampledFrom([]int{0, 0, 0, 0, 200, 2000}).Draw(t, "d"), Kind: "upgrade",
			AuthUS: rapid.SampledFrom([]int{0, 0, 100, 1000}).Draw(t, "aus"),
			Pings:  rapid.IntRange(0, 3).Draw(t, "pings")}
		if k := rapid.IntRange(0, 11).Draw(t, "kind"); k == 0 {
			p.Kind = "get"
		} else if k == 1 {
			p.Kind = "version"
		}
		if k := rapid.IntRange(0, 11).Draw(t, "den"); k < 2 {
			p.Denied = "err"
		} else if k == 2 {
			p.Denied = "panic"
		}
		p.Other = rapid.IntRange(0, 11).Draw(t, "other") == 0
		if rapid.IntRange(0, 3).Draw(t, "pq") > 0 {
			p.Protos = rapid.SliceOfNDistinct(names, 1, 3, func(s string) string { return s }).Draw(t, "protos")
		}
		return p
	}), 1, 14).Draw(t, "peers")
	for i := range c.Peers { // each refusal makes the server pause, longer every time
		p := &c.Peers[i]
		if p.Denied != "" || p.Kind != "upgrade" {
			if denied++; denied > 4 {
				p.Denied, p.Kind = "", "upgrade"
			}
		}
	}
	return c
}

type key struct{}

func run(c Case, rec *hx.Rec) error {
	zconf.GlobalObject.WsPath = c.Path
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	var mu sync.Mutex
	starts := 0
	asked := map[string]int{}
	handled := map[int]int{}
	var bad error
	fail := func(f string, a ...any) {
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
	}
	s.SetOnConnStart(func(cn ziface.IConnection) { mu.Lock(); starts++; mu.Unlock() })
	nx.Route(s, false, idPing, func(q ziface.IRequest) {
		i := int(binary.BigEndian.Uint32(q.GetData()))
		mu.Lock()
		defer mu.Unlock()
		handled[i]++
		if c.Auth == "ctx" {
			tok := ""
			if rc, ok := q.GetConnection().Context().Value(znet.WsConnectionHttpReqCtxKey{}).(context.Context); ok {
				tok, _ = rc.Value(key{}).(string)
			}
			if want := fmt.Sprint("p", i); tok != want {
				fail("what the authentication attached to peer %s's request reads %q on its connection", want, tok)
			}
		}
	})
	if c.Auth != "" {
		s.SetWebsocketAuth(func(r *http.Request) error {
			tok := r.URL.Query().Get("tok")
			mu.Lock()
			asked[tok]++
			mu.Unlock()
			var i int
			if _, err := fmt.Sscanf(tok, "p%d", &i); err != nil || i >= len(c.Peers) {
				return errors.New("no token")
			}
			p := c.Peers[i]
			if p.AuthUS > 0 {
				time.Sleep(time.Duration(p.AuthUS) * time.Microsecond)
			}
			switch p.Denied {
			case "err":
				return errors.New("denied")
			case "panic":
				panic(http.ErrAbortHandler)
			}
			if c.Auth == "ctx" {
				*r = *r.WithContext(context.WithValue(r.Context(), key{}, tok))
			}
			return nil
		})
	}
	if pan := hx.Call(s.Start); pan != nil {
		return fmt.Errorf("start: %v", pan)
	}
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	bar := make(chan struct{})
	var wg sync.WaitGroup
	conns := make([]*websocket.Conn, len(c.Peers))
	codes := make([]int, len(c.Peers))
	errs := make([]error, len(c.Peers))
	onPath := func(p Peer) bool { return !p.Other || c.Path == "/" }
	welcome := func(p Peer) bool {
		return p.Kind == "upgrade" && onPath(p) && (p.Denied == "" || c.Auth == "")
	}
	for i, p := range c.Peers {
		path := c.Path
		if p.Other {
			path = "/elsewhere"
		}
		url := fmt.Sprintf("://%s:%d%s?tok=p%d", nx.IP(), nx.WSPort, path, i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-bar
			time.Sleep(time.Duration(p.D) * time.Microsecond)
			if p.Kind != "upgrade" {
				q, _ := http.NewRequest("GET", "http"+url, nil)
				q.Close = true
				if p.Kind == "version" {
					q.Header.Set("Connection", "Upgrade")
					q.Header.Set("Upgrade", "websocket")
					q.Header.Set("Sec-WebSocket-Version", "12")
					q.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
				}
				r, err := (&http.Client{Timeout: nx.Patience}).Do(q)
				if errs[i] = err; err == nil {
					codes[i] = r.StatusCode
					r.Body.Close()
				}
				return
			}
			d := websocket.Dialer{HandshakeTimeout: nx.Patience, Subprotocols: p.Protos}
			ws, r, err := d.Dial("ws"+url, nil)
			if r != nil {
				codes[i] = r.StatusCode
			}
			conns[i], errs[i] = ws, err
			if err != nil {
				return
			}
			b := make([]byte, 4)
			binary.BigEndian.PutUint32(b, uint32(i))
			for k := 0; k < p.Pings; k++ {
				if err := ws.WriteMessage(websocket.BinaryMessage, nx.TLV(idPing, b)); err != nil && welcome(p) {
					errs[i] = err
				}
			}
		}()
	}
	close(bar)
	wg.Wait()
	want, pings := 0, 0
	for i, p := range c.Peers {
		desc := fmt.Sprintf("peer %d of %d (%s on path %s, server path %s, offers %q, authentication %q refuses it: %q)", i, len(c.Peers), p.Kind, map[bool]string{true: "/elsewhere", false: c.Path}[p.Other], c.Path, p.Protos, c.Auth, p.Denied)
		if welcome(p) {
			want++
			pings += p.Pings
			if errs[i] != nil {
				return fmt.Errorf("%s is not served: %v, status %d", desc, errs[i], codes[i])
			}
			proto := ""
			if len(p.Protos) > 0 {
				proto = p.Protos[0]
			}
			if got := conns[i].Subprotocol(); got != proto {
				return fmt.Errorf("%s is answered with subprotocol %q, expected %q", desc, got, proto)
			}
			continue
		}
		if conns[i] != nil {
			return fmt.Errorf("%s was accepted", desc)
		}
		if p.Denied == "err" && c.Auth != "" && onPath(p) && codes[i] != http.StatusUnauthorized {
			return fmt.Errorf("%s is answered with status %d (%v), expected 401", desc, codes[i], errs[i])
		}
		if !onPath(p) && codes[i] != http.StatusNotFound {
			return fmt.Errorf("%s is answered with status %d (%v), expected 404", desc, codes[i], errs[i])
		}
	}
	if !hx.Wait(nx.Patience, func() bool {
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, v := range handled {
			n += v
		}
		return bad != nil || starts >= want && n >= pings
	}) {
		mu.Lock()
		defer mu.Unlock()
		return fmt.Errorf("%d peers are welcome and sent %d requests, but %d connections were started and these requests were handled: %v", want, pings, starts, handled)
	}
	time.Sleep(time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	if starts != want {
		return fmt.Errorf("%d peers are welcome, %d connections were started", want, starts)
	}
	if n := s.GetConnMgr().Len(); n != want {
		return fmt.Errorf("%d peers are welcome, the connection manager holds %d", want, n)
	}
	offered, refused := 0, 0
	for i, p := range c.Peers {
		n := asked[fmt.Sprint("p", i)]
		switch {
		case c.Auth == "":
		case !onPath(p) && n > 0:
			return fmt.Errorf("peer %d asked for another path, but the authentication was asked about it", i)
		case onPath(p) && p.Kind == "upgrade" && n != 1:
			return fmt.Errorf("the authentication was asked %d times about peer %d", n, i)
		}
		if len(p.Protos) > 0 {
			offered++
		}
		if !welcome(p) {
			refused++
		}
		if conns[i] != nil {
			conns[i].Close()
		}
	}
	rec.Label(c.Auth != "", "auth")
	rec.Label(refused > 0, "refused")
	rec.Label(offered > 1, "several offer subprotocols")
	rec.Label(c.Path != "/", "own path")
	rec.Nontrivial(want > 1 && (offered > 0 || refused > 0 && c.Auth != ""))
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C25",
		Rule:        "a live WebSocket server per case (alone or beside TCP; path /, /ws or /a/b; with or without an authentication function that takes generated time and refuses, panics or attaches a token) and up to 14 peers that ask at once or staggered: proper upgrades with 0-3 subprotocols, plain requests, upgrades of an unknown version, other paths. Oracle: exactly the welcome peers become connections and have their requests handled, each with the first subprotocol it offered and the token attached to its own request; refused ones get 401, another path 404; the authentication is asked once per upgrade. Non-trivial: at least two welcome peers and one that offers a subprotocol or is refused.",
		Assumptions: []string{"something that has not happened within 30 s does not happen"},
		Facets:      []hx.Facet{hx.F("live", 3000, 120000, gen, run, hx.OneShot())},
	})
}
