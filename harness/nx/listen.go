package nx

import (
	"crypto/tls"
	"fmt"
	"net"
	"net/http"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
)

// Listener is a raw (non-zinx) server.
type Listener struct {
	C  chan *Peer
	ln net.Listener
}

// Listen opens a raw server for a zinx client of this transport (tcp, tls, ws).
func Listen(tr string) (*Listener, error) {
	port := TCPPort
	if tr == "ws" {
		port = WSPort
	}
	ln, err := net.Listen("tcp4", fmt.Sprintf("%s:%d", IP(), port))
	if err != nil {
		return nil, fmt.Errorf("HARNESS: %v", err)
	}
	l := &Listener{C: make(chan *Peer, 100), ln: ln}
	switch tr {
	case "ws":
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		go http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			ws, err := up.Upgrade(w, r, nil)
			if err == nil {
				l.C <- &Peer{tr: tr, ws: ws, nc: ws.UnderlyingConn()}
			}
		}))
		return l, nil
	case "tls":
		cf, kf, err := Cert()
		if err != nil {
			return nil, fmt.Errorf("HARNESS: %v", err)
		}
		crt, err := tls.LoadX509KeyPair(cf, kf)
		if err != nil {
			return nil, fmt.Errorf("HARNESS: %v", err)
		}
		l.ln = tls.NewListener(ln, &tls.Config{Certificates: []tls.Certificate{crt}})
	}
	go func() {
		for {
			c, err := l.ln.Accept()
			if err != nil {
				return
			}
			if t, ok := c.(*tls.Conn); ok {
				if t.Handshake() != nil {
					c.Close()
					continue
				}
			}
			l.C <- &Peer{tr: tr, nc: c}
		}
	}()
	return l, nil
}

// Close stops accepting.
func (l *Listener) Close() { l.ln.Close() }

// Client makes a zinx client for the raw (or a zinx) server of this transport.
func Client(tr string) ziface.IClient {
	switch tr {
	case "ws":
		return znet.NewWsClient(IP(), WSPort)
	case "tls":
		return znet.NewTLSClient(IP(), TCPPort)
	}
	return znet.NewClient(IP(), TCPPort)
}
