package nx

import (
	"crypto/tls"
	"fmt"
	"net"
	"net/url"
	"os"
	"sync"
	"syscall"

	"github.com/gorilla/websocket"
)

// Half is a peer whose socket exists before it connects, so that it can
// connect while no descriptor can be opened.
type Half struct{ fd int }

// NewHalf opens the socket.
func NewHalf() (*Half, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	return &Half{fd}, nil
}

// Connect connects it to the server's port; the kernel answers.
func (h *Half) Connect(tr string) error {
	port := TCPPort
	if tr == "ws" {
		port = WSPort
	}
	sa := &syscall.SockaddrInet4{Port: port}
	copy(sa.Addr[:], net.ParseIP(IP()).To4())
	return syscall.Connect(h.fd, sa)
}

// Drop closes it.
func (h *Half) Drop(reset bool) {
	if h.fd < 0 {
		return
	}
	if reset {
		_ = syscall.SetsockoptLinger(h.fd, syscall.SOL_SOCKET, syscall.SO_LINGER, &syscall.Linger{Onoff: 1})
	}
	_ = syscall.Close(h.fd)
	h.fd = -1
}

// Peer makes a raw peer of it, with the handshake of the transport.
func (h *Half) Peer(tr string) (*Peer, error) {
	f := os.NewFile(uintptr(h.fd), "half")
	h.fd = -1
	nc, err := net.FileConn(f)
	f.Close()
	if err != nil {
		return nil, err
	}
	switch tr {
	case "ws":
		u := &url.URL{Scheme: "ws", Host: fmt.Sprintf("%s:%d", IP(), WSPort), Path: "/"}
		ws, _, err := websocket.NewClient(nc, u, nil, 0, 0)
		if err != nil {
			nc.Close()
			return nil, err
		}
		return &Peer{tr: tr, ws: ws, nc: ws.UnderlyingConn()}, nil
	case "tls":
		c := tls.Client(nc, &tls.Config{InsecureSkipVerify: true})
		if err := c.Handshake(); err != nil {
			nc.Close()
			return nil, err
		}
		return &Peer{tr: tr, nc: c}, nil
	}
	return &Peer{tr: tr, nc: nc}, nil
}

// Starve makes every attempt to open a descriptor in this process fail until
// the returned function is called.
func Starve() (func(), error) {
	var was syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &was); err != nil {
		return nil, err
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 0, Max: was.Max}); err != nil {
		return nil, err
	}
	var once sync.Once
	return func() { once.Do(func() { _ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &was) }) }, nil
}
