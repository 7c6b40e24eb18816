package main

import (
	"fmt"
	"os"
	"os/signal"
	"syscall"
	"time"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---- Serve

// ServeCase: in each round the server serves, has peers, is stopped or not, and the
// process gets a signal.
type ServeCase struct {
	Conf   nx.Conf
	Rounds []Round
}

type Round struct {
	Peers int
	US    int  // wait before the signal
	Term  bool // SIGTERM, else SIGINT
	Stop  bool // the server is stopped before the signal
}

func genServe(t *rapid.T) ServeCase {
	c := ServeCase{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "ws", "kcp", "tls"}).Draw(t, "tr"),
		Pool:      uint32(rapid.IntRange(0, 3).Draw(t, "pool")),
		MaxConn:   50,
		Beat:      rapid.Bool().Draw(t, "beat"),
	}}
	for i := rapid.IntRange(1, 3).Draw(t, "rounds"); i > 0; i-- {
		c.Rounds = append(c.Rounds, Round{rapid.IntRange(0, 3).Draw(t, "peers"), rapid.SampledFrom([]int{0, 100, 3000, 30000}).Draw(t, "us"),
			rapid.Bool().Draw(t, "term"), rapid.Bool().Draw(t, "stop")})
	}
	return c
}

func runServe(c ServeCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	s.AddRouter(idEcho, &nx.Router{H: func(q ziface.IRequest) {
		_ = q.GetConnection().SendMsg(idEcho, append([]byte("re:"), q.GetData()...))
	}})
	sigs := make(chan os.Signal, 100)
	signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM)
	served := 0
	for i, r := range c.Rounds {
		done := make(chan error, 1)
		go func() { done <- hx.Call(s.Serve) }()
		if err := nx.Up(c.Conf.Transport); err != nil {
			return fmt.Errorf("round %d: %w", i, err)
		}
		var peers []*nx.Peer
		echo := func(p *nx.Peer) error {
			m := fmt.Sprint("m", i, p.Local())
			p.SetReadDeadline(time.Now().Add(nx.Patience))
			if err := p.Write(nx.TLV(idEcho, []byte(m)), nil); err != nil {
				return err
			}
			id, b, err := nx.ReadTLV(p)
			if err == nil && (id != idEcho || string(b) != "re:"+m) {
				err = fmt.Errorf("the answer to %q is message %d %q", m, id, b)
			}
			return err
		}
		for k := 0; k < r.Peers; k++ {
			p, err := nx.DialFor(c.Conf.Transport, nx.Patience)
			if err != nil {
				return fmt.Errorf("round %d: dialling: %v", i, err)
			}
			defer p.Close()
			if err := echo(p); err != nil {
				return fmt.Errorf("round %d: a message to the serving server is not answered: %v", i, err)
			}
			peers = append(peers, p)
			served++
		}
		time.Sleep(time.Duration(r.US) * time.Microsecond)
		if r.Stop {
			if err := returns("Stop", s.Stop); err != nil {
				return err
			}
		}
		select {
		case err := <-done:
			return fmt.Errorf("round %d: Serve returned before there was a signal: %v", i, err)
		default:
		}
		if !r.Stop {
			for _, p := range peers {
				if err := echo(p); err != nil {
					return fmt.Errorf("round %d: a message to the serving server is not answered: %v", i, err)
				}
			}
		}
		sig := syscall.SIGINT
		if r.Term {
			sig = syscall.SIGTERM
		}
		// the first may come before Serve listens to signals
		returned := false
		for end := time.Now().Add(nx.Patience); !returned && time.Now().Before(end); {
			_ = syscall.Kill(os.Getpid(), sig)
			<-sigs
			select {
			case err := <-done:
				if err != nil {
					return fmt.Errorf("round %d: Serve: %v", i, err)
				}
				returned = true
			case <-time.After(200 * time.Millisecond):
			}
		}
		if !returned {
			return fmt.Errorf("round %d: Serve has not returned %v after signal %v", i, nx.Patience, sig)
		}
		if !r.Stop {
			if err := returns("Stop", s.Stop); err != nil {
				return err
			}
		}
		if nx.Listening(c.Conf.Transport) {
			return fmt.Errorf("round %d: Stop has returned, but the socket is still listening", i)
		}
		rec.Label(r.Stop, "stopped before the signal")
	}
	rec.Label(true, c.Conf.Transport)
	rec.Nontrivial(served > 0)
	return nil
}
