package nx

import (
	"context"
	"fmt"
	"net"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
)

// FakeConn is a connection without a socket. Calls it does not define panic.
type FakeConn struct {
	ziface.IConnection
	ID     uint64
	Worker uint32
	MH     ziface.IMsgHandle
	Addr   string
}

func (f *FakeConn) GetConnID() uint64                { return f.ID }
func (f *FakeConn) GetConnIdStr() string             { return fmt.Sprint(f.ID) }
func (f *FakeConn) GetWorkerID() uint32              { return f.Worker }
func (f *FakeConn) GetMsgHandler() ziface.IMsgHandle { return f.MH }
func (f *FakeConn) RemoteAddrString() string         { return f.Addr }
func (f *FakeConn) LocalAddrString() string          { return f.Addr }
func (f *FakeConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (f *FakeConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (f *FakeConn) Context() context.Context         { return context.Background() }
func (f *FakeConn) GetName() string                  { return "fake" }

// Feed delivers requests to a server, either through its message handler
// (no sockets) or from raw peers of a started server.
type Feed struct {
	s     ziface.IServer
	fake  []*FakeConn
	peers []*Peer
}

// NewFeed prepares n connections. live: the server is started and dialled.
func NewFeed(s ziface.IServer, c Conf, live bool, n int) (*Feed, error) {
	f := &Feed{s: s}
	if !live {
		s.GetMsgHandler().StartWorkerPool()
		for i := 0; i < n; i++ {
			k := &FakeConn{ID: uint64(i + 1), MH: s.GetMsgHandler(), Addr: fmt.Sprintf("0.0.0.0:%d", i+1)}
			if c.Pool > 0 {
				k.Worker = uint32(i) % c.Pool
			}
			f.fake = append(f.fake, k)
		}
		return f, nil
	}
	s.Start()
	if err := Up(c.Transport); err != nil {
		return nil, err
	}
	for i := 0; i < n; i++ {
		p, err := Dial(c.Transport)
		if err != nil {
			return nil, fmt.Errorf("dial: %v", err)
		}
		f.peers = append(f.peers, p)
	}
	return f, nil
}

// Send delivers one request on connection i.
func (f *Feed) Send(i int, id uint32, data []byte) error {
	if f.peers != nil {
		if err := f.peers[i].Write(TLV(id, data), nil); err != nil {
			return fmt.Errorf("the server ended the connection: %v", err)
		}
		return nil
	}
	q := znet.GetRequest(f.fake[i], zpack.NewMessageByMsgId(id, uint32(len(data)), data))
	f.s.GetMsgHandler().Execute(q)
	return nil
}

// Close ends the peers, and the worker goroutines of a socketless feed.
func (f *Feed) Close() {
	for _, p := range f.peers {
		p.Reset()
	}
	if f.fake != nil {
		if mh, ok := f.s.GetMsgHandler().(*znet.MsgHandle); ok {
			for i := 0; i < int(mh.WorkerPoolSize); i++ {
				mh.StopOneWorker(i)
			}
		}
	}
}
