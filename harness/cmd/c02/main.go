// C02: packed messages round-trip through framing and decoding.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"pgregory.net/rapid"

	"verif/hx"
)

type Msg struct {
	ID   uint32
	N    int
	Seed uint64
}

type Case struct {
	Fmt    string // tlv | ltv
	Via    string // factory | ctor
	How    string // pkg | byid | init : how the message object is made
	Max    uint32 // configured MaxPacketSize
	Msgs   []Msg
	Chunks []int
}

func genID(t *rapid.T) uint32 {
	return rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(0, 300), rapid.SampledFrom([]uint32{0, 1, 255, 256, 65535, 65536, 0x01020304, 0xfffffffe, 0xffffffff})).Draw(t, "id")
}

func gen(t *rapid.T) Case {
	n := rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 2000), rapid.SampledFrom([]int{0, 1, 255, 256, 257, 1016, 1024, 4088, 4096, 65535, 65536, 65544, 200000}))
	return Case{
		Fmt: rapid.SampledFrom([]string{"tlv", "ltv"}).Draw(t, "fmt"),
		Via: rapid.SampledFrom([]string{"factory", "ctor"}).Draw(t, "via"),
		How: rapid.SampledFrom([]string{"pkg", "byid", "init"}).Draw(t, "how"),
		Max: rapid.SampledFrom([]uint32{0, 4096, 1 << 20}).Draw(t, "max"),
		Msgs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg {
			return Msg{genID(t), n.Draw(t, "n"), rapid.Uint64Range(0, 1000).Draw(t, "seed")}
		}), 1, 6).Draw(t, "msgs"),
		Chunks: rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 16), rapid.IntRange(1, 3000)), 0, 8).Draw(t, "chunks"),
	}
}

func packer(f, via string) ziface.IDataPack {
	if via == "factory" {
		if f == "tlv" {
			return zpack.Factory().NewPack(ziface.ZinxDataPack)
		}
		return zpack.Factory().NewPack(ziface.ZinxDataPackOld)
	}
	if f == "tlv" {
		return zpack.NewDataPack()
	}
	return zpack.NewDataPackLtv()
}

func decoder(f string) ziface.IDecoder {
	if f == "tlv" {
		return zdecoder.NewTLVDecoder()
	}
	return zdecoder.NewLTV_Little_Decoder()
}

func layout(f string, id uint32, body []byte) []byte {
	var b []byte
	if f == "tlv" {
		b = binary.BigEndian.AppendUint32(b, id)
		b = binary.BigEndian.AppendUint32(b, uint32(len(body)))
	} else {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(body)))
		b = binary.LittleEndian.AppendUint32(b, id)
	}
	return append(b, body...)
}

type last struct {
	got []ziface.IRequest
}

func (l *last) Intercept(chain ziface.IChain) ziface.IcResp {
	l.got = append(l.got, chain.Request().(ziface.IRequest))
	return "end"
}

func run(c Case, rec *hx.Rec) error {
	zconf.GlobalObject.MaxPacketSize = c.Max
	dp := packer(c.Fmt, c.Via)
	if dp.GetHeadLen() != 8 {
		return fmt.Errorf("header length %d", dp.GetHeadLen())
	}
	var stream []byte
	var bodies, packed [][]byte
	for i, m := range c.Msgs {
		body := hx.Fill(m.Seed, m.N)
		bodies = append(bodies, body)
		in := append([]byte{}, body...)
		var mo ziface.IMessage
		switch c.How {
		case "pkg":
			mo = zpack.NewMsgPackage(m.ID, in)
		case "byid":
			mo = zpack.NewMessageByMsgId(m.ID, uint32(len(in)), in)
		default:
			x := &zpack.Message{}
			x.Init(m.ID, in)
			mo = x
		}
		if mo.GetMsgID() != m.ID || mo.GetDataLen() != uint32(m.N) || !bytes.Equal(mo.GetData(), body) {
			return fmt.Errorf("message object does not carry what it was given")
		}
		b, err := dp.Pack(mo)
		if err != nil {
			return fmt.Errorf("pack #%d: %v", i, err)
		}
		if want := layout(c.Fmt, m.ID, body); !bytes.Equal(b, want) {
			return fmt.Errorf("packed bytes of #%d (id %d, %d bytes) are not the documented layout: % x, want % x", i, m.ID, m.N, clip(b), clip(want))
		}
		for j := range in {
			in[j] = 0xEE // the caller reuses its payload buffer
		}
		if want := layout(c.Fmt, m.ID, body); !bytes.Equal(b, want) {
			return fmt.Errorf("packed bytes of #%d change with the caller's payload buffer", i)
		}
		// the header alone
		if c.Max == 0 || uint32(m.N) <= c.Max {
			h, err := dp.Unpack(b)
			if err != nil {
				return fmt.Errorf("unpack #%d: %v", i, err)
			}
			if h.GetMsgID() != m.ID || h.GetDataLen() != uint32(m.N) {
				return fmt.Errorf("unpack #%d gave id %d len %d, want %d %d", i, h.GetMsgID(), h.GetDataLen(), m.ID, m.N)
			}
		}
		packed = append(packed, b)
	}
	for i, b := range packed { // judged and sent after all were packed, as messages wait in a queue: no sharing between them
		if want := layout(c.Fmt, c.Msgs[i].ID, bodies[i]); !bytes.Equal(b, want) {
			return fmt.Errorf("packed bytes of #%d changed when later messages were packed: % x, want % x", i, clip(b), clip(want))
		}
		stream = append(stream, b...)
	}
	dec := decoder(c.Fmt)
	fd := zinterceptor.NewFrameDecoder(*dec.GetLengthField())
	var frames [][]byte
	for pos, ci := 0, 0; pos < len(stream); ci++ {
		n := len(stream) - pos
		if len(c.Chunks) > 0 && c.Chunks[ci%len(c.Chunks)] < n {
			n = c.Chunks[ci%len(c.Chunks)]
		}
		buf := append([]byte{}, stream[pos:pos+n]...)
		frames = append(frames, fd.Decode(buf)...)
		pos += n
	}
	if len(frames) != len(c.Msgs) {
		return fmt.Errorf("%d frames for %d messages", len(frames), len(c.Msgs))
	}
	l := &last{}
	for i, f := range frames {
		msg := zpack.NewMessage(uint32(len(f)), f)
		req := znet.NewRequest(nil, msg)
		chain := zinterceptor.NewChain([]ziface.IInterceptor{dec, l}, 0, req)
		if r := chain.Proceed(req); r != "end" {
			return fmt.Errorf("decoder swallowed the next stage's response: %v", r)
		}
		if len(l.got) != i+1 {
			return fmt.Errorf("decoder did not pass frame #%d on", i)
		}
	}
	for i, r := range l.got { // judged after all were decoded: no sharing between messages
		if r.GetMsgID() != c.Msgs[i].ID || !bytes.Equal(r.GetData(), bodies[i]) || r.GetMessage().GetDataLen() != uint32(len(bodies[i])) {
			return fmt.Errorf("#%d decoded to id %d, %d bytes (declared %d) % x; want id %d, %d bytes % x", i, r.GetMsgID(), len(r.GetData()), r.GetMessage().GetDataLen(), clip(r.GetData()), c.Msgs[i].ID, len(bodies[i]), clip(bodies[i]))
		}
		var tag, length uint32
		var val []byte
		switch v := r.GetResponse().(type) {
		case zdecoder.TLVDecoder:
			tag, length, val = v.Tag, v.Length, v.Value
		case zdecoder.LTV_Little_Decoder:
			tag, length, val = v.Tag, v.Length, v.Value
		default:
			return fmt.Errorf("#%d: decoded response is %T", i, v)
		}
		if tag != c.Msgs[i].ID || length != uint32(len(bodies[i])) || !bytes.Equal(val, bodies[i]) {
			return fmt.Errorf("#%d: decoded response carries %d/%d", i, tag, length)
		}
	}
	rec.Label(true, c.Fmt)
	rec.Nontrivial(len(c.Msgs) >= 2 || (len(c.Msgs) == 1 && c.Msgs[0].N > 0))
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 20 {
		return b[:20]
	}
	return b
}

type HCase struct {
	Fmt  string
	Via  string
	Max  uint32
	ID   uint32
	Len  uint32
	Tail int
	Cut  int // <8: the header is cut short
}

func genH(t *rapid.T) HCase {
	max := rapid.OneOf(rapid.Just(uint32(0)), rapid.Uint32Range(1, 5000), rapid.Uint32()).Draw(t, "max")
	ln := rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(0, 6000), rapid.Custom(func(t *rapid.T) uint32 {
		return max + uint32(rapid.IntRange(-2, 2).Draw(t, "d"))
	})).Draw(t, "len")
	cut := 8
	if rapid.IntRange(0, 9).Draw(t, "cutq") == 0 {
		cut = rapid.IntRange(0, 7).Draw(t, "cut")
	}
	return HCase{rapid.SampledFrom([]string{"tlv", "ltv"}).Draw(t, "fmt"), rapid.SampledFrom([]string{"factory", "ctor"}).Draw(t, "via"),
		max, genID(t), ln, rapid.IntRange(0, 5).Draw(t, "tail"), cut}
}

func runH(c HCase, rec *hx.Rec) error {
	zconf.GlobalObject.MaxPacketSize = c.Max
	h := layout(c.Fmt, c.ID, nil)
	if c.Fmt == "tlv" {
		binary.BigEndian.PutUint32(h[4:], c.Len)
	} else {
		binary.LittleEndian.PutUint32(h, c.Len)
	}
	h = append(h, hx.Fill(3, c.Tail)...)
	dp := packer(c.Fmt, c.Via)
	if c.Cut < 8 {
		if m, err := dp.Unpack(h[:c.Cut]); err == nil {
			return fmt.Errorf("a %d-byte header was accepted: %v", c.Cut, m)
		}
		return nil
	}
	m, err := dp.Unpack(h)
	tooBig := c.Max > 0 && c.Len > c.Max
	rec.Label(tooBig, "refused")
	rec.Label(c.Max > 0 && c.Len == c.Max, "at limit")
	rec.Nontrivial(true)
	if tooBig {
		if err == nil {
			return fmt.Errorf("declared %d > max %d accepted", c.Len, c.Max)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("declared %d, max %d refused: %v", c.Len, c.Max, err)
	}
	if m.GetMsgID() != c.ID || m.GetDataLen() != c.Len {
		return fmt.Errorf("read id %d len %d, want %d %d", m.GetMsgID(), m.GetDataLen(), c.ID, c.Len)
	}
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:   "C02",
		Rule: "1-6 messages of generated id and payload (0-200 kB) packed by each built-in packer, cut into generated chunks, framed and decoded by the matching decoder inside an interceptor chain; headers with generated declared lengths around the configured maximum. Oracle: independent byte layout, equality after the round trip, limit rule. Non-trivial: a non-empty payload or several messages; every complete header case.",
		Facets: []hx.Facet{
			hx.F("roundtrip", 24000, 800000, gen, run),
			hx.F("header", 40000, 2000000, genH, runH),
		},
	})
}
