// C01: byte-stream framing is independent of chunking.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"pgregory.net/rapid"

	"verif/hx"
)

type LF struct {
	Max   uint64
	Off   int
	Len   int
	Adj   int
	Strip int
	Order string // big, little, nil
	Ctor  string // struct, params
}

// Item is one frame of the stream: its total length as declared (Total), and
// whether it is malformed. Body bytes are a function of Seed.
type Item struct {
	Total int64
	Neg   int64 `json:",omitempty"` // 8-byte fields only: a negative declared length
	Cut   int   `json:",omitempty"` // >0: only this many bytes of the frame are in the stream (last item)
	Seed  uint64
}

type Case struct {
	LF     LF
	Items  []Item
	Chunks []int // cycled
	Mutate bool  // scribble over returned frames
}

func (l LF) end() int { return l.Off + l.Len }

func (l LF) order() binary.ByteOrder {
	if l.Order == "little" {
		return binary.LittleEndian
	}
	return binary.BigEndian
}

func (l LF) maxDeclared() int64 {
	switch l.Len {
	case 1:
		return 255
	case 2:
		return 65535
	case 3:
		return 1<<24 - 1
	case 4:
		return 1<<32 - 1
	}
	return 1 << 62
}

func putLen(b []byte, v uint64, l LF) {
	var t [8]byte
	if l.Order == "little" {
		binary.LittleEndian.PutUint64(t[:], v)
		copy(b, t[:l.Len])
	} else {
		binary.BigEndian.PutUint64(t[:], v)
		copy(b, t[8-l.Len:])
	}
}

// reference walks the whole stream once.
type verdict struct {
	frames [][]byte
	ends   []int // stream offset at which frame i is complete
	// a malformed frame: offset at which its header is complete, and at which
	// the whole (declared) frame would be complete
	bad             bool
	badHdr, badFull int
	oversize        int
}

func reference(l LF, s []byte) verdict {
	var v verdict
	p := 0
	e := l.end()
	for {
		if len(s)-p < e {
			return v
		}
		f := s[p+l.Off : p+e]
		var n uint64
		for i := 0; i < l.Len; i++ {
			if l.Order == "little" {
				n |= uint64(f[i]) << (8 * i)
			} else {
				n = n<<8 | uint64(f[i])
			}
		}
		d := int64(n)
		total := d + int64(l.Adj) + int64(e)
		if d < 0 || total < int64(e) {
			v.bad, v.badHdr, v.badFull = true, p+e, p+e
			return v
		}
		if uint64(total) > l.Max {
			v.oversize++
			if int64(len(s)-p) < total {
				return v
			}
			p += int(total)
			continue
		}
		if int64(l.Strip) > total {
			v.bad, v.badHdr, v.badFull = true, p+e, p+int(total)
			return v
		}
		if int64(len(s)-p) < total {
			return v
		}
		v.frames = append(v.frames, s[p+l.Strip:p+int(total)])
		p += int(total)
		v.ends = append(v.ends, p)
	}
}

func build(c Case) []byte {
	var out []byte
	l := c.LF
	for _, it := range c.Items {
		if it.Neg != 0 && l.Len == 8 {
			fr := hx.Fill(it.Seed, l.end()+4)
			putLen(fr[l.Off:], uint64(it.Neg), l)
			out = append(out, fr...)
			continue
		}
		decl := it.Total - int64(l.end()) - int64(l.Adj)
		if decl < 0 || decl > l.maxDeclared() {
			continue
		}
		n := it.Total
		if it.Cut > 0 && int64(it.Cut) < n {
			n = int64(it.Cut)
		}
		if n < int64(l.end()) {
			n = int64(l.end())
		}
		fr := hx.Fill(it.Seed, int(n))
		putLen(fr[l.Off:], uint64(decl), l)
		out = append(out, fr...)
	}
	return out
}

func decoder(l LF) ziface.IFrameDecoder {
	if l.Ctor == "params" {
		return zinterceptor.NewFrameDecoderByParams(l.Max, l.Off, l.Len, l.Adj, l.Strip)
	}
	lf := ziface.LengthField{MaxFrameLength: l.Max, LengthFieldOffset: l.Off, LengthFieldLength: l.Len,
		LengthAdjustment: l.Adj, InitialBytesToStrip: l.Strip}
	switch l.Order {
	case "big":
		lf.Order = binary.BigEndian
	case "little":
		lf.Order = binary.LittleEndian
	}
	return zinterceptor.NewFrameDecoder(lf)
}

func run(c Case, rec *hx.Rec) error {
	s := build(c)
	v := reference(c.LF, s)
	return drive(decoder(c.LF), s, v, c.Chunks, c.Mutate, rec)
}

func drive(d ziface.IFrameDecoder, s []byte, v verdict, chunks []int, mutate bool, rec *hx.Rec) error {
	got := 0
	var held [][]byte
	split := 0
	pos, ci := 0, 0
	for pos < len(s) {
		n := len(s) - pos
		if len(chunks) > 0 {
			if k := chunks[ci%len(chunks)]; k >= 1 && k < n {
				n = k
			}
			ci++
		}
		buf := append([]byte{}, s[pos:pos+n]...)
		pos += n
		var fs [][]byte
		if pan := hx.Call(func() { fs = d.Decode(buf) }); pan != nil {
			if !v.bad || pos < v.badHdr {
				return fmt.Errorf("decoder rejected a well-formed stream after %d of %d bytes: %v", pos, len(s), pan)
			}
			rec.Label(true, "rejected")
			rec.Nontrivial(true)
			return held2(v, held, mutate)
		}
		for i := range buf {
			buf[i] ^= 0xA5 // the caller reuses its read buffer
		}
		for _, f := range fs {
			if got >= len(v.frames) {
				return fmt.Errorf("decoder invented frame #%d (% x) after %d bytes", got, clip(f), pos)
			}
			if !bytes.Equal(f, v.frames[got]) {
				return fmt.Errorf("frame #%d differs: got %d bytes % x, want %d bytes % x", got, len(f), clip(f), len(v.frames[got]), clip(v.frames[got]))
			}
			if v.ends[got] > pos {
				return fmt.Errorf("frame #%d delivered before it was complete", got)
			}
			if mutate {
				for i := range f {
					f[i] = 0x5A
				}
			} else {
				held = append(held, f)
			}
			got++
		}
		// everything complete by now must have been delivered
		if got < len(v.frames) && v.ends[got] <= pos {
			return fmt.Errorf("frame #%d, complete after %d bytes, not delivered after %d bytes", got, v.ends[got], pos)
		}
		if v.bad && pos >= v.badFull {
			return fmt.Errorf("malformed length at stream offset <%d was not rejected after %d bytes", v.badHdr, pos)
		}
		if got < len(v.frames) || pos < len(s) {
			split++
		}
	}
	if got != len(v.frames) {
		return fmt.Errorf("got %d frames, want %d", got, len(v.frames))
	}
	rec.Label(v.oversize > 0, "oversize")
	rec.Label(v.oversize > 0 && len(v.frames) > 0, "oversize+frames")
	rec.Label(len(v.frames) > 1, "multi")
	rec.Label(split > 0, "split")
	rec.Nontrivial(split > 0 && len(v.frames)+v.oversize >= 2)
	return held2(v, held, mutate)
}

func held2(v verdict, held [][]byte, mutate bool) error {
	if mutate {
		return nil
	}
	for i, f := range held {
		if !bytes.Equal(f, v.frames[i]) {
			return fmt.Errorf("frame #%d changed after it was returned", i)
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func genChunks(t *rapid.T) []int {
	switch rapid.IntRange(0, 5).Draw(t, "chunkmode") {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{rapid.IntRange(1, 40).Draw(t, "chunk")}
	case 3:
		return []int{rapid.SampledFrom([]int{512, 1024, 1023, 4096}).Draw(t, "big")}
	default:
		return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 400)), 1, 12).Draw(t, "chunks")
	}
}

func gen(t *rapid.T) Case {
	l := LF{
		Off:   rapid.IntRange(0, 6).Draw(t, "off"),
		Len:   rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(t, "len"),
		Order: rapid.SampledFrom([]string{"big", "little", "nil"}).Draw(t, "order"),
		Ctor:  "struct",
	}
	if l.Order != "little" && rapid.IntRange(0, 3).Draw(t, "ctor") == 0 {
		l.Ctor = "params"
	}
	switch rapid.IntRange(0, 3).Draw(t, "adjmode") {
	case 0, 1:
	case 2:
		l.Adj = rapid.IntRange(0, 8).Draw(t, "adj")
	case 3:
		l.Adj = -rapid.IntRange(0, l.end()+2).Draw(t, "nadj")
	}
	switch rapid.IntRange(0, 2).Draw(t, "stripmode") {
	case 0:
	case 1:
		l.Strip = rapid.IntRange(0, l.end()).Draw(t, "strip")
	case 2:
		l.Strip = rapid.IntRange(0, l.end()+4).Draw(t, "strip2")
	}
	minTotal := int64(l.end())
	if m := int64(l.end() + l.Adj); m > minTotal {
		minTotal = m
	}
	if int64(l.Strip) > minTotal {
		minTotal = int64(l.Strip)
	}
	reach := l.maxDeclared() + int64(l.Adj) + int64(l.end()) // largest declarable total
	switch rapid.IntRange(0, 3).Draw(t, "maxmode") {
	case 0, 1:
		l.Max = uint64(minTotal) + uint64(rapid.IntRange(0, 60).Draw(t, "max"))
	case 2:
		l.Max = uint64(minTotal) + uint64(rapid.IntRange(100, 3000).Draw(t, "max2"))
	case 3:
		l.Max = 1<<32 + 7
	}
	big := int64(300)
	if rapid.IntRange(0, 9).Draw(t, "bigframes") == 0 {
		big = 70000
	}
	lim := reach
	if lim > minTotal+big {
		lim = minTotal + big
	}
	item := rapid.Custom(func(t *rapid.T) Item {
		it := Item{Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
		k := rapid.IntRange(0, 19).Draw(t, "kind")
		switch {
		case k < 2: // boundary
			it.Total = int64(l.Max)
		case k < 3:
			it.Total = minTotal
		case k < 6: // oversize
			it.Total = int64(l.Max) + int64(rapid.IntRange(1, 80).Draw(t, "over"))
		default:
			hi := lim
			if int64(l.Max) < hi {
				hi = int64(l.Max)
			}
			if hi < minTotal {
				hi = minTotal
			}
			it.Total = int64(rapid.Int64Range(minTotal, hi).Draw(t, "total"))
		}
		if it.Total > lim+100 || it.Total > reach {
			it.Total = minTotal
		}
		return it
	})
	c := Case{LF: l, Items: rapid.SliceOfN(item, 0, 8).Draw(t, "items"), Chunks: genChunks(t), Mutate: rapid.Bool().Draw(t, "mutate")}
	switch rapid.IntRange(0, 9).Draw(t, "tail") {
	case 0: // malformed: shorter than its own header
		if l.Adj < 0 {
			lo := int64(l.end() + l.Adj)
			if lo < int64(l.end()) {
				c.Items = append(c.Items, Item{Total: rapid.Int64Range(lo, int64(l.end())-1).Draw(t, "short"), Seed: 7},
					Item{Total: minTotal, Seed: 8}, Item{Total: minTotal, Seed: 9})
			}
		}
	case 1: // malformed: shorter than the bytes to strip
		lo := int64(l.end())
		if m := int64(l.end() + l.Adj); m > lo {
			lo = m
		}
		if int64(l.Strip) > lo {
			c.Items = append(c.Items, Item{Total: rapid.Int64Range(lo, int64(l.Strip)-1).Draw(t, "short2"), Seed: 7}, Item{Total: minTotal, Seed: 8})
		}
	case 2:
		if l.Len == 8 {
			c.Items = append(c.Items, Item{Neg: -rapid.OneOf(rapid.Int64Range(1, 1<<40), rapid.Int64Range(1, 1<<62)).Draw(t, "neg"), Seed: 7}, Item{Total: minTotal, Seed: 8})
		}
	case 3: // truncated tail
		tot := rapid.Int64Range(minTotal, lim).Draw(t, "ttot")
		c.Items = append(c.Items, Item{Total: tot, Cut: rapid.IntRange(1, int(tot)).Draw(t, "cut"), Seed: 5})
	case 4, 5: // the start of a frame in the upper half of what the field can declare
		md := l.maxDeclared()
		decl := rapid.OneOf(rapid.Int64Range(md/2, md), rapid.SampledFrom([]int64{md/2 - 1, md / 2, md/2 + 1, md - 1, md})).Draw(t, "decl")
		if tot := decl + int64(l.Adj) + int64(l.end()); tot >= minTotal {
			c.Items = append(c.Items, Item{Total: tot, Cut: l.end() + rapid.IntRange(0, 600).Draw(t, "hcut"), Seed: 5})
		}
	}
	return c
}

// The built-in decoders' own length fields, with the sizes a real peer produces.
type BCase struct {
	Decoder string
	Bodies  []int
	Chunks  []int
	Mutate  bool
}

func genB(t *rapid.T) BCase {
	d := rapid.SampledFrom([]string{"tlv", "ltv", "htlv"}).Draw(t, "dec")
	size := rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 253, 254, 255}))
	if d != "htlv" {
		size = rapid.OneOf(size, rapid.IntRange(0, 5000), rapid.SampledFrom([]int{1015, 1016, 1017, 4096, 65535, 65536}))
	}
	return BCase{d, rapid.SliceOfN(size, 1, 10).Draw(t, "bodies"), genChunks(t), rapid.Bool().Draw(t, "mutate")}
}

func runB(c BCase, rec *hx.Rec) error {
	var dec ziface.IDecoder
	var s []byte
	var v verdict
	switch c.Decoder {
	case "tlv":
		dec = zdecoder.NewTLVDecoder()
	case "ltv":
		dec = zdecoder.NewLTV_Little_Decoder()
	default:
		dec = zdecoder.NewHTLVCRCDecoder()
	}
	for i, n := range c.Bodies {
		body := hx.Fill(uint64(i+1), n)
		var f []byte
		switch c.Decoder {
		case "tlv":
			f = binary.BigEndian.AppendUint32(f, uint32(i*7+1))
			f = binary.BigEndian.AppendUint32(f, uint32(n))
			f = append(f, body...)
		case "ltv":
			f = binary.LittleEndian.AppendUint32(f, uint32(n))
			f = binary.LittleEndian.AppendUint32(f, uint32(i*7+1))
			f = append(f, body...)
		default:
			f = append(f, 0xA2, byte(i), byte(n))
			f = append(f, body...)
			f = append(f, 0x11, 0x22)
		}
		s = append(s, f...)
		v.frames = append(v.frames, f)
		v.ends = append(v.ends, len(s))
	}
	lf := dec.GetLengthField()
	if lf == nil {
		return fmt.Errorf("decoder %s has no length field", c.Decoder)
	}
	rec.Label(true, c.Decoder)
	return drive(zinterceptor.NewFrameDecoder(*lf), s, v, c.Chunks, c.Mutate, rec)
}

func main() {
	hx.Main(hx.Property{
		ID:          "C01",
		Rule:        "streams of 0-10 frames over generated length-field layouts (offset 0-6, width 1/2/3/4/8, both byte orders, adjustment, stripping, maximum) and over the three built-in decoders' layouts, cut into generated chunks; oracle: a one-pass reference splitter. Non-trivial: at least two frames (or a rejection) and at least one frame split over two reads.",
		Assumptions: []string{"a malformed length is reported by panicking out of Decode, which the connection turns into a close"},
		Facets: []hx.Facet{
			hx.F("layouts", 60000, 3000000, gen, run),
			hx.F("builtin", 15000, 400000, genB, runB),
		},
	})
}
