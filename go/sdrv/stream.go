package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// ints writes bytes as a list of numbers.
type ints []byte

func (b ints) MarshalJSON() ([]byte, error) {
	o := make([]int, len(b))
	for i, x := range b {
		o[i] = int(x)
	}
	return json.Marshal(o)
}

var textRx = regexp.MustCompile(`text-\d+[^\n]*-end`)

const metaHead = `<?xml version="1.0"?><DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ext="urn:schemas-microsoft-com:xml-msdata"><xs:element name="DataSet"><xs:complexType><xs:choice minOccurs="0" maxOccurs="unbounded"><xs:element name="MeasurementDetail"><xs:complexType><xs:sequence><xs:element name="SignalID" ext:DataType="System.Guid" type="xs:string" minOccurs="0" /><xs:element name="ID" type="xs:string" minOccurs="0" /><xs:element name="Description" type="xs:string" minOccurs="0" /></xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema>`

// smsg is one message of the publisher; m is its record for the specification.
type smsg struct {
	m   ev
	raw []byte
	udp bool
}

func swapped(g [16]byte) [16]byte {
	return [16]byte{g[3], g[2], g[1], g[0], g[5], g[4], g[7], g[6], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15]}
}

// spub makes the messages of one connection.
type spub struct {
	rng    *rand.Rand
	opt    *sopt
	slots  [2][]rec
	encs   [2]*tenc
	base   [2]uint64
	keys   [][2][]byte
	blocks [][]byte // sent or not, by sequence number
	n      int
	tag    string
	inc    int
}

type sopt struct {
	ver                         int
	time, ms, swap, zsic, zmeta bool
}

func (p *spub) pick(n int) int        { return p.rng.Intn(n) }
func (p *spub) chance(x float64) bool { return p.rng.Float64() < x }

func (p *spub) msg(code, cmd int, payload []byte, m ev) *smsg {
	raw := packet(code, cmd, payload)
	m["e"] = "tx"
	m["code"] = code
	m["cmd"] = cmd
	m["n"] = len(raw)
	m["udp"] = false
	return &smsg{m: m, raw: raw}
}

func (p *spub) text(big bool) string {
	p.n++
	fill := ""
	for k := p.pick(12); k > 0; k-- {
		fill += string([]rune("abcxyz &<>\"'äλ∑{};=")[p.pick(19)])
	}
	if big {
		fill += strings.Repeat("0123456789abcdef", 2000+p.pick(3000))
	}
	return fmt.Sprintf("text-%d%s%s-end", p.n, p.tag, fill)
}

func (p *spub) reply(ok bool, cmd int) *smsg {
	t := ""
	if p.chance(0.7) {
		t = p.text(false)
	}
	code := rspOK
	if !ok {
		code = rspFail
	}
	return p.msg(code, cmd, []byte(t), ev{"text": t})
}

func (p *spub) cache(slot int, bad bool) *smsg {
	var rs []rec
	used := map[int32]bool{}
	for k := 1 + p.pick(5); k > 0; k-- {
		i := int32(p.pick(8))
		if p.chance(0.2) {
			i = int32(p.rng.Uint32())
		}
		if used[i] {
			continue
		}
		used[i] = true
		p.inc++
		id := sigID(p.inc*7 + p.pick(7) + 1)
		rs = append(rs, rec{i, id, []string{"PPA", "S", "", "SRC-α"}[p.pick(4)], p.rng.Uint64() >> uint(p.pick(64))})
	}
	sid := sigID(200 + p.pick(50))
	wire := append([]rec{}, rs...)
	wsid := sid
	if p.opt.swap {
		for i := range wire {
			wire[i].ID = swapped(wire[i].ID)
		}
		wsid = swapped(sid)
	}
	b := sicBody(wsid, wire)
	if p.chance(0.3) {
		b = append(b, u32(0)...) // list of unauthorized signals
	}
	out := b
	if p.opt.zsic {
		out = gz(b)
	}
	m := ev{"slot": slot, "b": ints(b), "ok": true}
	if bad {
		switch p.pick(3) {
		case 0:
			b = b[:p.pick(len(b))]
			out = b
			if p.opt.zsic {
				out = gz(b)
			}
			m["b"] = ints(b)
		default:
			if p.opt.zsic {
				out = b
				m["ok"] = false
			} else {
				b = b[:len(b)-9]
				out = b
				m["b"] = ints(b)
			}
		}
	} else {
		w := 0
		if p.opt.ver > 1 && slot > 0 {
			w = 1
		}
		p.slots[w] = rs
		p.encs[w] = nil
	}
	if p.opt.ver > 1 {
		out = cat([]byte{byte(slot)}, out)
	}
	return p.msg(rspCache, cmdSubscribe, out, m)
}

// cutShort sends a part of the message only.
func (p *spub) cutShort(code int, b []byte) *smsg {
	b = b[:p.pick(len(b))]
	return p.msg(code, cmdSubscribe, b, ev{"b": ints(b)})
}

func (p *spub) baseTimes(bad bool) *smsg {
	old := p.base
	now := uint64(638000000000000000) + uint64(p.pick(1<<30))
	p.base = [2]uint64{now, now + uint64(p.pick(1<<30))}
	b := cat(u32(uint32(p.pick(2))), u64(p.base[0]), u64(p.base[1]))
	if bad {
		p.base = old
		return p.cutShort(rspTimes, b)
	}
	return p.msg(rspTimes, cmdSubscribe, b, ev{"b": ints(b)})
}

func (p *spub) newKeys(bad bool) *smsg {
	old := p.keys
	p.keys = nil
	b := []byte{byte(p.pick(2))}
	for i := 0; i < 2; i++ {
		k := make([]byte, []int{16, 24, 32}[p.pick(3)])
		iv := make([]byte, 16)
		p.rng.Read(k)
		p.rng.Read(iv)
		p.keys = append(p.keys, [2][]byte{k, iv})
		b = cat(b, u32(uint32(len(k))), k, u32(16), iv)
	}
	if bad {
		p.keys = old
		return p.cutShort(rspKeys, b)
	}
	return p.msg(rspKeys, cmdSubscribe, b, ev{"b": ints(b)})
}

func (p *spub) index(w int) int32 {
	if s := p.slots[w]; len(s) > 0 && !p.chance(0.12) {
		return s[p.pick(len(s))].Index
	}
	return int32(p.pick(9))
}

// quiet makes NaNs quiet ones: the others do not survive conversion to 64 bits on this hardware.
func quiet(v uint32) uint32 {
	if v&0x7f800000 == 0x7f800000 && v&0x7fffff != 0 {
		v |= 0x400000
	}
	return v
}

func (p *spub) value() uint32 { return quiet(p.value0()) }

func (p *spub) value0() uint32 {
	switch p.pick(6) {
	case 0:
		return 0
	case 1:
		return p.rng.Uint32()
	case 2:
		return math.Float32bits(float32(p.pick(100)))
	case 3:
		return []uint32{0x7f800000, 0xff800000, 0x7fc00001, 0x80000000, 1, 0x7f7fffff}[p.pick(6)]
	}
	return math.Float32bits(60 + float32(p.rng.NormFloat64())*0.01)
}

func (p *spub) stamp() uint64 {
	switch p.pick(8) {
	case 0:
		return p.rng.Uint64()
	case 1:
		return 1<<63 | uint64(638000000000000000+p.pick(1000)*10000)
	case 2:
		return 1<<62 | uint64(638000000000000000+p.pick(1000)*10000)
	}
	return uint64(638000000000000000 + p.pick(1<<30))
}

// dataPacket makes a compact or compressed packet for a slot.
func (p *spub) dataPacket(w int, compressed, bad bool) *smsg {
	flags := byte(0)
	if w == 1 {
		flags |= 0x10
	}
	if p.chance(0.2) {
		flags |= []byte{0x01, 0x20, 0x40, 0x80}[p.pick(4)]
	}
	n := 1 + p.pick(5)
	if p.chance(0.1) {
		n = 6 + p.pick(30)
	}
	if p.chance(0.03) {
		n = 0
	}
	var b []byte
	if compressed {
		flags |= 0x08
		if p.chance(0.5) {
			flags |= 0x02
		}
		b = p.tsscPacket(w, n, bad)
	} else {
		flags |= 0x02
		b = u32(uint32(n))
		for i := 0; i < n; i++ {
			f := byte(p.rng.Intn(256))
			if p.chance(0.3) {
				f = 0
			}
			if p.base[0] == 0 || p.chance(0.3) {
				f &^= 0x40
			}
			b = cat(b, []byte{f}, u32(uint32(p.index(w))), u32(p.value()))
			if !p.opt.time {
				continue
			}
			switch {
			case f&0x40 == 0:
				b = cat(b, u64(p.stamp()))
			case p.opt.ms:
				b = cat(b, u16([]int{0, 1, 65535, p.pick(65536)}[p.pick(4)]))
			default:
				b = cat(b, u32([]uint32{0, 1, 0xffffffff, p.rng.Uint32()}[p.pick(4)]))
			}
		}
		if bad && len(b) > 4 {
			b = b[:4+p.pick(len(b)-4)]
		} else if p.chance(0.05) {
			b = append(b, byte(p.pick(256)))
		}
	}
	return p.seal(flags, b, false)
}

// seal enciphers the packet when keys have been sent.
func (p *spub) seal(flags byte, b []byte, bad bool) *smsg {
	m := ev{"key": ints(nil), "iv": ints(nil)}
	out := b
	if p.keys != nil {
		i := p.pick(2)
		if i == 1 {
			flags |= 0x04
		}
		for len(b)%16 != 0 {
			b = append(b, byte(p.pick(256)))
		}
		k := p.keys[i]
		c, _ := aes.NewCipher(k[0])
		out = make([]byte, len(b))
		cipher.NewCBCEncrypter(c, k[1]).CryptBlocks(out, b)
		m["key"], m["iv"] = ints(k[0]), ints(k[1])
		if bad {
			out = out[:len(out)-1-p.pick(15)]
		}
	}
	m["b"] = ints(cat([]byte{flags}, b))
	m["len"] = len(out)
	return p.msg(rspData, cmdSubscribe, cat([]byte{flags}, out), m)
}

// tsscPacket makes count and contents of a compressed packet; bad ones are out of sequence.
func (p *spub) tsscPacket(w, n int, bad bool) []byte {
	e := p.encs[w]
	if e == nil || p.chance(0.04) {
		e = newTEnc(p.rng, []float64{0, 0, 0.05, 0.3}[p.pick(4)])
		p.encs[w] = e
	}
	if bad {
		s := e.seq
		for s == e.seq || s == 0 {
			s = []int{e.seq + 1, e.seq - 1, p.pick(65536)}[p.pick(3)] & 0xffff
		}
		g := newTEnc(p.rng, 0)
		for i := 0; i < n; i++ {
			g.add(p.tmeas(w, g, i))
		}
		return cat(u32(uint32(n)), []byte{85}, u16(s), g.finish())
	}
	for i := 0; i < n; i++ {
		e.add(p.tmeas(w, e, i))
	}
	b := cat(u32(uint32(n)), []byte{85}, u16(e.seq), e.finish())
	e.seq = (e.seq + 1) & 0xffff
	if e.seq == 0 {
		e.seq = 1
	}
	return b
}

// empties makes k compressed packets without measurements for slot 0.
func (p *spub) empties(k int) *smsg {
	e := p.encs[0]
	var raw []byte
	for i := 0; i < k; i++ {
		raw = append(raw, packet(rspData, cmdSubscribe, cat([]byte{0x0a}, u32(0), []byte{85}, u16(e.seq)))...)
		if e.seq++; e.seq == 65536 {
			e.seq = 1
		}
	}
	m := p.msg(rspData, cmdSubscribe, nil, ev{"rep": k})
	m.raw = raw
	m.m["n"] = len(raw)
	return m
}

func (p *spub) tmeas(w int, e *tenc, i int) tmeas {
	m := tmeas{id: p.index(w), t: e.t1, v: p.value()}
	if s := p.slots[w]; len(s) > 0 && p.chance(0.5) {
		m.id = s[i%len(s)].Index
	}
	pt := e.pts[m.id]
	switch p.pick(9) {
	case 0, 1, 2, 3:
	case 4:
		m.t = int64(p.stamp())
	case 5:
		m.t = e.t2
	case 6:
		d := e.d[p.pick(4)]
		if p.chance(0.5) {
			d = -d
		}
		m.t = e.t1 + d
	default:
		m.t = e.t1 + int64([]int{333333, 166667, 1, -333333, 10000, 20000, 30000}[p.pick(7)])
	}
	if pt != nil {
		m.flags = pt.f1
		switch p.pick(8) {
		case 0:
			m.flags = pt.f2
		case 1:
			m.flags = p.rng.Uint32() >> uint(p.pick(32))
		}
		switch p.pick(8) {
		case 0:
			m.v = pt.v1
		case 1:
			m.v = pt.v2
		case 2:
			m.v = pt.v3
		case 3, 4:
			m.v = pt.v1 ^ (p.rng.Uint32() >> uint(p.pick(32)))
		}
	} else if p.chance(0.3) {
		m.flags = p.rng.Uint32() >> uint(p.pick(32))
	}
	m.v = quiet(m.v)
	return m
}

func (p *spub) start() *smsg {
	b := u64(uint64(638000000000000000 + p.pick(1<<30)*1000))
	return p.msg(rspStart, 0, b, ev{"b": ints(b)})
}

func (p *spub) note(big bool) *smsg {
	t := p.text(big)
	h := make([]byte, 4)
	p.rng.Read(h)
	return p.msg(rspNotify, 0, cat(h, []byte(t)), ev{"ok": true, "text": t, "hash": ints(h)})
}

func (p *spub) meta(big, bad bool) *smsg {
	rows := []string{}
	x := metaHead
	for k := p.pick(4); k >= 0; k-- {
		t := p.text(big)
		// plain characters: escaping is the subject of the data set property
		t = strings.Map(func(c rune) rune {
			if strings.ContainsRune("&<>\"'", c) {
				return '_'
			}
			return c
		}, t)
		rows = append(rows, t)
		p.inc++
		x += fmt.Sprintf("<MeasurementDetail><SignalID>%s</SignalID><ID>PPA:%d</ID><Description>%s</Description></MeasurementDetail>", guid.Guid(sigID(p.inc)).String(), k+1, t)
	}
	b := []byte(x + "</DataSet>")
	if p.opt.zmeta {
		b = gz(b)
		if bad {
			b = b[:len(b)/2]
		}
	} else if bad {
		b = b[:len(b)/2]
	}
	return p.msg(rspOK, cmdMetadata, b, ev{"rows": rows, "ok": !bad})
}

func (p *spub) blockMsg(seq int) *smsg {
	for len(p.blocks) <= seq {
		x := make([]byte, p.pick(6))
		p.rng.Read(x)
		p.blocks = append(p.blocks, x)
	}
	slot := p.pick(3)
	w := 0
	if slot > 0 && p.opt.ver > 1 {
		w = 1
	}
	b := u32(uint32(seq))
	if p.opt.ver > 1 {
		b = append(b, byte(slot))
	}
	b = cat(b, u32(uint32(p.index(w))), p.blocks[seq])
	return p.msg(rspBlock, cmdSubscribe, b, ev{"b": ints(b)})
}

// sact is one thing that happens at the publisher.
type sact struct {
	m      *smsg
	gap    int
	settle bool
	rest   bool
	cut    bool
	wild   []byte
}

// garble makes bytes that are no message, mostly from a message.
func (p *spub) garble() []byte {
	ms := []func() *smsg{
		func() *smsg { return p.reply(p.chance(0.5), []int{cmdModes, cmdSubscribe, cmdUnsubscribe}[p.pick(3)]) },
		func() *smsg { return p.cache(p.pick(2), false) }, func() *smsg { return p.cache(p.pick(2), true) },
		func() *smsg { return p.baseTimes(false) }, func() *smsg { return p.newKeys(false) },
		func() *smsg { return p.dataPacket(p.pick(2), false, false) }, func() *smsg { return p.dataPacket(p.pick(2), false, true) },
		func() *smsg { return p.dataPacket(p.pick(2), true, false) }, func() *smsg { return p.dataPacket(p.pick(2), true, false) },
		p.start, func() *smsg { return p.note(false) }, func() *smsg { return p.meta(false, p.chance(0.3)) },
		func() *smsg { return p.blockMsg(p.pick(3)) },
		func() *smsg { return p.msg([]int{rspDone, rspChanged, rspNoOP}[p.pick(3)], 0, nil, ev{}) },
	}
	var out []byte
	for k := p.pick(3); k >= 0; k-- {
		b := append([]byte{}, ms[p.pick(len(ms))]().raw...)
		frame := func() { binary.BigEndian.PutUint32(b, uint32(len(b)-4)) }
		for j := p.pick(2); j >= 0; j-- {
			if len(b) < 10 {
				break
			}
			switch p.pick(9) {
			case 0: // cut off, in a frame of its length
				b = b[:4+p.pick(len(b)-3)]
				frame()
			case 1: // shorter than its header
				b = b[:4+p.pick(7)]
				frame()
			case 2: // some bytes changed
				for i := 1 + p.pick(4); i > 0; i-- {
					b[4+p.pick(len(b)-4)] = byte(p.pick(256))
				}
			case 3, 4: // an extreme number somewhere
				if len(b) > 14 {
					binary.BigEndian.PutUint32(b[6+p.pick(len(b)-10):], []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000, 255, 0xfffffffc}[p.pick(8)])
				}
			case 5: // the frame says another length
				binary.BigEndian.PutUint32(b, []uint32{0, 1, 5, uint32(len(b)), uint32(len(b) - 5), 0x2000, 0x100000}[p.pick(7)])
			case 6: // more bytes
				x := make([]byte, 1+p.pick(40))
				p.rng.Read(x)
				b = append(b, x...)
				if p.chance(0.8) {
					frame()
				}
			case 7: // another code
				b[4] = byte(128 + p.pick(12))
			case 8: // a piece left out
				i := 4 + p.pick(len(b)-4)
				l := 1 + p.pick(len(b)-i)
				b = append(b[:i:i], b[i+l:]...)
				frame()
			}
		}
		out = append(out, b...)
	}
	if p.chance(0.1) {
		out = make([]byte, 5+p.pick(60))
		p.rng.Read(out)
		out[0], out[1] = 0, byte(p.pick(2))
	}
	return out
}

func probe(c *transport.SignalIndexCache, extra []int32) ev {
	ids := []ints{}
	for id := range c.SignalIDs() {
		g := id
		ids = append(ids, ints(g[:]))
	}
	var ps []ev
	for _, i := range extra {
		id := c.SignalID(i)
		rid, rs, rn, ok := c.Record(i)
		p := ev{"i": ints(u32(uint32(i))), "has": c.Contains(i), "id": ints(id[:]), "src": ints(c.Source(i)), "num": ints(u64(c.ID(i))), "rec": ok, "back": ints(u32(uint32(c.SignalIndex(id))))}
		if ok && (rid != id || rs != c.Source(i) || rn != c.ID(i)) {
			p["rec"] = false
		}
		ps = append(ps, p)
	}
	return ev{"count": c.Count(), "ids": ids, "probes": ps}
}

// planned turns a behaviour generated from the specification into messages.
func planned(r *run, o *sopt) [][]sact {
	var ms []struct {
		Sym, Text        string
		Code, Cmd, Slot  int
		B, Key, IV, Hash []int
		Rows             []string
	}
	if err := json.Unmarshal(r.plan, &ms); err != nil {
		panic(err)
	}
	bs := func(l []int) []byte {
		b := make([]byte, len(l))
		for i, x := range l {
			b[i] = byte(x)
		}
		return b
	}
	p := &spub{rng: r.rng, opt: o}
	first := []sact{{m: p.reply(true, cmdModes)}}
	res := [][]sact{}
	s := first
	for _, x := range ms {
		if x.Sym == "W" {
			q := &spub{rng: r.rng, opt: o, slots: [2][]rec{{{1, sigID(1), "S", 1}}, nil}}
			s = append(s, sact{rest: true}, sact{wild: q.garble()})
			continue
		}
		if x.Sym == "cut" {
			s = append(s, sact{rest: true}, sact{cut: true})
			res = append(res, s)
			s = []sact{{m: p.reply(true, cmdModes)}}
			continue
		}
		b := bs(x.B)
		m := ev{"b": ints(b), "ok": true, "text": x.Text, "rows": x.Rows, "hash": ints(bs(x.Hash)), "slot": x.Slot}
		out := b
		switch x.Code {
		case rspData:
			m["key"], m["iv"], m["len"] = ints(bs(x.Key)), ints(bs(x.IV)), len(b)-1
			if len(x.Key) > 0 {
				c, _ := aes.NewCipher(bs(x.Key))
				out = cat(b[:1], make([]byte, len(b)-1))
				cipher.NewCBCEncrypter(c, bs(x.IV)).CryptBlocks(out[1:], b[1:])
			}
		case rspCache:
			if o.zsic {
				out = gz(b)
			}
			out = cat([]byte{byte(x.Slot)}, out)
		case rspNotify:
			out = cat(bs(x.Hash), []byte(x.Text))
		case rspOK, rspFail:
			out = []byte(x.Text)
			if x.Cmd == cmdMetadata {
				d := metaHead
				for i, t := range x.Rows {
					d += fmt.Sprintf("<MeasurementDetail><SignalID>%s</SignalID><ID>PPA:%d</ID><Description>%s</Description></MeasurementDetail>", guid.Guid(sigID(i+1)).String(), i+1, t)
				}
				out = []byte(d + "</DataSet>")
				if o.zmeta {
					out = gz(out)
				}
			}
		}
		a := sact{m: p.msg(x.Code, x.Cmd, out, m)}
		switch r.pick(8) {
		case 0:
			a.gap = 1
		case 1:
			a.settle = true
		}
		s = append(s, a)
		if r.chance(0.1) {
			s = append(s, sact{rest: true})
		}
	}
	return append(res, s)
}

func init() {
	scns["stream"] = func(r *run) {
		o := &sopt{ver: 2, time: r.chance(0.8), ms: r.chance(0.5), swap: r.chance(0.3), zsic: r.chance(0.4), zmeta: r.chance(0.4)}
		prof := *prof
		if r.chance(0.12) {
			o.ver = 1
		}
		r.cfg["opt"] = ev{"ver": o.ver, "time": o.time, "ms": o.ms, "swap": o.swap}
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = r.chance(0.7)
		cfg.RetryInterval = 5
		cfg.MaxRetries = 40
		cfg.AutoRequestMetadata = false
		cfg.AutoSubscribe = r.chance(0.5)
		cfg.CompressPayloadData = r.chance(0.5)
		cfg.CompressMetadata = o.zmeta
		cfg.CompressSignalIndexCache = o.zsic
		cfg.RfcGuidEncoding = !o.swap
		cfg.Version = byte(o.ver)
		udp := 0
		if (prof == "" || prof == "wild") && r.chance(0.2) {
			udp = 9700
			cfg.AutoSubscribe = true
		}
		nconn := 1 + r.pick(3)
		if prof == "roll" {
			nconn = 1
		}
		if (prof == "wild" || prof == "reverse") && nconn < 2 {
			nconn = 2
		}
		weights := map[string][]int{
			//         cache base keys cmpct tssc start note meta block reply other changed done
			"wild":    {10, 5, 3, 30, 12, 3, 3, 3, 5, 4, 3, 2, 2},
			"":        {10, 5, 1, 30, 6, 3, 3, 3, 5, 4, 3, 2, 2},
			"reverse": {10, 5, 3, 20, 10, 3, 3, 3, 12, 4, 3, 2, 2},
			"data":    {10, 8, 0, 50, 0, 1, 0, 0, 0, 0, 0, 0, 0},
			"tssc":    {6, 0, 0, 2, 50, 0, 0, 0, 0, 0, 0, 0, 0},
			"cache":   {30, 1, 0, 30, 5, 0, 0, 0, 10, 0, 0, 0, 0},
			"block":   {4, 0, 0, 2, 0, 0, 0, 0, 50, 0, 0, 0, 0},
			"msgs":    {2, 1, 0, 2, 0, 20, 20, 20, 2, 20, 10, 10, 10},
			"roll":    {0, 0, 0, 0, 10, 0, 0, 0, 0, 0, 0, 0, 0},
			"enc":     {6, 2, 14, 30, 12, 1, 0, 0, 0, 0, 0, 0, 0},
			"seg":     {6, 2, 0, 12, 6, 6, 16, 12, 6, 3, 3, 3, 3},
		}[prof]
		total := 0
		for _, w := range weights {
			total += w
		}
		tsscBad := r.chance(0.3)
		badRate := 0.0
		if r.chance(0.25) {
			badRate = 0.06
		}
		probes := []int32{}
		var scripts [][]sact
		if r.plan != nil {
			nconn = 0
			o.ver, o.time, o.ms, o.swap, o.zsic, o.zmeta = 2, true, false, false, r.chance(0.3), r.chance(0.3)
			r.cfg["opt"] = ev{"ver": o.ver, "time": o.time, "ms": o.ms, "swap": o.swap}
			cfg.CompressMetadata, cfg.CompressSignalIndexCache, cfg.RfcGuidEncoding, cfg.Version = o.zmeta, o.zsic, true, 2
			scripts = planned(r, o)
		}
		for ci := 0; ci < nconn; ci++ {
			p := &spub{rng: r.rng, opt: o, tag: fmt.Sprint("c", ci), inc: ci * 3}
			var s []sact
			push := func(m *smsg) {
				a := sact{m: m}
				switch r.pick(8) {
				case 0:
					a.gap = 1 + r.pick(3)
				case 1:
					a.settle = true
				}
				if m.udp {
					a.settle = true
				}
				s = append(s, a)
			}
			// first response
			switch {
			case o.ver < 2:
			case prof == "msgs" && r.chance(0.08):
				push(p.meta(false, false))
			case prof == "msgs" && r.chance(0.04):
				m := p.reply(true, cmdModes)
				m = p.msg(rspOK, cmdModes, []byte(strings.Repeat("x", 8193)), ev{"text": ""})
				push(m)
			case prof == "msgs" && r.chance(0.05):
				// another protocol, or the beginning of a message that is too long
				m := p.msg(rspOK, cmdModes, nil, ev{"text": ""})
				m.raw = []byte([]string{"GET / HTTP/1.1\r\n\r\n", "\x80\x00\x00\x00", "\xff\xff\xff\xff\x80\x06", "\x16\x03\x01\x02\x00\x01", "\x80\x00\x00\x06\x80\x06\x00\x00\x00\x00", "\x00\x00\x20\x07\x80\x06"}[r.pick(6)])
				m.m["n"] = 1 << 20
				push(m)
			case r.chance(0.1):
				push(p.msg(rspNoOP, 0, nil, ev{}))
			case prof == "msgs" && r.chance(0.08):
				push(p.reply(false, cmdModes))
			default:
				push(p.reply(true, cmdModes))
			}
			if prof == "roll" {
				push(p.cache(0, false))
				for k := 1 + r.pick(4); k > 0; k-- {
					push(p.dataPacket(0, true, false))
				}
				if p.encs[0] == nil {
					panic("no encoder")
				}
				push(p.empties(65536 - r.pick(8) - p.encs[0].seq))
				r.budget = 60000000
			}
			var wanted []int // blocks to send, in some order
			var stepN int
			nmsg := 4 + r.pick(14)
			if prof == "tssc" && r.chance(0.15) {
				nmsg = 60
			}
			for stepN = 0; stepN < nmsg; stepN++ {
				k := r.pick(total)
				which := 0
				for k >= weights[which] {
					k -= weights[which]
					which++
				}
				bad := r.chance(badRate)
				w := r.pick(2)
				if o.ver < 2 {
					w = 0
				}
				var m *smsg
				switch which {
				case 0:
					slot := []int{0, 1, 1, 0, 7}[r.pick(5)]
					m = p.cache(slot, bad && r.chance(0.5))
				case 1:
					m = p.baseTimes(bad && r.chance(0.5) || prof == "enc" && r.chance(0.05))
				case 2:
					m = p.newKeys(bad && r.chance(0.5) || prof == "enc" && r.chance(0.15))
				case 3:
					if len(p.slots[w]) == 0 && r.chance(0.7) {
						w = 1 - w
						if o.ver < 2 {
							w = 0
						}
					}
					m = p.dataPacket(w, false, bad && r.chance(0.3))
				case 4:
					if len(p.slots[w]) == 0 {
						w = 1 - w
					}
					if len(p.slots[w]) == 0 {
						m = p.cache(0, false)
						break
					}
					m = p.dataPacket(w, true, tsscBad && r.chance(0.2))
				case 5:
					m = p.start()
				case 6:
					m = p.note(prof == "seg" && r.chance(0.15))
				case 7:
					m = p.meta(prof == "seg" && r.chance(0.08), bad)
				case 8:
					if len(wanted) == 0 {
						n := len(p.blocks)
						for i := 0; i < 1+r.pick(5); i++ {
							wanted = append(wanted, n+i)
							if r.chance(0.25) {
								wanted = append(wanted, n+i)
							}
						}
						if r.chance(0.5) {
							r.rng.Shuffle(len(wanted), func(i, j int) { wanted[i], wanted[j] = wanted[j], wanted[i] })
						}
						if n > 0 && r.chance(0.3) {
							wanted = append(wanted, r.pick(n))
						}
					}
					m = p.blockMsg(wanted[0])
					wanted = wanted[1:]
				case 9:
					m = p.reply(r.chance(0.7), []int{cmdSubscribe, cmdSubscribe, cmdUnsubscribe, cmdRotateKeys, cmdInterval, cmdModes}[r.pick(6)])
				case 10:
					switch r.pick(4) {
					case 0:
						m = p.msg(rspNoOP, 0, []byte{1, 2}[:r.pick(3)], ev{})
					case 1:
						m = p.msg(rspOK, cmdConfirmNotify+r.pick(20), nil, ev{"text": "", "rows": []string{}, "ok": true})
					case 2:
						c := 0x8B + r.pick(20)
						m = p.msg(c, r.pick(12), []byte{9, 9, 9}, ev{})
					case 3:
						m = p.msg(r.pick(0x80), r.pick(12), []byte{}, ev{})
					}
				case 11:
					m = p.msg(rspChanged, 0, nil, ev{})
				case 12:
					t := p.text(false)
					m = p.msg(rspDone, 0, []byte(t), ev{"text": t})
				}
				if prof == "enc" && p.keys != nil && r.chance(0.03) {
					m = p.seal(2, u32(0), true)
				}
				if udp > 0 && (which == 3 || which == 8) && m.m["code"] != rspCache && r.chance(0.6) && stepN > 2 {
					m.udp = true
					m.raw = m.raw[4:]
					m.m["udp"] = true
				}
				push(m)
				if r.chance(0.12) {
					s = append(s, sact{rest: true})
				}
			}
			if r.chance(0.6) {
				s = append(s, sact{rest: true})
			}
			if prof == "wild" && ci < nconn-1 {
				at := 1 + r.pick(len(s))
				if r.chance(0.1) {
					at = 0
				}
				udpw := udp > 0 && at > 3 && r.chance(0.5)
				w := sact{wild: p.garble(), settle: r.chance(0.5)}
				if udpw {
					w.m = &smsg{udp: true}
					w.wild = w.wild[4:]
				}
				s = append(s[:at:at], append([]sact{w}, s[at:]...)...)
			}
			if ci < nconn-1 {
				s = append(s, sact{cut: true})
			}
			for _, sl := range p.slots {
				for _, x := range sl {
					probes = append(probes, x.Index)
				}
			}
			scripts = append(scripts, s)
		}
		for i := int32(-1); i < 9; i++ {
			probes = append(probes, i)
		}
		seg := 0
		if prof == "seg" || r.chance(0.2) {
			seg = 1 + r.pick(3)
		}
		// what the application does meanwhile
		var app []string
		if prof == "seg" {
			for k := r.pick(6); k > 0; k-- {
				app = append(app, []string{"sub", "unsub", "meta", "wait"}[r.pick(4)])
			}
		}
		put := r.chance(0.5)
		reverse := prof == "reverse" || r.chance(0.25)
		segRng := rand.New(rand.NewSource(r.rng.Int63()))
		r.body = func() {
			sub := sttp.NewSubscriber()
			text := func(kind string) func(string) {
				return func(m string) {
					if *dbg {
						println(vsched.Now()/1000000, kind, m)
					}
					if kind == "error" && (len(r.events) == 0 || r.events[len(r.events)-1]["e"] != "err") {
						r.log(ev{"e": "err"})
					}
					if t := textRx.FindString(m); t != "" && !strings.HasPrefix(m, "NOTIFICATION") {
						r.log(ev{"e": kind, "x": t})
					}
				}
			}
			sub.SetStatusMessageLogger(text("status"))
			sub.SetErrorMessageLogger(text("error"))
			sub.SetConnectionEstablishedReceiver(nil)
			sub.SetConnectionTerminatedReceiver(func() { r.log(ev{"e": "T"}) })
			sub.SetNewMeasurementsReceiver(func(ms *[]transport.Measurement) {
				var l []ev
				for _, m := range *ms {
					v := float32(m.Value)
					id := m.SignalID
					exact := float64(v) == m.Value || m.Value != m.Value
					bits := math.Float32bits(v)
					l = append(l, ev{"id": ints(id[:]), "v": ints(u32(bits)), "x": exact, "t": ints(u64(uint64(m.Timestamp))), "f": ints(u32(uint32(m.Flags)))})
				}
				if len(l) > 0 {
					r.log(ev{"e": "data", "m": l})
				}
				if put {
					sub.PutMeasurementSlice(ms)
				}
			})
			sub.SetNewBufferBlocksReceiver(func(bs []transport.BufferBlock) {
				var l []ev
				for _, b := range bs {
					id := b.SignalID
					l = append(l, ev{"id": ints(id[:]), "p": ints(cat(b.Buffer))})
				}
				r.log(ev{"e": "blocks", "b": l})
			})
			sub.SetDataStartTimeReceiver(func(t time.Time) {
				r.log(ev{"e": "start", "x": ints(u64(uint64((t.Unix()+62135596800)*10000000 + int64(t.Nanosecond())/100)))})
			})
			sub.SetNotificationReceiver(func(s string) { r.log(ev{"e": "note", "x": s}) })
			sub.SetHistoricalReadCompleteReceiver(func() { r.log(ev{"e": "done", "x": ""}) })
			sub.SetConfigurationChangedReceiver(func() { r.log(ev{"e": "changed", "x": ""}) })
			sub.SetSubscriptionUpdatedReceiver(func(c *transport.SignalIndexCache) { r.log(ev{"e": "upd", "q": probe(c, probes)}) })
			sub.SetMetadataReceiver(func(d *data.DataSet) {
				rows := []string{}
				if t := d.Table("MeasurementDetail"); t != nil {
					for i := 0; i < t.RowCount(); i++ {
						v, _, _ := t.Row(i).StringValueByName("Description")
						rows = append(rows, v)
					}
				}
				r.log(ev{"e": "meta", "x": rows})
			})
			var cur *net.TCPConn
			net.OnWrite = func(id int, b []byte) {
				if len(b) < 5 || cur == nil || id != cur.ID {
					return
				}
				switch b[4] {
				case cmdConfirmCache:
					r.log(ev{"e": "cache", "x": ints(cat(b[5:]))})
				case cmdConfirmBlock:
					r.log(ev{"e": "blk", "x": ints(cat(b[5:]))})
				case cmdConfirmNotify:
					r.log(ev{"e": "hash", "x": ints(cat(b[5:]))})
				case cmdSubscribe:
					r.log(ev{"e": "sub"})
				}
			}
			rest := func() {
				vsched.Settle(0)
				id := sub.SubscriberID()
				r.log(ev{"e": "rest", "conn": sub.IsConnected(), "valid": sub.IsValidated(), "subscribed": sub.IsSubscribed(),
					"bytes": sub.TotalCommandChannelBytesReceived(), "meas": sub.TotalMeasurementsReceived(), "subid": ints(id[:])})
				r.log(ev{"e": "active", "q": probe(sub.ActiveSignalIndexCache(), probes)})
			}
			finished := 0
			k := 0
			net.DialHook = func(string) (bool, time.Duration) { return k < len(scripts), 200 * time.Millisecond }
			serve := func(c *net.TCPConn, s []sact) {
				cur = c
				r.log(ev{"e": "conn"})
				vsched.GoNamed("pubin", func() {
					for {
						if _, _, err := readCmd(c); err != nil {
							return
						}
					}
				})
				for _, a := range s {
					if a.gap > 0 {
						vtime.Sleep(time.Duration(a.gap) * time.Millisecond)
					}
					if a.settle || a.rest {
						vsched.Settle(0)
					}
					if c.PeerClosed() {
						break
					}
					switch {
					case a.wild != nil:
						r.log(ev{"e": "wild", "b": ints(a.wild)})
						if a.m != nil {
							net.SendUDP(udp, a.wild)
							vsched.Settle(0)
						} else {
							c.Write(a.wild)
						}
					case a.rest:
						rest()
					case a.cut:
						r.log(ev{"e": "cut"})
						if cfg.AutoReconnect {
							c.Close()
						} else {
							sub.Disconnect()
						}
					case a.m.udp:
						r.log(a.m.m)
						net.SendUDP(udp, a.m.raw)
						vsched.Settle(0)
					default:
						r.log(a.m.m)
						b := a.m.raw
						for len(b) > 0 {
							n := len(b)
							switch seg {
							case 1:
								n = 1 + segRng.Intn(20)
							case 2:
								n = 1
								if len(b) > 60 {
									n = 1 + segRng.Intn(len(b))
								}
							case 3:
								n = []int{3, 4, 5, 9, 10, 11, 4096}[segRng.Intn(7)]
							}
							if len(b) > 20000 && n < 4000 {
								n += 4000
							}
							if n > len(b) {
								n = len(b)
							}
							c.Write(b[:n])
							b = b[n:]
							if seg > 0 && segRng.Intn(4) == 0 {
								vtime.Sleep(time.Millisecond)
							}
						}
					}
				}
				finished++
			}
			net.DialDone = func(_ string, ok bool) {
				if !ok {
					return
				}
				s := scripts[k]
				k++
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					net.Accepted = net.Accepted[1:]
					serve(c, s)
				})
			}
			set := sttp.NewSettings()
			set.IncludeTime = o.time
			set.UseMillisecondResolution = o.ms
			set.UdpPort = uint16(udp)
			sub.Subscribe("FILTER ActiveMeasurements WHERE True", set)
			if len(app) > 0 {
				vsched.GoNamed("app", func() {
					for _, a := range app {
						switch a {
						case "sub":
							sub.Subscribe("X", set)
						case "unsub":
							sub.Unsubscribe()
						case "meta":
							sub.RequestMetadata()
						}
						vtime.Sleep(time.Millisecond)
					}
				})
			}
			// the publisher connects to the subscriber
			for reverse && k < len(scripts) {
				if !sub.IsListening() {
					sub.Listen(":7175", cfg)
				}
				c, err := net.PubDial(7175)
				if err != nil {
					break
				}
				s := scripts[k]
				k++
				vsched.GoNamed("pub", func() { serve(c, s) })
				vsched.Block("script", func() bool { return finished >= k })
				vsched.Settle(500 * time.Millisecond)
				if sub.IsConnected() {
					break
				}
			}
			if !reverse {
				sub.Dial("pub:7165", cfg)
			}
			for !reverse {
				vsched.Block("script", func() bool { return finished >= k })
				vsched.Settle(500 * time.Millisecond)
				if k >= len(scripts) && finished >= k {
					break
				}
				if cfg.AutoReconnect {
					if finished < k {
						continue
					}
					if sub.IsConnected() {
						break
					}
				}
				if !sub.IsConnected() {
					sub.Dial("pub:7165", cfg)
				}
			}
			rest()
			r.log(ev{"e": "cut"})
			sub.Close()
			vsched.Settle(time.Second)
		}
	}
	_ = bytes.Equal
	_ = binary.BigEndian
}
