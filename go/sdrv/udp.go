package main

import (
	"encoding/json"
	"fmt"
	"math"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// uact is one thing done by the publisher or, when op is set, by the application.
type uact struct {
	m         *smsg
	op        string
	calm      bool // nothing else is going on meanwhile
	gap       int
	rest, cut bool
}

func (m *smsg) datagram() *smsg {
	m.udp = true
	m.raw = m.raw[4:]
	m.m["udp"] = true
	return m
}

// halfKeys replaces the keys that are not in use, or makes the first ones.
func (p *spub) halfKeys(use int) *smsg {
	old := p.keys
	m := p.newKeys(false)
	if old != nil {
		p.keys[use] = old[use]
		b := []byte{byte(use)}
		for _, k := range p.keys {
			b = cat(b, u32(uint32(len(k[0]))), k[0], u32(uint32(len(k[1]))), k[1])
		}
		m = p.msg(rspKeys, cmdSubscribe, b, ev{"b": ints(b)})
	}
	return m
}

// sealWith makes dataPacket use one of the keys.
func (p *spub) packetWith(w, use int) *smsg {
	if p.keys == nil {
		return p.dataPacket(w, false, false)
	}
	keep := p.keys
	p.keys = [][2][]byte{keep[use], keep[use]}
	m := p.dataPacket(w, false, false)
	p.keys = keep
	b := m.m["b"].(ints)
	b[0] = b[0]&^4 | byte(use*4)
	m.raw[10] = b[0]
	return m
}

func udpPlan(r *run, o *sopt) []uact {
	var ms []struct {
		Sym string
		M   struct {
			Code, Slot int
			B          []int
			Udp        bool
		}
	}
	if err := json.Unmarshal(r.plan, &ms); err != nil {
		panic(err)
	}
	p := &spub{rng: r.rng, opt: o}
	var s []uact
	calm := r.chance(0.3)
	for _, x := range ms {
		if x.Sym == "sub" || x.Sym == "unsub" {
			s = append(s, uact{op: x.Sym, calm: calm || r.chance(0.4)})
			continue
		}
		b := make([]byte, len(x.M.B))
		for i, v := range x.M.B {
			b[i] = byte(v)
		}
		m := ev{"b": ints(b), "ok": true, "slot": x.M.Slot, "key": ints(nil), "iv": ints(nil), "len": len(b) - 1}
		out := b
		if x.M.Code == rspCache {
			if o.zsic {
				out = gz(b)
			}
			out = cat([]byte{byte(x.M.Slot)}, out)
		}
		t := p.msg(x.M.Code, cmdSubscribe, out, m)
		if x.M.Udp {
			t.datagram()
		}
		s = append(s, uact{m: t, calm: calm || r.chance(0.3)})
	}
	return append(s, uact{rest: true})
}

func init() {
	scns["udp"] = func(r *run) {
		o := &sopt{ver: 2, time: r.chance(0.8), ms: r.chance(0.5), swap: r.chance(0.3), zsic: r.chance(0.4)}
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = r.chance(0.7)
		cfg.RetryInterval = 5
		cfg.MaxRetries = 40
		cfg.AutoRequestMetadata = false
		cfg.AutoSubscribe = true
		cfg.CompressPayloadData = r.chance(0.5)
		var scripts [][]uact
		nconn := 1 + r.pick(2)
		if r.plan != nil {
			o.time, o.ms, o.swap = true, false, false
			scripts = [][]uact{udpPlan(r, o)}
			nconn = 0
		} else if r.chance(0.1) {
			o.ver = 1
		}
		cfg.CompressSignalIndexCache = o.zsic
		cfg.RfcGuidEncoding = !o.swap
		cfg.Version = byte(o.ver)
		r.cfg["opt"] = ev{"ver": o.ver, "time": o.time, "ms": o.ms, "swap": o.swap}
		for ci := 0; ci < nconn; ci++ {
			p := &spub{rng: r.rng, opt: o, tag: fmt.Sprint("u", ci), inc: ci * 3}
			var s []uact
			free := []int{0, 0, 1, 2}[r.pick(4)] // what changes while datagrams are on their way: caches, base times, keys
			use := 0
			calls := r.chance(0.4)
			var wanted []int
			push := func(m *smsg, calm bool) {
				a := uact{m: m, calm: calm || r.chance(0.1)}
				if r.chance(0.15) {
					a.gap = 1 + r.pick(2)
				}
				s = append(s, a)
			}
			if o.ver < 2 || r.chance(0.7) {
				push(p.reply(true, cmdSubscribe), o.ver < 2)
			}
			for k := 3 + r.pick(10); k > 0; k-- {
				w := r.pick(2)
				if o.ver < 2 {
					w = 0
				}
				switch x := r.pick(40); {
				case x < 8:
					push(p.cache(w, false), free != 0)
				case x < 11:
					push(p.baseTimes(false), free != 1)
				case x < 14:
					if free == 2 {
						first := p.keys == nil
						push(p.halfKeys(use), first)
					} else if x == 13 {
						push(p.newKeys(false), true)
					}
				case x < 30:
					if len(p.slots[w]) == 0 && o.ver > 1 {
						w = 1 - w
					}
					if p.keys != nil && free == 2 && r.chance(0.2) {
						use = 1 - use
						s = append(s, uact{calm: true})
					}
					push(p.packetWith(w, use).datagram(), false)
				case x < 34:
					if len(wanted) == 0 {
						n := len(p.blocks)
						for i := 0; i < 1+r.pick(4); i++ {
							wanted = append(wanted, n+i)
						}
						r.rng.Shuffle(len(wanted), func(i, j int) { wanted[i], wanted[j] = wanted[j], wanted[i] })
					}
					push(p.blockMsg(wanted[0]).datagram(), false)
					wanted = wanted[1:]
				case x < 36:
					s = append(s, uact{rest: true})
				case calls && x < 38:
					s = append(s, uact{op: "unsub", calm: r.chance(0.4)})
					if r.chance(0.6) {
						s = append(s, uact{op: "sub", calm: r.chance(0.4)})
					}
				case calls:
					s = append(s, uact{op: "sub", calm: r.chance(0.4)})
				}
			}
			if r.chance(0.7) {
				s = append(s, uact{rest: true})
			}
			if ci < nconn-1 {
				s = append(s, uact{cut: true})
			}
			scripts = append(scripts, s)
		}
		var probes []int32
		for i := int32(-1); i < 9; i++ {
			probes = append(probes, i)
		}
		const port = 9700
		put := r.chance(0.5)
		var inside []string // what the application asks for when measurements arrive
		if r.chance(0.3) {
			for k := 3 + r.pick(6); k > 0; k-- {
				inside = append(inside, []string{"", "", "unsub", "sub"}[r.pick(4)])
			}
		}
		r.body = func() {
			sub := sttp.NewSubscriber()
			sub.SetStatusMessageLogger(nil)
			sub.SetErrorMessageLogger(func(m string) {
				if *dbg {
					println(vsched.Now()/1000000, m)
				}
			})
			sub.SetConnectionEstablishedReceiver(nil)
			sub.SetConnectionTerminatedReceiver(func() { r.log(ev{"e": "T"}) })
			set := sttp.NewSettings()
			set.IncludeTime = o.time
			set.UseMillisecondResolution = o.ms
			set.UdpPort = port
			asking := false
			ask := func(op string) {
				asking = true
				r.log(ev{"e": "call", "op": op})
				if op == "sub" {
					sub.Subscribe("X", set)
				} else {
					sub.Unsubscribe()
				}
				r.log(ev{"e": "ret", "op": op})
				asking = false
			}
			sub.SetNewMeasurementsReceiver(func(ms *[]transport.Measurement) {
				var l []ev
				for _, m := range *ms {
					v := float32(m.Value)
					id := m.SignalID
					l = append(l, ev{"id": ints(id[:]), "v": ints(u32(math.Float32bits(v))), "x": float64(v) == m.Value || m.Value != m.Value, "t": ints(u64(uint64(m.Timestamp))), "f": ints(u32(uint32(m.Flags)))})
				}
				if len(l) > 0 {
					r.log(ev{"e": "data", "m": l})
				}
				if len(inside) > 0 && !asking && !vsched.Aborted() {
					op := inside[0]
					if inside = inside[1:]; op != "" {
						ask(op)
					}
				}
				if put {
					sub.PutMeasurementSlice(ms)
				}
			})
			sub.SetNewBufferBlocksReceiver(func(bs []transport.BufferBlock) {
				var l []ev
				for _, b := range bs {
					id := b.SignalID
					l = append(l, ev{"id": ints(id[:]), "p": ints(cat(b.Buffer))})
				}
				r.log(ev{"e": "blocks", "b": l})
			})
			sub.SetSubscriptionUpdatedReceiver(func(c *transport.SignalIndexCache) { r.log(ev{"e": "upd", "q": probe(c, probes)}) })
			cur, asked := 0, 0
			conn := func(id int) {
				if id > cur {
					cur = id
					r.log(ev{"e": "conn"})
				}
			}
			net.OnWrite = func(id int, b []byte) {
				conn(id)
				if len(b) < 5 || id != cur {
					return
				}
				switch b[4] {
				case cmdConfirmCache:
					r.log(ev{"e": "cache", "x": ints(cat(b[5:]))})
				case cmdConfirmBlock:
					r.log(ev{"e": "blk", "x": ints(cat(b[5:]))})
				case cmdSubscribe:
					asked = id
					r.log(ev{"e": "sub"})
				}
			}
			rest := func() {
				vsched.Settle(0)
				id := sub.SubscriberID()
				r.log(ev{"e": "rest", "conn": sub.IsConnected(), "valid": sub.IsValidated(), "subscribed": sub.IsSubscribed(), "bytes": sub.TotalCommandChannelBytesReceived(),
					"dbytes": sub.TotalDataChannelBytesReceived(), "meas": sub.TotalMeasurementsReceived(), "subid": ints(id[:])})
				r.log(ev{"e": "active", "q": probe(sub.ActiveSignalIndexCache(), probes)})
			}
			sub.Subscribe("FILTER ActiveMeasurements WHERE True", set)
			finished, k := 0, 0
			net.DialHook = func(string) (bool, time.Duration) { return k < len(scripts), 200 * time.Millisecond }
			net.DialDone = func(_ string, ok bool) {
				if !ok {
					return
				}
				s := scripts[k]
				k++
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					net.Accepted = net.Accepted[1:]
					conn(c.ID)
					vsched.GoNamed("pubin", func() {
						for {
							if _, _, err := readCmd(c); err != nil {
								return
							}
						}
					})
					if o.ver > 1 {
						p := &spub{rng: r.rng, opt: o}
						m := p.reply(true, cmdModes)
						r.log(m.m)
						c.Write(m.raw)
					}
					vsched.Block("request", func() bool { return asked == c.ID || c.PeerClosed() })
					var ops []uact
					busy := false
					vsched.GoNamed("app", func() {
						for {
							vsched.Block("op", func() bool { return len(ops) > 0 || finished >= k })
							if len(ops) == 0 {
								return
							}
							vsched.Block("asking", func() bool { return !asking })
							op := ops[0].op
							ops = ops[1:]
							busy = true
							ask(op)
							busy = false
						}
					})
					for _, a := range s {
						if a.gap > 0 {
							vtime.Sleep(time.Duration(a.gap) * time.Millisecond)
						}
						if a.calm || a.rest {
							vsched.Settle(0)
						}
						if c.PeerClosed() {
							break
						}
						switch {
						case a.rest:
							rest()
						case a.cut:
							vsched.Block("calls", func() bool { return len(ops) == 0 && !busy && !asking })
							inside = nil
							r.log(ev{"e": "cut"})
							if cfg.AutoReconnect {
								c.Close()
							} else {
								sub.Disconnect()
							}
						case a.op != "":
							ops = append(ops, a)
						case a.m == nil:
						case a.m.udp:
							vsched.Op()
							a.m.m["got"] = net.SendUDP(port, a.m.raw)
							r.log(a.m.m)
						default:
							r.log(a.m.m)
							c.Write(a.m.raw)
						}
						if a.calm {
							vsched.Settle(0)
						}
					}
					vsched.Block("calls", func() bool { return len(ops) == 0 && !busy })
					finished++
				})
			}
			sub.Dial("pub:7165", cfg)
			for {
				vsched.Block("script", func() bool { return finished >= k })
				vsched.Settle(500 * time.Millisecond)
				if k >= len(scripts) && finished >= k {
					break
				}
				if cfg.AutoReconnect {
					if finished < k {
						continue
					}
					if sub.IsConnected() {
						break
					}
				}
				if !sub.IsConnected() {
					sub.Dial("pub:7165", cfg)
				}
			}
			rest()
			inside = nil
			r.log(ev{"e": "cut"})
			sub.Close()
			vsched.Settle(time.Second)
		}
	}
}
