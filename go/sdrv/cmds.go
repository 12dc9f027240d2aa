package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"time"

	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// brief shows a payload: whole when short, otherwise by length and checksum.
func brief(b []byte) string {
	if len(b) <= 24 {
		return hexs(b)
	}
	return fmt.Sprintf("%d/%08x", len(b), crc32.ChecksumIEEE(b))
}

// Several goroutines send commands while the publisher sends messages that are to be confirmed.
func init() {
	scns["cmds"] = func(r *run) {
		type cmd struct {
			code, gap int
			p         []byte
			how       int
		}
		callers := 1 + r.pick(3)
		prog := make([][]cmd, callers)
		codes := []int{cmdMetadata, cmdUnsubscribe, cmdRotateKeys, cmdInterval, 0xD0, 0xDF}
		tag := 0
		for c := range prog {
			for k := 1 + r.pick(4); k > 0; k-- {
				tag++
				n := []int{0, 1, 2, 4, 7, 20, 100, 5000, 32762, 32763, 32764, 40000, 100000}[r.pick(13)]
				p := make([]byte, n)
				for i := range p {
					p[i] = byte(tag*37 + i)
				}
				prog[c] = append(prog[c], cmd{codes[r.pick(len(codes))], r.pick(4), p, r.pick(3)})
			}
		}
		npub := r.pick(5)
		var pubs []int
		for i := 0; i < npub; i++ {
			pubs = append(pubs, r.pick(3))
		}
		ending := ""
		if r.chance(0.3) {
			ending = []string{"pclose", "disc"}[r.pick(2)]
		}
		endAt := r.pick(4)
		r.budget = 6000000
		limit := []int{0, 0, 30, 64}[r.pick(4)]
		r.body = func() {
			net.WriteLimit = limit
			ds := transport.NewDataSubscriber()
			ds.CompressSignalIndexCache = false
			left := callers
			net.DialHook = func(string) (bool, time.Duration) { return true, 0 }
			net.DialDone = func(_ string, ok bool) {
				r.log(ev{"e": "open"})
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					vsched.GoNamed("pubwrite", func() {
						c.Write(packet(rspOK, cmdModes, nil))
						for i, k := range pubs {
							switch k {
							case 0:
								h := u32(uint32(0xA0B0C000 + i))
								r.log(ev{"e": "ask", "code": fmt.Sprintf("%02x", cmdConfirmNotify), "n": 4, "p": hexs(h)})
								c.Write(packet(rspNotify, 0, cat(h, []byte("hello"))))
							case 1:
								r.log(ev{"e": "ask", "code": fmt.Sprintf("%02x", cmdConfirmCache), "n": 0, "p": ""})
								c.Write(packet(rspCache, cmdSubscribe, sic(2, i%2, false, sigID(9), []rec{{1, sigID(1), "PPA", 1}})))
							case 2:
								c.Write(packet(rspNoOP, 0, nil))
							}
							vsched.Op()
						}
					})
					for {
						var h [4]byte
						if _, err := io.ReadFull(c, h[:]); err != nil {
							return
						}
						n := binary.BigEndian.Uint32(h[:])
						if n == 0 || n > 1<<20 {
							r.log(ev{"e": "garbage", "h": hexs(h[:])})
							return
						}
						b := make([]byte, n)
						if _, err := io.ReadFull(c, b); err != nil {
							return
						}
						r.log(ev{"e": "frame", "h": hexs(h[:]), "code": hexs(b[:1]), "n": len(b) - 1, "p": brief(b[1:])})
						if ending == "pclose" && endAt == 0 {
							r.log(ev{"e": "ending"})
							c.Abort()
							return
						}
						endAt--
					}
				})
			}
			ds.Connect("pub", 7165)
			for c := range prog {
				c := c
				vsched.GoNamed("caller", func() {
					for _, k := range prog[c] {
						for g := 0; g < k.gap; g++ {
							vsched.Op()
						}
						how := k.how
						if how == 0 && len(k.p) > 0 {
							how = 1
						}
						r.log(ev{"e": "send", "w": fmt.Sprint("app", c+1), "code": fmt.Sprintf("%02x", k.code), "n": len(k.p), "p": brief(k.p)})
						before := brief(k.p)
						switch how {
						case 0:
							ds.SendServerCommand(transport.ServerCommandEnum(k.code))
						case 1:
							ds.SendServerCommandWithPayload(transport.ServerCommandEnum(k.code), k.p)
						case 2:
							ds.SendServerCommandWithMessage(transport.ServerCommandEnum(k.code), string(k.p))
						}
						r.log(ev{"e": "sent", "w": fmt.Sprint("app", c+1), "same": before == brief(k.p)})
					}
					left--
				})
			}
			if ending == "disc" {
				vtime.Sleep(time.Duration(endAt) * time.Millisecond)
				r.log(ev{"e": "ending"})
				ds.Disconnect()
			}
			vsched.Settle(time.Second)
			r.log(ev{"e": "rest", "left": left})
			if ending == "" {
				r.log(ev{"e": "ending"})
			}
			ds.Dispose()
		}
	}
}
