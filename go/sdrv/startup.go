package main

import (
	"fmt"
	"regexp"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

var filterRx = regexp.MustCompile(`(?:^|;)filterExpression=\{([^}]*)\}`)

// The startup scenario records the commands of a subscriber on each of its connections, started
// by itself or by the user, against publishers that answer at their own pace.
func init() {
	scns["startup"] = func(r *run) {
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = true
		cfg.RetryInterval = 10
		cfg.AutoRequestMetadata = r.chance(0.6)
		cfg.AutoSubscribe = r.chance(0.75)
		cfg.CompressPayloadData = false
		cfg.CompressMetadata = r.chance(0.3)
		cfg.CompressSignalIndexCache = false
		if r.chance(0.15) {
			cfg.Version = 1
		}
		listen := r.chance(0.3)
		r.cfg["opt"] = ev{"meta": cfg.AutoRequestMetadata, "sub": cfg.AutoSubscribe, "ver": int(cfg.Version)}
		type uop struct {
			op, f string
			gap   int
		}
		mk := func(tag string) (u []uop) {
			for k := r.pick(4); k > 0; k-- {
				op := []string{"sub", "sub", "unsub", "meta"}[r.pick(4)]
				f := ""
				if op == "sub" {
					f = fmt.Sprint(tag, k)
				}
				u = append(u, uop{op, f, []int{0, 0, 1, 5, 15}[r.pick(5)]})
			}
			return
		}
		before := ""
		if r.chance(0.7) {
			before = "first"
		}
		users := [][]uop{mk("a")}
		if r.chance(0.3) {
			users = append(users, mk("b"))
		}
		nconn := 1 + r.pick(3)
		type plan struct {
			first   string
			delay   int
			subFail bool
			changes []int // gaps before configuration change notices
			life    int   // 0: stays
			slow    int
		}
		var plans []plan
		for i := 0; i < nconn; i++ {
			p := plan{first: []string{"ok", "ok", "ok", "noop", "fail"}[r.pick(5)], delay: []int{0, 0, 1, 3}[r.pick(4)], subFail: r.chance(0.15), slow: []int{0, 0, 2}[r.pick(3)]}
			for k := r.pick(3); k > 0; k-- {
				p.changes = append(p.changes, []int{0, 1, 4}[r.pick(3)])
			}
			if i < nconn-1 {
				p.life = []int{1, 2, 8, 20}[r.pick(4)]
			}
			plans = append(plans, p)
		}
		step := r.chance(0.4) // the publisher acts only when everything else waits
		r.body = func() {
			sub := sttp.NewSubscriber()
			ds := dsOf(sub)
			sub.SetStatusMessageLogger(func(string) {})
			sub.SetErrorMessageLogger(func(string) {})
			sub.SetConnectionEstablishedReceiver(func() { r.log(ev{"e": "E"}) })
			sub.SetConnectionTerminatedReceiver(func() {})
			sub.SetNewMeasurementsReceiver(nil)
			net.OnWrite = func(id int, b []byte) {
				if len(b) < 5 {
					r.log(ev{"e": "out", "c": id, "code": "short"})
					return
				}
				f := ""
				if m := filterRx.FindSubmatch(b[5:]); m != nil {
					f = string(m[1])
				}
				r.log(ev{"e": "out", "c": id, "code": hexs(b[4:5]), "f": f})
			}
			k := 0
			serve := func(c *net.TCPConn) {
				p := plan{first: "ok"}
				if k < len(plans) {
					p = plans[k]
				}
				k++
				over := false
				send := func(m string, b []byte) {
					if step {
						vsched.Settle(0)
					}
					if p.slow > 0 {
						vtime.Sleep(time.Duration(p.slow) * time.Millisecond)
					}
					if over || c.PeerClosed() {
						return
					}
					r.log(ev{"e": "pub", "m": m})
					c.Write(b)
				}
				ready := false
				if p.life > 0 {
					vsched.GoNamed("pubend", func() {
						vtime.Sleep(time.Duration(p.life) * time.Millisecond)
						if step {
							vsched.Settle(0)
						}
						over = true
						r.log(ev{"e": "ends"})
						c.Close()
					})
				}
				vsched.GoNamed("pubnews", func() {
					vsched.Block("ready", func() bool { return ready || c.PeerClosed() || over })
					for _, g := range p.changes {
						vtime.Sleep(time.Duration(g) * time.Millisecond)
						send("changed", packet(rspChanged, 0, nil))
					}
				})
				for {
					code, _, err := readCmd(c)
					if err != nil {
						return
					}
					switch code {
					case cmdModes:
						vtime.Sleep(time.Duration(p.delay) * time.Millisecond)
						if cfg.Version >= 2 {
							switch p.first {
							case "ok":
								send("modes", packet(rspOK, cmdModes, nil))
							case "fail":
								send("refused", packet(rspFail, cmdModes, []byte("no")))
							default:
								send("noop", packet(rspNoOP, 0, nil))
							}
						}
						ready = true
					case cmdMetadata:
						x := []byte(metaXML)
						if cfg.CompressMetadata {
							x = gz(x)
						}
						send("meta", packet(rspOK, cmdMetadata, x))
					case cmdSubscribe:
						if p.subFail {
							send("refused", packet(rspFail, cmdSubscribe, []byte("no")))
						} else {
							send("subscribed", packet(rspOK, cmdSubscribe, []byte("ok")))
						}
					case cmdUnsubscribe:
						send("unsubscribed", packet(rspOK, cmdUnsubscribe, nil))
					}
				}
			}
			net.DialHook = func(string) (bool, time.Duration) { return true, 0 }
			net.DialDone = func(string, bool) {
				r.log(ev{"e": "open", "c": net.NextID()})
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					net.Accepted = net.Accepted[1:]
					serve(c)
				})
			}
			ncall := 0
			call := func(u uop) {
				ncall++
				id := ncall
				r.log(ev{"e": "call", "id": id, "op": u.op, "f": u.f})
				switch u.op {
				case "sub":
					sub.Subscribe(u.f, nil)
				case "unsub":
					sub.Unsubscribe()
				case "meta":
					sub.RequestMetadata()
				}
				r.log(ev{"e": "ret", "id": id, "op": u.op, "f": u.f})
			}
			if before != "" {
				call(uop{"sub", before, 0})
			}
			vsched.GoNamed("app", func() {
				if listen {
					sub.Listen(":7175", cfg)
					for i := 0; i < nconn; i++ {
						vsched.Settle(0)
						c, err := net.PubDial(lisPort)
						if err != nil {
							panic(err)
						}
						r.log(ev{"e": "open", "c": c.ID})
						serve(c)
						vsched.Settle(time.Millisecond)
					}
					return
				}
				sub.Dial("pub:7165", cfg)
			})
			left := len(users)
			for _, u := range users {
				u := u
				vsched.GoNamed("user", func() {
					for _, o := range u {
						vtime.Sleep(time.Duration(o.gap) * time.Millisecond)
						if step {
							vsched.Settle(0)
						}
						call(o)
					}
					left--
				})
			}
			vsched.Settle(time.Second)
			r.log(ev{"e": "rest", "val": ds.IsValidated(), "subd": ds.IsSubscribed()})
			if left == 0 {
				call(uop{"sub", "last", 0})
				vsched.Settle(time.Second)
				r.log(ev{"e": "rest", "val": ds.IsValidated(), "subd": ds.IsSubscribed()})
			}
			r.log(ev{"e": "ends"})
			sub.Close()
		}
	}
}
