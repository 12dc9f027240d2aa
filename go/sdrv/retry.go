package main

import (
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// The retry scenario makes connection attempts fail and connections end at chosen moments and
// records when the subscriber tries again. Time passes only while everything waits, so the
// recorded times are exact.
func init() {
	scns["retry"] = func(r *run) {
		r.nojump = true
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = r.chance(0.8)
		cfg.MaxRetries = []int32{-1, -1, 0, 1, 2, 3, 5}[r.pick(7)]
		cfg.RetryInterval = []int32{10, 20, 7, 1000, 1}[r.pick(5)]
		cfg.MaxRetryInterval = []int32{30, 50, 15, 30000, 5000, 1, 100}[r.pick(7)]
		cfg.AutoRequestMetadata = r.chance(0.5)
		cfg.AutoSubscribe = true
		cfg.CompressPayloadData = false
		r.cfg["r"], r.cfg["max"], r.cfg["m"], r.cfg["auto"] = int(cfg.RetryInterval), int(cfg.MaxRetryInterval), int(cfg.MaxRetries), cfg.AutoReconnect
		// what happens to each attempt
		type fate struct {
			kind  string // no, ok, refuse
			delay int
			up    int // ms before the publisher ends the connection
			abort bool
		}
		var fates []fate
		for k := 2 + r.pick(12); k > 0; k-- {
			fates = append(fates, fate{[]string{"no", "no", "no", "ok", "refuse"}[r.pick(5)], []int{0, 0, 0, 3, 25}[r.pick(5)], []int{0, 1, 7, 100}[r.pick(4)], r.chance(0.4)})
		}
		dials := 1 + r.pick(2)
		horizon := []int{300, 5000, 100000}[r.pick(3)]
		if h := 40 * int(cfg.MaxRetryInterval); horizon > h {
			horizon = h
		}
		r.body = func() {
			sub := sttp.NewSubscriber()
			sub.SetStatusMessageLogger(func(string) { r.log(ev{"e": "msg", "err": false, "t": ms()}) })
			sub.SetErrorMessageLogger(func(string) { r.log(ev{"e": "msg", "err": true, "t": ms()}) })
			sub.SetConnectionEstablishedReceiver(func() { r.log(ev{"e": "E", "t": ms()}) })
			sub.SetConnectionTerminatedReceiver(func() { r.log(ev{"e": "T", "t": ms()}) })
			natt := 0
			next := func() fate {
				if natt <= len(fates) && natt > 0 {
					return fates[natt-1]
				}
				return fate{kind: "no"}
			}
			net.DialHook = func(string) (bool, time.Duration) {
				natt++
				r.log(ev{"e": "att", "t": ms()})
				f := next()
				return f.kind != "no", time.Duration(f.delay) * time.Millisecond
			}
			net.DialDone = func(_ string, ok bool) {
				r.log(ev{"e": "dialed", "ok": ok, "t": ms()})
				if !ok {
					return
				}
				f := next()
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					net.Accepted = net.Accepted[1:]
					for {
						code, _, err := readCmd(c)
						if err != nil {
							return
						}
						if code != cmdModes {
							continue
						}
						if f.kind == "refuse" {
							r.log(ev{"e": "refuse", "t": ms()})
							c.Write(packet(rspFail, cmdModes, []byte("not now")))
							vtime.Sleep(time.Millisecond)
						} else {
							c.Write(packet(rspOK, cmdModes, nil))
						}
						vtime.Sleep(time.Duration(f.up) * time.Millisecond)
						if f.kind == "ok" && f.up == 100 {
							continue
						}
						vsched.Settle(0)
						r.log(ev{"e": "lose", "t": ms()})
						if f.abort {
							c.Abort()
						} else {
							c.Close()
						}
						return
					}
				})
			}
			for d := 0; d < dials; d++ {
				done := false
				vsched.GoNamed("app", func() {
					r.log(ev{"e": "dial", "t": ms()})
					err := sub.Dial("pub:7165", cfg)
					r.log(ev{"e": "ret", "res": errClass(err), "t": ms()})
					done = true
				})
				vtime.Sleep(time.Duration(horizon) * time.Millisecond)
				vsched.Settle(0)
				r.log(ev{"e": "rest", "t": ms()})
				r.log(ev{"e": "disc", "t": ms()})
				sub.Disconnect()
				vsched.Settle(time.Second)
				r.log(ev{"e": "off", "t": ms(), "done": done})
			}
			sub.Close()
		}
	}
}
