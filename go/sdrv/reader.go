package main

import (
	"context"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// The reader scenario: batches arrive while goroutines read, cancel reads and close the reader.
func init() {
	scns["reader"] = func(r *run) {
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = false
		cfg.AutoRequestMetadata = false
		cfg.AutoSubscribe = r.chance(0.5)
		cfg.CompressPayloadData = false
		cfg.CompressSignalIndexCache = false
		type batch struct{ n, gap int }
		var bs []batch
		for k := r.pick(6); k >= 0; k-- {
			n := r.pick(4)
			if r.chance(0.1) {
				n = 20 + r.pick(100)
			}
			bs = append(bs, batch{n, []int{0, 0, 1, 5}[r.pick(4)]})
		}
		type rd struct{ gap, cancel int } // cancel: -1 never, 0 before, else after so many ms
		var readers [][]rd
		for k := 1 + r.pick(3); k > 0; k-- {
			var l []rd
			for j := r.pick(8); j >= 0; j-- {
				l = append(l, rd{[]int{0, 0, 0, 1, 3}[r.pick(5)], []int{-1, -1, -1, 0, 1, 2, 4}[r.pick(7)]})
			}
			readers = append(readers, l)
		}
		closeAt := -1
		if r.chance(0.4) {
			closeAt = r.pick(8)
		}
		twice := r.chance(0.2)
		early := r.chance(0.7) // attached before connecting
		bulk := *prof == "bulk"
		if bulk {
			// a slow application: a great many measurements wait to be read
			bs, readers, closeAt = nil, nil, -1
			for k := 15 + r.pick(10); k > 0; k-- {
				bs = append(bs, batch{2000 + r.pick(1000), 0})
			}
			r.st = vsched.Strategy{Kind: "seq", OpWeight: 1}
			r.budget = 100000000
		}
		r.body = func() {
			sub := sttp.NewSubscriber()
			sub.SetStatusMessageLogger(func(string) {})
			sub.SetErrorMessageLogger(func(string) {})
			sub.SetConnectionEstablishedReceiver(nil)
			sub.SetConnectionTerminatedReceiver(func() {})
			var rdr *sttp.MeasurementReader
			if early {
				rdr = sub.ReadMeasurements()
			}
			over := false
			ready := false
			next := 0
			net.DialHook = func(string) (bool, time.Duration) { return true, 0 }
			net.DialDone = func(string, bool) {
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					net.Accepted = net.Accepted[1:]
					vsched.GoNamed("pubin", func() {
						for {
							if _, _, err := readCmd(c); err != nil {
								return
							}
						}
					})
					c.Write(packet(rspOK, cmdModes, nil))
					c.Write(packet(rspCache, cmdSubscribe, sic(2, 0, false, sigID(99), []rec{{1, sigID(1), "S", 1}})))
					vsched.Block("ready", func() bool { return ready })
					for _, b := range bs {
						if b.gap > 0 {
							vtime.Sleep(time.Duration(b.gap) * time.Millisecond)
						}
						m := []int{}
						var vs []float32
						for i := 0; i < b.n; i++ {
							next++
							m = append(m, next)
							vs = append(vs, float32(next))
						}
						if bulk {
							r.log(ev{"e": "txs", "m": next - b.n + 1, "n": b.n})
						} else {
							r.log(ev{"e": "tx", "m": m})
						}
						c.Write(packet(rspData, cmdSubscribe, compactSimple(0, vs, 1)))
					}
					over = true
				})
			}
			sub.Dial("pub:7165", cfg)
			if !early {
				vsched.Settle(0)
				rdr = sub.ReadMeasurements()
			}
			key := 0
			read := func(o rd) (stop bool) {
				key++
				k := key
				ctx := context.Background()
				var cancel func()
				if o.cancel >= 0 {
					ctx, cancel = context.WithCancel(ctx)
				}
				if o.cancel == 0 {
					cancel()
				}
				if o.cancel > 0 {
					vsched.GoNamed("cancel", func() {
						vtime.Sleep(time.Duration(o.cancel) * time.Millisecond)
						r.log(ev{"e": "cancel", "k": k})
						cancel()
					})
				}
				r.log(ev{"e": "read", "k": k, "c": o.cancel == 0})
				m, completed := rdr.NextMeasurement(ctx)
				switch {
				case completed && m == nil:
					r.log(ev{"e": "done", "k": k})
				case !completed && m != nil:
					r.log(ev{"e": "got", "k": k, "m": int(m.Value)})
				default:
					r.log(ev{"e": "odd", "k": k})
				}
				return completed && o.cancel < 0
			}
			for _, l := range readers {
				l := l
				vsched.GoNamed("reader", func() {
					for _, o := range l {
						vtime.Sleep(time.Duration(o.gap) * time.Millisecond)
						read(o)
					}
				})
			}
			ready = true
			if closeAt >= 0 {
				vsched.GoNamed("closer", func() {
					vtime.Sleep(time.Duration(closeAt) * time.Millisecond)
					r.log(ev{"e": "close"})
					rdr.Close()
					if twice {
						rdr.Close()
					}
				})
			}
			vsched.Settle(100 * time.Millisecond)
			vsched.Block("publisher", func() bool { return over })
			vsched.Settle(0)
			r.log(ev{"e": "rest", "total": int(sub.TotalMeasurementsReceived())})
			if bulk {
				for left := next; left > 0; {
					k := 1 + r.pick(20000)
					if k > left {
						k = left
					}
					left -= k
					first, n := 0, 0
					flush := func() {
						if n > 0 {
							r.log(ev{"e": "gots", "m": first, "n": n})
						}
						n = 0
					}
					for ; k > 0; k-- {
						ctx, cancel := context.WithCancel(context.Background())
						stop := vsched.AfterFunc(time.Millisecond, cancel)
						m, completed := rdr.NextMeasurement(ctx)
						stop.Stop()
						if completed || m == nil {
							flush()
							r.log(ev{"e": "odd", "k": 0})
							break
						}
						if n > 0 && int(m.Value) != first+n {
							flush()
						}
						if n == 0 {
							first = int(m.Value)
						}
						n++
					}
					flush()
				}
			}
			// what is left is read to the end
			if closeAt < 0 {
				for i := 0; i <= next && !bulk || i < 1; i++ {
					read(rd{0, 2})
				}
				vsched.Settle(0)
				r.log(ev{"e": "rest", "total": int(sub.TotalMeasurementsReceived())})
			}
			r.log(ev{"e": "close"})
			rdr.Close()
			read(rd{0, -1})
			sub.Close()
			vsched.Settle(0)
			r.log(ev{"e": "rest", "total": next})
		}
	}
}
