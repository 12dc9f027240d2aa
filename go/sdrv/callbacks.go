package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// The callbacks scenario replaces receivers, from other threads and from inside receivers, while
// events of every kind occur; receivers query the subscriber and log.
func init() {
	kinds := []string{"data", "meta", "changed", "start", "upd", "done", "note", "block", "status", "error", "E", "T"}
	scns["callbacks"] = func(r *run) {
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = true
		cfg.RetryInterval = 5
		cfg.AutoRequestMetadata = r.chance(0.3)
		cfg.AutoSubscribe = r.chance(0.5)
		cfg.CompressPayloadData = false
		cfg.CompressMetadata = false
		cfg.CompressSignalIndexCache = false
		type setOp struct {
			kind string
			nil  bool
			gap  int
		}
		// one thread per chosen kind replaces that kind's receiver
		var setters [][]setOp
		inside := map[string]bool{} // kinds whose receivers replace themselves
		for _, i := range r.rng.Perm(len(kinds))[:1+r.pick(5)] {
			if r.chance(0.25) {
				inside[kinds[i]] = true
				continue
			}
			var s []setOp
			for k := 1 + r.pick(3); k > 0; k-- {
				s = append(s, setOp{kinds[i], r.chance(0.15), r.pick(4)})
			}
			setters = append(setters, s)
		}
		react := map[string]int{}
		for _, k := range kinds {
			react[k] = r.pick(7)
		}
		var seq []int
		for k := 3 + r.pick(10); k > 0; k-- {
			seq = append(seq, r.pick(9))
		}
		appLogs := r.pick(4)
		twice := r.chance(0.3)
		slow := r.chance(0.5)
		udp := 0
		if r.chance(0.5) {
			udp = 9800
			seq = append([]int{5}, seq...)
			for i, k := range seq {
				if k == 0 || k == 4 {
					seq[i] = 1
				}
			}
		}
		r.body = func() {
			sub := sttp.NewSubscriber()
			gen := map[string]int{}
			nmsg := 0
			busy := map[string]bool{}
			asked := map[string]int{}
			want := sttp.NewSettings()
			want.UdpPort = uint16(udp)
			var set func(kind string, none bool)
			query := func(kind string) {
				if vsched.Aborted() {
					return
				}
				switch react[kind] {
				case 1:
					sub.IsConnected()
					sub.IsValidated()
					sub.IsListening()
					sub.IsSubscribed()
					sub.ConnectionID()
					sub.SubscriberID()
					sub.ActiveSignalIndexCache().Count()
				case 2:
					sub.TotalCommandChannelBytesReceived()
					sub.TotalDataChannelBytesReceived()
					sub.TotalMeasurementsReceived()
					m := transport.Measurement{SignalID: sigID(1), Value: 2}
					sub.LookupMetadata(m.SignalID)
					sub.Metadata(&m)
					sub.AdjustedValue(&m)
				case 3:
					if kind != "status" && kind != "error" {
						nmsg++
						id := fmt.Sprint("tag#", nmsg)
						r.log(ev{"e": "ev", "k": "status", "id": id})
						sub.StatusMessage(id)
						r.log(ev{"e": "ev", "k": "error", "id": id})
						sub.ErrorMessage(id)
					}
				}
				if asked[kind]++; asked[kind] < 4 {
					switch react[kind] {
					case 4:
						sub.Subscribe("FILTER ActiveMeasurements WHERE True", want)
					case 5:
						sub.Unsubscribe()
					case 6:
						if kind != "meta" {
							sub.RequestMetadata()
						}
					}
				}
				if inside[kind] && !busy[kind] {
					busy[kind] = true
					set(kind, false)
					busy[kind] = false
				}
			}
			set = func(kind string, none bool) {
				gen[kind]++
				g := gen[kind]
				if none {
					g = 0
				}
				got := func(id string) {
					r.log(ev{"e": "got", "k": kind, "id": id, "g": g})
					query(kind)
					r.log(ev{"e": "back"})
				}
				msg := func(m string) {
					if strings.HasPrefix(m, "tag#") {
						got(m)
					}
				}
				if g > 1 || none {
					r.log(ev{"e": "set", "k": kind, "g": g})
				}
				switch kind {
				case "data":
					f := func(m *[]transport.Measurement) { got(fmt.Sprint(int((*m)[0].Value))) }
					if none {
						f = nil
					}
					sub.SetNewMeasurementsReceiver(f)
				case "meta":
					f := func(d *data.DataSet) { got("") }
					if none {
						f = nil
					}
					sub.SetMetadataReceiver(f)
				case "changed":
					f := func() { got("") }
					if none {
						f = nil
					}
					sub.SetConfigurationChangedReceiver(f)
				case "start":
					f := func(t time.Time) { got(fmt.Sprint(t.Year())) }
					if none {
						f = nil
					}
					sub.SetDataStartTimeReceiver(f)
				case "upd":
					f := func(c *transport.SignalIndexCache) { got(fmt.Sprint(c.Count())) }
					if none {
						f = nil
					}
					sub.SetSubscriptionUpdatedReceiver(f)
				case "done":
					f := func() { got("") }
					if none {
						f = nil
					}
					sub.SetHistoricalReadCompleteReceiver(f)
				case "note":
					f := func(s string) { got(s) }
					if none {
						f = nil
					}
					sub.SetNotificationReceiver(f)
				case "block":
					f := func(b []transport.BufferBlock) { got(string(b[0].Buffer)) }
					if none {
						f = nil
					}
					sub.SetNewBufferBlocksReceiver(f)
				case "status":
					f := msg
					if none {
						f = nil
					}
					sub.SetStatusMessageLogger(f)
				case "error":
					f := msg
					if none {
						f = nil
					}
					sub.SetErrorMessageLogger(f)
				case "E":
					f := func() { got("") }
					if none {
						f = nil
					}
					sub.SetConnectionEstablishedReceiver(f)
				case "T":
					f := func() { got("") }
					if none {
						f = nil
					}
					sub.SetConnectionTerminatedReceiver(f)
				}
				if g > 1 || none {
					r.log(ev{"e": "was", "k": kind, "g": g})
				}
			}
			for _, k := range kinds {
				set(k, false)
			}
			net.DialHook = func(string) (bool, time.Duration) { return true, 0 }
			round := 0
			net.DialDone = func(string, bool) {
				r.log(ev{"e": "ev", "k": "E", "id": ""})
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					net.Accepted = net.Accepted[1:]
					round++
					rd := round
					c.Write(packet(rspOK, cmdModes, nil))
					vsched.GoNamed("pubin", func() {
						for {
							code, _, err := readCmd(c)
							if err != nil {
								return
							}
							if code == cmdMetadata {
								r.log(ev{"e": "ev", "k": "meta", "id": ""})
								c.Write(packet(rspOK, cmdMetadata, []byte(metaXML)))
							}
						}
					})
					if udp > 0 {
						vsched.Settle(0)
					}
					var recs []rec
					block := 0
					for i, k := range seq {
						if i%3 == 2 && slow {
							vtime.Sleep(time.Millisecond)
						}
						switch k {
						case 0, 1:
							if len(recs) == 0 {
								continue
							}
							id := rd*100 + i
							if udp > 0 && k == 1 {
								if slow {
									vsched.Settle(0)
								}
								if net.SendUDP(udp, body(rspData, cmdSubscribe, compactSimple(0, []float32{float32(id)}, 1))) {
									r.log(ev{"e": "perhaps", "k": "data", "id": fmt.Sprint(id)})
								}
								continue
							}
							r.log(ev{"e": "ev", "k": "data", "id": fmt.Sprint(id)})
							c.Write(packet(rspData, cmdSubscribe, compactSimple(0, []float32{float32(id)}, 1)))
						case 2:
							r.log(ev{"e": "ev", "k": "meta", "id": ""})
							c.Write(packet(rspOK, cmdMetadata, []byte(metaXML)))
						case 3:
							r.log(ev{"e": "ev", "k": "changed", "id": ""})
							c.Write(packet(rspChanged, 0, nil))
						case 4:
							y := 2000 + i
							r.log(ev{"e": "ev", "k": "start", "id": fmt.Sprint(y)})
							c.Write(packet(rspStart, 0, u64(uint64(ticks.FromTime(time.Date(y, 2, 1, 0, 0, 0, 0, time.UTC))))))
						case 5:
							recs = append(recs, rec{int32(len(recs) + 1), sigID(len(recs) + 1), "P", 1})
							r.log(ev{"e": "ev", "k": "upd", "id": fmt.Sprint(len(recs))})
							c.Write(packet(rspCache, cmdSubscribe, sic(2, 0, false, sigID(9), recs)))
						case 6:
							r.log(ev{"e": "ev", "k": "done", "id": ""})
							c.Write(packet(rspDone, 0, []byte("finished")))
						case 7:
							s := fmt.Sprint("n", rd, i)
							r.log(ev{"e": "ev", "k": "note", "id": s})
							c.Write(packet(rspNotify, 0, cat(u32(uint32(i)), []byte(s))))
						case 8:
							s := fmt.Sprint("b", rd, i)
							r.log(ev{"e": "ev", "k": "block", "id": s})
							c.Write(packet(rspBlock, 0, cat(u32(uint32(block)), []byte{0}, u32(1), []byte(s))))
							block++
						}
					}
					if twice && rd == 1 {
						vsched.Settle(0)
						r.log(ev{"e": "ev", "k": "T", "id": ""})
						c.Close()
					}
				})
			}
			for _, s := range setters {
				s := s
				vsched.GoNamed("setter", func() {
					for _, o := range s {
						vtime.Sleep(time.Duration(o.gap) * time.Millisecond)
						set(o.kind, o.nil)
					}
				})
			}
			vsched.GoNamed("logger", func() {
				for i := 0; i < appLogs; i++ {
					id := fmt.Sprint("tag#app", i)
					r.log(ev{"e": "ev", "k": "status", "id": id})
					sub.StatusMessage(id)
				}
			})
			if udp > 0 {
				sub.Subscribe("FILTER ActiveMeasurements WHERE True", want)
			}
			sub.Dial("pub:7165", cfg)
			vsched.Settle(time.Second)
			r.log(ev{"e": "rest"})
			r.log(ev{"e": "ev", "k": "T", "id": ""})
			sub.Close()
			vsched.Settle(time.Second)
			r.log(ev{"e": "rest"})
		}
	}
}
