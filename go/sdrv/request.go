package main

import (
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
)

// The request scenario records the requests made with random configurations and settings.
func init() {
	scns["request"] = func(r *run) {
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = true
		cfg.RetryInterval = 5
		cfg.AutoRequestMetadata = r.chance(0.5)
		cfg.AutoSubscribe = r.chance(0.7)
		cfg.CompressPayloadData = r.chance(0.5)
		cfg.CompressMetadata = r.chance(0.5)
		cfg.CompressSignalIndexCache = r.chance(0.5)
		cfg.Version = []byte{2, 2, 2, 1, 3, 9, 10, 12}[r.pick(8)]
		if r.chance(0.5) {
			cfg.MetadataFilters = []string{
				"FILTER MeasurementDetail WHERE SignalAcronym <> 'STAT'", "FILTER DeviceDetail WHERE Name LIKE 'ä%'; FILTER MeasurementDetail WHERE True", "x",
				strings.Repeat("FILTER MeasurementDetail WHERE ID = 'PPA:1';", 1+r.pick(40))}[r.pick(4)]
		}
		info := transport.NewDataSubscriber()
		one := func() (*sttp.Settings, string, ev) {
			s := sttp.NewSettings()
			f := []string{"", "FILTER ActiveMeasurements WHERE True", "FILTER TOP 3 ActiveMeasurements WHERE SignalType = 'FREQ'; PPA:1; PPA:2",
				"{7AAF0A8F-3A4F-4C43-AB43-ED9D1E64A255};{93673C68-D59D-4926-B7E9-E7678F9F66B4}", "FILTER X WHERE A='k=v' AND B LIKE 'λ;%'", "a=b"}[r.pick(6)]
			num := func() (float64, int) {
				n := []int{0, 1, 33333, 500000, 1000000, 10000000, 1234567, r.pick(2000000000)}[r.pick(8)]
				return float64(n) / 1e6, n
			}
			text := func(l ...string) string {
				if r.chance(0.5) {
					return ""
				}
				return l[r.pick(len(l))]
			}
			var iv, lag, lead int
			b := func() bool { return r.chance(0.5) }
			s.Throttled, s.IncludeTime, s.EnableTimeReasonabilityCheck, s.UseLocalClockAsRealTime, s.UseMillisecondResolution, s.RequestNaNValueFilter = b(), b(), b(), b(), b(), b()
			s.PublishInterval, iv = num()
			s.LagTime, lag = num()
			s.LeadTime, lead = num()
			if r.chance(0.3) {
				s.UdpPort = uint16([]int{9600, 1, 65535, 7165, 10000}[r.pick(5)])
			}
			s.StartTime = text("*-5m", "2024-05-06 07:08:09.123", "2024-05-06T07:08:09Z")
			s.StopTime = text("*", "2025-01-01 00:00:00", "*-1h")
			s.ConstraintParameters = text("fast", "{speed=2;mode=x}", "{a}")
			s.ProcessingInterval = []int32{-1, 0, 33, 2147483647, -2147483648, 1000}[r.pick(6)]
			s.ExtraConnectionStringParameters = text("x=1", "x=1;yKey={a=1;b={c;d}}", "note = Grüße ; z=")
			return s, f, ev{"throttled": s.Throttled, "interval": iv, "time": s.IncludeTime, "check": s.EnableTimeReasonabilityCheck, "lag": lag, "lead": lead,
				"clock": s.UseLocalClockAsRealTime, "processing": s.ProcessingInterval, "ms": s.UseMillisecondResolution, "nan": s.RequestNaNValueFilter,
				"filter": ints(f), "udp": int(s.UdpPort), "start": ints(s.StartTime), "stop": ints(s.StopTime), "params": ints(s.ConstraintParameters), "extra": ints(s.ExtraConnectionStringParameters)}
		}
		type set struct {
			s *sttp.Settings
			f string
			m ev
		}
		var sets []set
		for k := 1 + r.pick(3); k > 0; k-- {
			s, f, m := one()
			sets = append(sets, set{s, f, m})
		}
		r.cfg["ver"], r.cfg["zdata"], r.cfg["zsic"], r.cfg["zmeta"] = int(cfg.Version), cfg.CompressPayloadData, cfg.CompressSignalIndexCache, cfg.CompressMetadata
		r.cfg["filters"] = ints(cfg.MetadataFilters)
		r.cfg["info"] = ev{"source": ints(info.STTPSourceInfo), "version": ints(info.STTPVersionInfo), "updated": ints(info.STTPUpdatedOnInfo)}
		r.cfg["settings"] = sets[0].m
		ask := r.chance(0.3)
		listen := r.chance(0.2)
		answer := r.chance(0.8)
		unsub := r.chance(0.3)
		r.body = func() {
			sub := sttp.NewSubscriber()
			sub.SetStatusMessageLogger(func(string) {})
			sub.SetErrorMessageLogger(func(string) {})
			sub.SetConnectionEstablishedReceiver(nil)
			sub.SetConnectionTerminatedReceiver(func() {})
			var cur *net.TCPConn
			serve := func(c *net.TCPConn) {
				cur = c
				for {
					code, b, err := readCmd(c)
					if err != nil {
						return
					}
					switch code {
					case cmdModes:
						r.log(ev{"e": "modes", "b": ints(b)})
						if cfg.Version > 1 {
							c.Write(packet(rspOK, cmdModes, nil))
						}
					case cmdSubscribe:
						r.log(ev{"e": "sub", "b": ints(b)})
						if answer {
							c.Write(packet(rspOK, cmdSubscribe, nil))
						}
					case cmdMetadata:
						r.log(ev{"e": "meta", "b": ints(b)})
						x := []byte(metaXML)
						if cfg.CompressMetadata {
							x = gz(x)
						}
						c.Write(packet(rspOK, cmdMetadata, x))
					}
				}
			}
			give := func(s set) {
				r.log(ev{"e": "set", "s": s.m})
				x := *s.s
				sub.Subscribe(s.f, &x)
				x = sttp.Settings{} // given settings are not looked at again
			}
			give(sets[0])
			if listen {
				if err := sub.Listen("127.0.0.1:7200", cfg); err != nil {
					panic(err)
				}
				vsched.GoNamed("pub", func() {
					c, err := net.PubDial(7200)
					if err != nil {
						panic(err)
					}
					serve(c)
				})
			} else {
				net.DialHook = func(string) (bool, time.Duration) { return true, 0 }
				net.DialDone = func(string, bool) {
					vsched.GoNamed("pub", func() {
						vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
						c := net.Accepted[0]
						net.Accepted = net.Accepted[1:]
						serve(c)
					})
				}
				sub.Dial("pub:7165", cfg)
			}
			vsched.Settle(0)
			if ask {
				sub.RequestMetadata()
				vsched.Settle(0)
			}
			for i, s := range sets[1:] {
				if unsub {
					sub.Unsubscribe()
					vsched.Settle(0)
				}
				give(s)
				vsched.Settle(0)
				if i == 0 && !listen && cur != nil {
					cur.Close() // the next connection goes by the same settings
					vsched.Settle(time.Second)
				}
			}
			sub.Close()
			vsched.Settle(0)
		}
	}
}
