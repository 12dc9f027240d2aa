package main

import (
	"encoding/binary"
	"net"
	"strconv"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	vnet "github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// stated gives what the operational modes say of the configuration's compression settings, and 8
// if the configuration makes requests when connected.
func stated(cfg *sttp.Config) int {
	n := 0
	if cfg != nil {
		for i, on := range []bool{cfg.CompressPayloadData, cfg.CompressSignalIndexCache, cfg.CompressMetadata} {
			if on {
				n |= 1 << uint(i)
			}
		}
		if cfg.AutoRequestMetadata || cfg.AutoSubscribe {
			n |= 8
		}
	}
	return n
}

// The starts scenario calls Dial and Listen at the same time and again while a connection or a
// listener is in effect, with good and malformed addresses.
func init() {
	type address struct {
		text, host string
		port       int
		good, name bool
	}
	addr := func(host string, port int) address {
		return address{text: net.JoinHostPort(host, strconv.Itoa(port)), host: host, port: port, good: true, name: net.ParseIP(host) == nil}
	}
	scns["starts"] = func(r *run) {
		hosts := []string{"pub", "127.0.0.1", "10.1.2.3", "::1", "fe80::1%eth0", "publisher.example.com", ""}
		ports := []int{1, 80, 7165, 32768, 65535}
		target := addr(hosts[r.pick(len(hosts))], ports[r.pick(len(ports))])
		ifaces := []string{"", "", "127.0.0.1", "::1", "0.0.0.0"}
		local := addr(ifaces[r.pick(len(ifaces))], ports[r.pick(len(ports))])
		bad := func() address {
			t := []string{"pub", "", "pub:", "pub:x", "pub:0", "pub:65536", "pub:-1", "pub:71 65", "::1:7165", "[::1]", "pub:7165:1", "[::1", "pub:7165x", "pub:99999999999999999999", "pub:http", "pub:131072", "pub:72701"}
			return address{text: t[r.pick(len(t))]}
		}
		config := func() *sttp.Config {
			cfg := sttp.NewConfig()
			cfg.AutoReconnect = r.chance(0.5)
			cfg.MaxRetries = []int32{-1, 0, 1, 3}[r.pick(4)]
			if cfg.AutoReconnect {
				// Enough to get through
				cfg.MaxRetries = []int32{-1, 8}[r.pick(2)]
			}
			cfg.RetryInterval, cfg.MaxRetryInterval = 10, 30
			cfg.AutoRequestMetadata, cfg.AutoSubscribe = false, false
			cfg.CompressPayloadData, cfg.CompressMetadata, cfg.CompressSignalIndexCache = false, false, false
			return cfg
		}
		cfg0 := config()
		var refuse []bool
		for k := r.pick(4); k > 0; k-- {
			refuse = append(refuse, r.chance(0.5))
		}
		delays := []int{0, 0, 1, 5, 20}
		type startOp struct {
			op    string
			a     address
			cfg   *sttp.Config
			sleep int
		}
		pick := func() string { return []string{"dial", "listen"}[r.pick(2)] }
		of := func(op string) address {
			if op == "dial" {
				return target
			}
			return local
		}
		var first [][]startOp
		main := pick()
		for k := 1 + r.pick(3); k > 0; k-- {
			var ops []startOp
			for j := 1 + r.pick(2); j > 0; j-- {
				op := main
				if r.chance(0.3) {
					op = pick()
				}
				a := of(op)
				if r.chance(0.15) {
					a = bad()
				}
				ops = append(ops, startOp{op, a, cfg0, delays[r.pick(5)]})
			}
			first = append(first, ops)
		}
		var again []startOp
		for k := r.pick(4); k > 0; k-- {
			op := pick()
			a := addr(hosts[r.pick(len(hosts))], ports[r.pick(len(ports))])
			if r.chance(0.3) {
				a = of(op)
			}
			if r.chance(0.3) {
				a = bad()
			}
			cfg := config()
			cfg.CompressPayloadData, cfg.CompressMetadata, cfg.CompressSignalIndexCache = r.chance(0.5), r.chance(0.5), r.chance(0.5)
			cfg.AutoRequestMetadata, cfg.AutoSubscribe = r.chance(0.3), r.chance(0.5)
			if r.chance(0.3) {
				cfg = nil
			}
			again = append(again, startOp{op, a, cfg, delays[r.pick(5)]})
		}
		occupied := r.chance(0.15)
		drop := r.chance(0.6)
		late := r.chance(0.4)
		r.cfg["auto"] = cfg0.AutoReconnect
		r.body = func() {
			sub := sttp.NewSubscriber()
			quiet := func(string) {}
			sub.SetStatusMessageLogger(quiet)
			sub.SetErrorMessageLogger(quiet)
			sub.SetConnectionEstablishedReceiver(func() { r.log(ev{"e": "E"}) })
			sub.SetConnectionTerminatedReceiver(func() { r.log(ev{"e": "T"}) })
			sub.SetNewMeasurementsReceiver(func(ms *[]transport.Measurement) {
				for _, m := range *ms {
					r.log(ev{"e": "data", "k": int(m.Value)})
				}
			})
			natt, sent, calls := 0, 0, 0
			var peer *vnet.TCPConn
			serve := func(c *vnet.TCPConn) {
				peer = c
				for {
					code, b, err := readCmd(c)
					if err != nil {
						return
					}
					if code == cmdModes && len(b) == 4 {
						r.log(ev{"e": "modes", "x": int(binary.BigEndian.Uint32(b) >> 29)})
						c.Write(packet(rspOK, cmdModes, nil))
						c.Write(packet(rspCache, cmdSubscribe, sic(2, 0, false, sigID(9), []rec{{1, sigID(1), "PPA", 1}})))
					} else if code == cmdMetadata || code == cmdSubscribe {
						r.log(ev{"e": "req"})
					}
				}
			}
			at := func(a string) (string, int) {
				h, p, _ := net.SplitHostPort(a)
				n, _ := strconv.Atoi(p)
				return h, n
			}
			vnet.DialHook = func(a string) (bool, time.Duration) {
				h, p := at(a)
				r.log(ev{"e": "att", "host": h, "port": p})
				no := natt < len(refuse) && refuse[natt]
				natt++
				return !no, time.Duration(delays[natt%5]) * time.Millisecond
			}
			vnet.DialDone = func(_ string, ok bool) {
				r.log(ev{"e": "dialed", "ok": ok})
				if ok {
					vsched.GoNamed("pub", func() {
						vsched.Block("accept", func() bool { return len(vnet.Accepted) > 0 })
						c := vnet.Accepted[0]
						vnet.Accepted = vnet.Accepted[1:]
						serve(c)
					})
				}
			}
			bound := 0
			vnet.OnBind = func(a string) {
				h, p := at(a)
				bound = p
				r.log(ev{"e": "bind", "host": h, "port": p})
			}
			vnet.OnListen = func(_ int, open bool) {
				if !open {
					r.log(ev{"e": "unbind"})
				}
			}
			start := func(o startOp) {
				calls++
				id := calls
				r.log(ev{"e": "call", "id": id, "op": o.op, "good": o.a.good, "host": o.a.host, "port": o.a.port, "name": o.a.name, "auto": o.cfg != nil && o.cfg.AutoReconnect, "set": stated(o.cfg), "t": ms()})
				var err error
				if o.op == "dial" {
					err = sub.Dial(o.a.text, o.cfg)
				} else {
					err = sub.Listen(o.a.text, o.cfg)
				}
				r.log(ev{"e": "ret", "id": id, "ok": err == nil, "t": ms()})
			}
			send := func() {
				if peer == nil || !sub.IsConnected() {
					return
				}
				for k := 1 + sent%3; k > 0; k-- {
					sent++
					r.log(ev{"e": "tx", "k": sent})
					peer.Write(packet(rspData, cmdSubscribe, compactSimple(0, []float32{float32(sent)}, 1)))
				}
			}
			rest := func() {
				vsched.Settle(5 * time.Second)
				r.log(ev{"e": "rest", "conn": sub.IsConnected(), "lis": sub.IsListening()})
			}
			publish := func() {
				if sub.IsListening() && !sub.IsConnected() {
					c, err := vnet.PubDial(bound)
					if err == nil {
						r.log(ev{"e": "pub"})
						vsched.GoNamed("pub", func() { serve(c) })
						rest()
					}
				}
			}
			if occupied {
				vnet.Occupy(local.port)
			}
			r.log(ev{"e": "taken", "port": map[bool]int{true: local.port}[occupied]})
			for _, ops := range first {
				ops := ops
				vsched.GoNamed("app", func() {
					for _, o := range ops {
						vtime.Sleep(time.Duration(o.sleep) * time.Millisecond)
						start(o)
					}
				})
			}
			rest()
			if !late {
				publish()
			}
			if sub.IsConnected() || sub.IsListening() {
				vsched.GoNamed("pubdata", func() {
					for k := 0; k < 3; k++ {
						send()
						vtime.Sleep(time.Millisecond)
					}
				})
				for _, o := range again {
					vtime.Sleep(time.Duration(o.sleep) * time.Millisecond)
					start(o)
				}
				rest()
				publish()
				if drop && sub.IsConnected() {
					c := peer
					peer = nil
					r.log(ev{"e": "lose"})
					c.Close()
					rest()
					publish()
					send()
					rest()
				}
				r.log(ev{"e": "stop"})
				sub.Disconnect()
				vsched.Settle(5 * time.Second)
				r.log(ev{"e": "off", "conn": sub.IsConnected(), "lis": sub.IsListening()})
				peer = nil
			}
			if occupied {
				vnet.Vacate(local.port)
			}
			r.log(ev{"e": "taken", "port": 0})
			refuse = nil
			main = map[string]string{"dial": "listen", "listen": "dial"}[main]
			vsched.GoNamed("app", func() { start(startOp{main, of(main), cfg0, 0}) })
			rest()
			publish()
			send()
			rest()
			r.log(ev{"e": "stop"})
			sub.Close()
			vsched.Settle(time.Second)
			r.log(ev{"e": "off", "conn": sub.IsConnected(), "lis": sub.IsListening()})
		}
	}
}
