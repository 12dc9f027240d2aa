package main

import (
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

// The life scenario drives connecting, listening, disconnecting, closing, losing and
// re-establishing connections, with application threads, callbacks and publishers that all act
// at their own pace.

type connPlan struct {
	kind  string // serve, drop, instant, refuse, silent
	after int    // drop: data packets sent first
	delay int    // drop: ms to wait first
	abort bool
}

type appOp struct {
	op    string // dial, listen, disc, close, sleep, settle
	arg   int
	reuse bool
}

type life struct {
	r       *run
	sub     *sttp.Subscriber
	ds      *transport.DataSubscriber
	cfg     *sttp.Config
	ncall   int
	pending map[int]string
	natt    int
	refuse  []bool
	delays  []int
	plans   []connPlan
	nconn   int
	onE     string
	onT     string
	onData  string
	fired   map[string]bool
	udp     int
	calm    bool // from now on publishers accept and serve
}

func (l *life) call(op string, f func() string) {
	l.ncall++
	id := l.ncall
	l.pending[id] = op
	l.r.log(ev{"e": "call", "op": op, "id": id, "t": ms()})
	res := f()
	delete(l.pending, id)
	l.r.log(ev{"e": "ret", "op": op, "id": id, "res": res, "t": ms()})
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	m := err.Error()
	switch {
	case strings.Contains(m, "already"):
		return "busy"
	case strings.Contains(m, "listening for"):
		return "busy"
	case strings.Contains(m, "in use"):
		return "busy"
	case strings.Contains(m, "cancel"):
		return "canceled"
	}
	return "failed"
}

// dsOf finds the transport-level subscriber inside a Subscriber, whatever the field is called.
func dsOf(sub *sttp.Subscriber) *transport.DataSubscriber {
	v := reflect.ValueOf(sub).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*transport.DataSubscriber)(nil)) {
			return (*transport.DataSubscriber)(unsafe.Pointer(f.Pointer()))
		}
	}
	panic("no transport subscriber found")
}

const subPort = 7165
const lisPort = 7175

func (l *life) dial() {
	l.call("dial", func() string {
		if l.sub != nil {
			return errClass(l.sub.Dial("pub:7165", l.cfg))
		}
		return errClass(l.ds.Connect("pub", subPort))
	})
}

func (l *life) listen() {
	l.call("listen", func() string {
		if l.sub != nil {
			return errClass(l.sub.Listen(":7175", l.cfg))
		}
		return errClass(l.ds.Listen(lisPort, ""))
	})
}

func (l *life) disc() {
	l.call("disc", func() string {
		if l.sub != nil {
			l.sub.Disconnect()
		} else {
			l.ds.Disconnect()
		}
		return "ok"
	})
}

func (l *life) close() {
	l.call("close", func() string {
		if l.sub != nil {
			l.sub.Close()
		} else {
			l.ds.Dispose()
		}
		return "ok"
	})
}

// subscribe asks for data, through a UDP channel in some runs.
func (l *life) subscribe() {
	if l.sub == nil {
		l.ds.Subscription().UdpDataChannel = l.udp > 0
		l.ds.Subscription().DataChannelLocalPort = uint16(l.udp)
		l.ds.Subscribe()
		return
	}
	st := sttp.NewSettings()
	st.UdpPort = uint16(l.udp)
	l.sub.Subscribe("FILTER ActiveMeasurements WHERE True", st)
}

func (l *life) react(where, op string) {
	if op == "" || l.fired[where] {
		return
	}
	l.fired[where] = true
	switch op {
	case "disc":
		l.disc()
	case "query":
		l.isConnected()
	}
}

func (l *life) isConnected() bool { return l.ds.IsConnected() }

func (l *life) snap() {
	nlib := 0
	for _, t := range vsched.Threads() {
		if strings.Contains(t, ".go:") || strings.HasPrefix(t, "timer") {
			nlib++
		}
	}
	pd, pz := 0, 0
	for _, op := range l.pending {
		if op == "dial" || op == "listen" {
			pd++
		} else {
			pz++
		}
	}
	l.r.log(ev{"e": "snap", "t": ms(), "conn": l.ds.IsConnected(), "lis": l.ds.IsListening(), "open": net.Open(), "udp": net.OpenUDP(),
		"port": net.Listening(lisPort), "threads": nlib, "pdial": pd, "pdisc": pz})
}

func (l *life) setup(level string) {
	r := l.r
	onE := func() {
		r.log(ev{"e": "E", "k": l.ds.IsConnected(), "t": ms()})
		l.react("E", l.onE)
	}
	onT := func() {
		r.log(ev{"e": "T", "t": ms(), "k": l.ds.IsConnected()})
		l.react("T", l.onT)
	}
	onData := func(m *[]transport.Measurement) {
		for _, x := range *m {
			r.log(ev{"e": "data", "c": int(x.Value) / 1000, "k": int(x.Value) % 1000})
		}
		l.react("data", l.onData)
	}
	if level == "sub" {
		l.sub = sttp.NewSubscriber()
		l.sub.SetStatusMessageLogger(func(string) {})
		l.sub.SetErrorMessageLogger(func(string) {})
		l.sub.SetConnectionEstablishedReceiver(onE)
		l.sub.SetConnectionTerminatedReceiver(onT)
		l.sub.SetNewMeasurementsReceiver(onData)
		l.ds = dsOf(l.sub)
	} else {
		l.ds = transport.NewDataSubscriber()
		l.ds.ConnectionEstablishedCallback = onE
		l.ds.ConnectionTerminatedCallback = onT
		l.ds.NewMeasurementsCallback = onData
		l.ds.CompressPayloadData = false
		l.ds.CompressMetadata = false
		l.ds.CompressSignalIndexCache = false
	}
	net.DialHook = func(addr string) (bool, time.Duration) {
		k := l.natt
		l.natt++
		ok := k >= len(l.refuse) || !l.refuse[k]
		d := 0
		if k < len(l.delays) {
			d = l.delays[k]
		}
		if l.calm {
			ok, d = true, 0
		}
		r.log(ev{"e": "att", "t": ms()})
		return ok, time.Duration(d) * time.Millisecond
	}
	net.DialDone = func(addr string, ok bool) {
		if ok {
			// the publisher's thread is told which connection by its accept queue
			vsched.GoNamed("pub", func() { l.publisher(nil) })
		}
		r.log(ev{"e": "dialed", "ok": ok, "c": net.NextID(), "t": ms()})
	}
	net.OnClose = func(id int) { r.log(ev{"e": "sclose", "c": id, "t": ms()}) }
	net.OnListen = func(port int, open bool) { r.log(ev{"e": "lis", "open": open}) }
}

// publisher serves one connection.
func (l *life) publisher(c *net.TCPConn) {
	if c == nil {
		vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
		c = net.Accepted[0]
		net.Accepted = net.Accepted[1:]
	}
	r := l.r
	k := l.nconn
	l.nconn++
	p := connPlan{kind: "serve"}
	if k < len(l.plans) && !l.calm {
		p = l.plans[k]
	}
	end := func() {
		r.log(ev{"e": "pclose", "c": c.ID, "t": ms()})
		if p.abort {
			c.Abort()
		} else {
			c.Close()
		}
	}
	switch p.kind {
	case "instant":
		end()
		return
	case "silent":
		return
	}
	for {
		code, _, err := readCmd(c)
		if err != nil {
			return
		}
		switch code {
		case cmdModes:
			if p.kind == "refuse" {
				r.log(ev{"e": "refuse", "c": c.ID})
				c.Write(packet(rspFail, cmdModes, []byte("no")))
				vtime.Sleep(time.Millisecond)
				end()
				return
			}
			c.Write(packet(rspOK, cmdModes, nil))
			if l.sub == nil {
				vsched.GoNamed("pubdata", func() { l.stream(c, p, end) })
			}
		case cmdMetadata:
			x := []byte(metaXML)
			if l.ds.CompressMetadata {
				x = gz(x)
			}
			c.Write(packet(rspOK, cmdMetadata, x))
		case cmdSubscribe:
			c.Write(packet(rspOK, cmdSubscribe, []byte("subscribed")))
			vsched.GoNamed("pubdata", func() { l.stream(c, p, end) })
		case cmdUnsubscribe:
			c.Write(packet(rspOK, cmdUnsubscribe, nil))
		}
	}
}

func (l *life) stream(c *net.TCPConn, p connPlan, end func()) {
	c.Write(packet(rspCache, cmdSubscribe, sic(2, 0, l.ds.CompressSignalIndexCache, sigID(9), []rec{{1, sigID(1), "PPA", 1}})))
	for i := 0; p.kind == "serve" && i < 3 || i < p.after; i++ {
		if l.udp > 0 {
			net.SendUDP(l.udp, body(rspData, cmdSubscribe, compactSimple(0, []float32{float32(c.ID*1000 + i)}, 1)))
			continue
		}
		if _, err := c.Write(packet(rspData, cmdSubscribe, compactSimple(0, []float32{float32(c.ID*1000 + i)}, 1))); err != nil {
			return
		}
		if i%2 == 1 {
			vtime.Sleep(time.Millisecond)
		}
	}
	if p.kind == "drop" {
		if p.delay > 0 {
			vtime.Sleep(time.Duration(p.delay) * time.Millisecond)
		}
		end()
	}
}

func (l *life) pubDial() {
	c, err := net.PubDial(lisPort)
	if err != nil {
		l.r.log(ev{"e": "pdial", "c": 0})
		return
	}
	l.r.log(ev{"e": "pdial", "c": c.ID})
	l.publisher(c)
}

func (l *life) app(ops []appOp) {
	for _, o := range ops {
		switch o.op {
		case "dial":
			l.dial()
		case "listen":
			l.listen()
		case "disc":
			l.disc()
		case "close":
			l.close()
		case "sleep":
			vtime.Sleep(time.Duration(o.arg) * time.Millisecond)
		case "pub":
			l.pubDial()
		case "giveup":
			net.PubAbort(lisPort)
		case "sub":
			l.subscribe()
		case "unsub":
			if l.sub != nil {
				l.sub.Unsubscribe()
			} else {
				l.ds.Unsubscribe()
			}
		}
	}
}

var sleeps = []int{0, 0, 1, 1, 2, 5, 10, 10, 11, 20, 30, 50}

func init() {
	scns["life"] = func(r *run) {
		l := &life{r: r, pending: map[int]string{}, fired: map[string]bool{}}
		level := "sub"
		if r.chance(0.25) {
			level = "ds"
		}
		listen := r.chance(0.35)
		if *prof == "listen" {
			listen = true
		}
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = r.chance(0.7)
		cfg.MaxRetries = -1
		cfg.RetryInterval = []int32{10, 20}[r.pick(2)]
		cfg.MaxRetryInterval = []int32{30, 50}[r.pick(2)]
		cfg.AutoRequestMetadata = r.chance(0.5)
		cfg.AutoSubscribe = r.chance(0.8)
		cfg.CompressPayloadData = false
		cfg.CompressMetadata = r.chance(0.3)
		cfg.CompressSignalIndexCache = false
		l.cfg = cfg
		mode := "dial"
		if listen {
			mode = "listen"
		}
		r.cfg["level"], r.cfg["auto"], r.cfg["maxr"] = level, cfg.AutoReconnect && level == "sub", int(cfg.MaxRetries)
		for k := r.pick(4); k > 0; k-- {
			l.refuse = append(l.refuse, r.chance(0.6))
			l.delays = append(l.delays, []int{0, 0, 1, 10, 15}[r.pick(5)])
		}
		for k := r.pick(5); k > 0; k-- {
			p := connPlan{kind: []string{"serve", "drop", "drop", "drop", "instant", "refuse", "silent"}[r.pick(7)], after: r.pick(3), delay: sleeps[r.pick(len(sleeps))], abort: r.chance(0.4)}
			l.plans = append(l.plans, p)
		}
		if r.chance(0.2) {
			l.onE = []string{"disc", "query"}[r.pick(2)]
		}
		if r.chance(0.2) {
			l.onT = []string{"disc", "query"}[r.pick(2)]
		}
		if r.chance(0.2) {
			l.onData = []string{"disc", "query"}[r.pick(2)]
		}
		sleep := func() appOp { return appOp{op: "sleep", arg: sleeps[r.pick(len(sleeps))]} }
		var a, b []appOp
		a = append(a, appOp{op: mode})
		for k := r.pick(3); k > 0; k-- {
			a = append(a, sleep(), appOp{op: "disc"})
			if r.chance(0.5) {
				a = append(a, sleep())
			}
			if r.chance(0.3) {
				if mode == "dial" {
					mode, listen = "listen", true
				} else {
					mode = "dial"
				}
			}
			a = append(a, appOp{op: mode})
		}
		if r.chance(0.5) {
			b = append(b, sleep(), appOp{op: "disc"})
			if r.chance(0.2) {
				b = append(b, sleep(), appOp{op: "disc"})
			}
		} else if r.chance(0.2) {
			b = append(b, sleep(), appOp{op: "close"})
		}
		if *prof == "swap" {
			// connections that publisher and application end at the same time, and the next one at once
			cfg.AutoReconnect = r.chance(0.2)
			r.cfg["auto"] = cfg.AutoReconnect && level == "sub"
			l.refuse, l.delays, l.plans, l.onE, l.onT, l.onData = nil, nil, nil, "", "", ""
			a, b = nil, nil
			for k := 1 + r.pick(3); k > 0; k-- {
				d := r.pick(4)
				l.plans = append(l.plans, connPlan{kind: []string{"drop", "drop", "instant"}[r.pick(3)], after: r.pick(2), delay: d, abort: r.chance(0.4)})
				a = append(a, appOp{op: "dial"})
				if r.chance(0.8) {
					a = append(a, appOp{op: "sleep", arg: d})
				}
				a = append(a, appOp{op: "disc"})
			}
			a = append(a, appOp{op: "dial"})
			listen = false
		}
		if r.chance(0.25) {
			l.udp = 9600
		}
		r.cfg["udp"] = l.udp > 0
		var d []appOp
		if r.chance(0.3) {
			for k := 1 + r.pick(3); k > 0; k-- {
				d = append(d, sleep(), appOp{op: []string{"sub", "unsub", "sub"}[r.pick(3)]})
			}
		}
		npub := 0
		if listen {
			npub = 1 + r.pick(3)
		}
		var pubs [][]appOp
		for i := 0; i < npub; i++ {
			p := []appOp{sleep(), {op: "pub"}}
			if r.chance(0.25) {
				p = []appOp{sleep(), {op: "giveup"}, sleep(), {op: "pub"}}
			}
			if r.chance(0.5) {
				p = append(p, sleep(), appOp{op: "pub"})
			}
			pubs = append(pubs, p)
		}
		long := r.chance(0.2)
		if long {
			// a stop need not wait for the next attempt
			cfg.RetryInterval, cfg.MaxRetryInterval = 1800, 1800
		} else if r.chance(0.3) && !r.nojump {
			r.st.Jump = 0.02
		}
		r.cfg["long"] = long
		pause := 2 * time.Second
		if long {
			pause = 20 * time.Second
		}
		final := r.pick(4)
		r.body = func() {
			l.setup(level)
			if l.sub != nil {
				l.subscribe()
			}
			vsched.GoNamed("app", func() { l.app(a) })
			if len(b) > 0 {
				vsched.GoNamed("app", func() { l.app(b) })
			}
			if len(d) > 0 {
				vsched.GoNamed("app", func() { l.app(d) })
			}
			for _, p := range pubs {
				p := p
				vsched.GoNamed("pubapp", func() { l.app(p) })
			}
			vsched.Settle(pause)
			l.snap()
			closed := len(b) > 0 && b[len(b)-1].op == "close"
			if final > 0 && !closed {
				vsched.GoNamed("app", l.disc)
				vsched.Settle(pause)
				l.snap()
				vsched.Settle(time.Second)
				l.snap()
				l.calm = true
				if final == 1 {
					vsched.GoNamed("app", l.dial)
				} else {
					vsched.GoNamed("app", l.listen)
					vsched.Settle(0)
					if final == 3 {
						net.PubAbort(lisPort)
					}
					vsched.GoNamed("pubapp", l.pubDial)
				}
				vsched.Settle(pause)
				l.snap()
			}
			if !closed {
				vsched.GoNamed("app", l.close)
				vsched.Settle(pause)
				l.snap()
			}
			vsched.Settle(time.Second)
			l.snap()
		}
	}
}
