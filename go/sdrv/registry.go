package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

var regCols = []string{"SignalID", "ID", "PointTag", "SignalReference", "SignalAcronym", "Description", "UpdatedOn"}

const metaXsd = `<?xml version="1.0"?><DataSet><xs:schema id="DataSet" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ext="urn:schemas-microsoft-com:xml-msdata"><xs:element name="DataSet"><xs:complexType><xs:choice minOccurs="0" maxOccurs="unbounded">%s</xs:choice></xs:complexType></xs:element></xs:schema>`

// ticksText writes a time given in 100-nanosecond units since the year 1.
func ticksText(t int64) string {
	s := t / 10000000
	x := time.Unix(s-62135596800, 0).UTC()
	return x.Format("2006-01-02T15:04:05") + fmt.Sprintf(".%07dZ", t%10000000)
}

func ticksOf(t time.Time) []byte {
	return u64(uint64((t.Unix()+62135596800)*10000000 + int64(t.Nanosecond())/100))
}

// The registry scenario: lookups from several goroutines while metadata and caches arrive.
func init() {
	scns["registry"] = func(r *run) {
		cfg := sttp.NewConfig()
		cfg.AutoReconnect = true
		cfg.RetryInterval = 5
		cfg.AutoRequestMetadata = r.chance(0.3)
		cfg.AutoSubscribe = r.chance(0.5)
		cfg.CompressPayloadData = false
		cfg.CompressMetadata = r.chance(0.3)
		cfg.CompressSignalIndexCache = r.chance(0.3)
		nsig := 1 + r.pick(4)
		nconn := 1 + r.pick(2)
		word := func(tag string) string {
			if r.chance(0.15) {
				return ""
			}
			return fmt.Sprint(tag, r.pick(1000))
		}
		type msg struct {
			e      ev
			raw    []byte
			settle bool
		}
		meta := func() msg {
			cols := []string{}
			for i, c := range regCols {
				if i == 0 && !r.chance(0.05) || i > 0 && r.chance(0.85) {
					cols = append(cols, c)
				}
			}
			has := map[string]bool{}
			table, spell := "MeasurementDetail", func(c string) string { return c }
			if r.chance(0.05) {
				table = "OtherDetail"
			}
			if r.chance(0.1) {
				spell = strings.ToUpper
			}
			r.rng.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
			other := `<xs:element name="%s"><xs:complexType><xs:sequence><xs:element name="VersionNumber" type="xs:int" minOccurs="0" /><xs:element name="SignalID" ext:DataType="System.Guid" type="xs:string" minOccurs="0" /><xs:element name="PointTag" type="xs:string" minOccurs="0" /></xs:sequence></xs:complexType></xs:element>`
			xsd := ""
			var others []string
			for _, n := range []string{"SchemaVersion", "DeviceDetail", "PhasorDetail"} {
				if r.chance(0.15) {
					others = append(others, n)
					xsd += fmt.Sprintf(other, n)
				}
			}
			xsd += `<xs:element name="` + table + `"><xs:complexType><xs:sequence>`
			for _, c := range cols {
				has[c] = true
				c := c
				if c != "SignalID" && c != "UpdatedOn" {
					c = spell(c)
				}
				switch c {
				case "SignalID":
					xsd += `<xs:element name="SignalID" ext:DataType="System.Guid" type="xs:string" minOccurs="0" />`
				case "UpdatedOn":
					xsd += `<xs:element name="UpdatedOn" type="xs:dateTime" minOccurs="0" />`
				default:
					xsd += `<xs:element name="` + c + `" type="xs:string" minOccurs="0" />`
				}
			}
			xsd += `</xs:sequence></xs:complexType></xs:element>`
			x := fmt.Sprintf(metaXsd, xsd)
			rows := []ev{}
			for k := r.pick(4); k >= 0; k-- {
				s := 1 + r.pick(nsig)
				if r.chance(0.06) {
					s = 0 // a row without a signal
				}
				for _, n := range others {
					x += "<" + n + "><VersionNumber>" + fmt.Sprint(s) + "</VersionNumber><SignalID>" + guid.Guid(sigID(1+s)).String() + "</SignalID><PointTag>not this</PointTag></" + n + ">"
				}
				x += "<" + table + ">"
				row := ev{"s": s, "key": false, "src": "", "num": ints(u64(0)), "tag": "", "type": "", "ref": "", "desc": "", "upd": ints(nil)}
				add := func(col, f, v string) {
					if has[col] && v != "" {
						n := col
						if col != "SignalID" && col != "UpdatedOn" {
							n = spell(col)
						}
						x += "<" + n + ">" + v + "</" + n + ">"
						if f != "" {
							row[f] = v
						}
					}
				}
				if s > 0 {
					add("SignalID", "", guid.Guid(sigID(s)).String())
				}
				if has["ID"] {
					switch r.pick(8) {
					case 0:
						add("ID", "", "nokey")
					case 1:
						add("ID", "", "A:B:7")
					case 2:
					default:
						src, num := fmt.Sprint("M", r.pick(100)), uint64(r.pick(1000))
						if r.chance(0.1) {
							num = r.rng.Uint64()
						}
						add("ID", "", fmt.Sprint(src, ":", num))
						row["key"], row["src"], row["num"] = true, src, ints(u64(num))
					}
				}
				add("PointTag", "tag", word("TAG-"))
				add("SignalReference", "ref", word("REF-"))
				add("SignalAcronym", "type", word("T"))
				add("Description", "desc", word("words and "))
				if has["UpdatedOn"] && r.chance(0.85) {
					t := int64(630000000000000000) + int64(r.rng.Int63n(1e16))
					add("UpdatedOn", "", ticksText(t))
					row["upd"] = ints(u64(uint64(t)))
				}
				x += "</" + table + ">"
				rows = append(rows, row)
			}
			b := []byte(x + "</DataSet>")
			if r.chance(0.05) {
				b = b[:r.pick(len(b)-1)]
				rows = []ev{}
			}
			if table != "MeasurementDetail" {
				rows = []ev{}
			}
			if cfg.CompressMetadata {
				b = gz(b)
			}
			return msg{ev{"e": "meta", "rows": rows, "cols": cols}, packet(rspOK, cmdMetadata, b), false}
		}
		cache := func() msg {
			rs := []ev{}
			var recs []rec
			for _, k := range r.rng.Perm(nsig)[:1+r.pick(nsig)] {
				c := rec{int32(k), sigID(k + 1), fmt.Sprint("C", r.pick(100)), uint64(r.pick(1000))}
				recs = append(recs, c)
				rs = append(rs, ev{"s": k + 1, "src": c.Src, "num": ints(u64(c.Num))})
			}
			return msg{ev{"e": "cache", "rs": rs}, packet(rspCache, cmdSubscribe, sic(2, r.pick(2), cfg.CompressSignalIndexCache, sigID(99), recs)), false}
		}
		var scripts [][]msg
		for i := 0; i < nconn; i++ {
			var s []msg
			open := false // metadata on its way
			for k := r.pick(5); k > 0; k-- {
				var m msg
				if r.chance(0.5) {
					m = meta()
					m.settle = open || r.chance(0.2)
					open = true
				} else {
					m = cache()
					m.settle = r.chance(0.3)
				}
				s = append(s, m)
			}
			scripts = append(scripts, s)
		}
		type op struct {
			s, gap, m, a int
			via          int
		}
		var apps [][]op
		for i := 1 + r.pick(3); i > 0; i-- {
			var l []op
			for k := 1 + r.pick(5); k > 0; k-- {
				o := op{s: 1 + r.pick(nsig), gap: []int{0, 0, 0, 1}[r.pick(4)], via: r.pick(2)}
				if len(apps) == 0 && r.chance(0.3) {
					o.m, o.a = r.pick(9)-4, r.pick(100)-50
					if o.m == 0 {
						o.m = 7
					}
				}
				l = append(l, o)
			}
			apps = append(apps, l)
		}
		vals := []int{r.pick(200) - 100, r.pick(10000)}
		extra := meta() // what a metadata request is answered with
		r.body = func() {
			sub := sttp.NewSubscriber()
			ptrs := map[*transport.MeasurementMetadata]int{}
			num := func(p *transport.MeasurementMetadata) int {
				if ptrs[p] == 0 {
					ptrs[p] = len(ptrs) + 1
				}
				return ptrs[p]
			}
			estab := 0
			sub.SetStatusMessageLogger(func(string) {})
			sub.SetErrorMessageLogger(func(string) {})
			sub.SetConnectionEstablishedReceiver(func() { r.log(ev{"e": "E"}); estab++ })
			sub.SetConnectionTerminatedReceiver(func() {})
			see := func() {
				vsched.Settle(0)
				for s := 1; s <= nsig+1; s++ {
					m := transport.Measurement{SignalID: sigID(s)}
					for _, v := range vals {
						m.Value = float64(v)
						w := sub.AdjustedValue(&m)
						if w != float64(int(w)) {
							w = 123456789
						}
						r.log(ev{"e": "adj", "s": s, "v": v, "w": int(w)})
					}
					p := sub.LookupMetadata(sigID(s))
					f := ev{"src": p.Source, "num": ints(u64(p.ID)), "tag": p.Tag, "type": p.SignalType, "ref": p.SignalReference, "desc": p.Description, "upd": ints(nil), "mult": int(p.Multiplier), "add": int(p.Adder)}
					if !p.UpdatedOn.IsZero() {
						f["upd"] = ints(ticksOf(p.UpdatedOn))
					}
					if p.SignalID != guid.Guid(sigID(s)) {
						f["src"] = "wrong signal"
					}
					r.log(ev{"e": "see", "s": s, "p": num(p), "f": f})
				}
			}
			k, finished, answered := 0, 0, 0
			net.DialHook = func(string) (bool, time.Duration) { return k < len(scripts), 0 }
			net.DialDone = func(_ string, ok bool) {
				if !ok {
					return
				}
				script := scripts[k]
				k++
				want := k
				vsched.GoNamed("pub", func() {
					vsched.Block("accept", func() bool { return len(net.Accepted) > 0 })
					c := net.Accepted[0]
					net.Accepted = net.Accepted[1:]
					vsched.GoNamed("pubin", func() {
						for {
							code, _, err := readCmd(c)
							if err != nil {
								return
							}
							if code == cmdModes {
								c.Write(packet(rspOK, cmdModes, nil))
								answered++
							}
							if code == cmdMetadata {
								vsched.Settle(0)
								r.log(extra.e)
								c.Write(extra.raw)
								vsched.Settle(0)
							}
						}
					})
					vsched.Block("E", func() bool { return estab >= want && answered >= want })
					if cfg.AutoRequestMetadata {
						vsched.Settle(5 * time.Millisecond)
					}
					for _, m := range script {
						if m.settle {
							vsched.Settle(0)
						}
						r.log(m.e)
						c.Write(m.raw)
						if r.chance(0.2) {
							vtime.Sleep(time.Millisecond)
						}
					}
					vsched.Settle(20 * time.Millisecond)
					see()
					r.log(ev{"e": "cut"})
					finished++
					if want < len(scripts) {
						c.Close()
					}
				})
			}
			key := 0
			for _, l := range apps {
				l := l
				vsched.GoNamed("app", func() {
					for c := 1; c <= len(scripts); c++ {
						vsched.Block("E", func() bool { return estab >= c })
						for _, o := range l {
							if o.gap > 0 {
								vtime.Sleep(time.Millisecond)
							}
							key++
							id := key
							r.log(ev{"e": "look", "k": id, "s": o.s})
							var p *transport.MeasurementMetadata
							if o.via == 0 {
								p = sub.LookupMetadata(sigID(o.s))
							} else {
								p = sub.Metadata(&transport.Measurement{SignalID: sigID(o.s)})
							}
							r.log(ev{"e": "got", "k": id, "p": num(p)})
							if o.m != 0 {
								r.log(ev{"e": "set", "p": num(p), "m": o.m, "a": o.a})
								p.Multiplier, p.Adder = float64(o.m), float64(o.a)
							}
						}
					}
				})
			}
			sub.Dial("pub:7165", cfg)
			vsched.Block("scripts", func() bool { return finished == len(scripts) })
			sub.Close()
			vsched.Settle(time.Second)
		}
	}
}
