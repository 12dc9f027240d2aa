package main

import (
	"strconv"
	"time"

	"github.com/sttp/goapi/sttp/ticks"
)

func codes(s string) []int {
	r := make([]int, 0, len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

func udec(x uint64) []int { return codes(strconv.FormatUint(x, 10)) }
func idec(x int64) []int  { return codes(strconv.FormatInt(x, 10)) }

func parts(t time.Time) []int {
	return []int{t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()}
}

func tickValue() uint64 {
	const day = 864000000000
	const max = 3155378975999999999
	var v int64
	switch rng.Intn(8) {
	case 0:
		v = rng.Int63n(3652059) * day
	case 1:
		v = []int64{0, max, 621355968000000000, 621355968000000000 + 92233720368547758, 621355968000000000 - 92233720368547758,
			621355968000000000 + 184467440737095516, 621355968000000000 - 184467440737095516}[rng.Intn(7)]
	case 2:
		v = time.Date(1+rng.Intn(9999), time.Month(1+rng.Intn(12)), 1, 0, 0, 0, 0, time.UTC).Unix()*10000000 + 621355968000000000
	case 3:
		v = 621355968000000000 + rng.Int63n(20000)*day + rng.Int63n(day)
	case 4:
		v = rng.Int63n(3652059*86400) * 10000000
	default:
		v = rng.Int63n(max + 1)
	}
	if rng.Intn(3) == 0 {
		v += rng.Int63n(7) - 3
	}
	if v < 0 {
		v = 0
	}
	if v > max {
		v = max
	}
	return uint64(v)
}

func init() {
	drvs["C21"] = func() {
		consts := [][]int{}
		for _, x := range []ticks.Ticks{ticks.Min, ticks.Max, ticks.PerMicrosecond, ticks.PerMillisecond, ticks.PerSecond, ticks.PerMinute, ticks.PerHour, ticks.PerDay,
			ticks.LeapSecondFlag, ticks.LeapSecondDirection, ticks.ValueMask, ticks.UnixBaseOffset} {
			consts = append(consts, udec(uint64(x)))
		}
		emit(m{"k": "const", "x": consts})
		local := time.Local
		for _, off := range []int{0, -5 * 3600, 12 * 3600} { // wherever that is
			time.Local = time.FixedZone("z", off)
			t0 := time.Now().UTC()
			x := ticks.UtcNow()
			emit(m{"k": "now", "t0": parts(t0), "x": udec(uint64(x)), "t1": parts(time.Now().UTC())})
		}
		time.Local = local
		for i := 0; i < *n; i++ {
			switch i % 4 {
			case 0, 1:
				v := tickValue()
				switch rng.Intn(6) {
				case 0:
					v |= 1 << 63
				case 1:
					v |= 3 << 62
				case 2:
					v |= 1 << 62
				}
				x := ticks.Ticks(v)
				t, mt := ticks.ToTime(x), x.ToTime()
				c := map[string]interface{}{"k": "ticks", "x": udec(v), "t": parts(t), "mt": parts(mt),
					"utc":  t.Location() == time.UTC && mt.Location() == time.UTC,
					"back": udec(uint64(ticks.FromTime(t))), "val": idec(x.TimestampValue()), "nano": udec(x.ToUnixNano()),
					"unback": udec(uint64(ticks.FromUnixNano(x.ToUnixNano()))),
					"leap":   ticks.IsLeapSecond(x), "mleap": x.IsLeapSecond(), "neg": ticks.IsNegativeLeapSecond(x), "mneg": x.IsNegativeLeapSecond(),
					"long": codes(x.String()), "short": codes(x.ShortTime())}
				steps := []string{}
				y := x
				for k := rng.Intn(5); k > 0; k-- {
					op := []string{"SetLeapSecond", "ApplyLeapSecond", "MSetLeapSecond", "SetNegativeLeapSecond", "ApplyNegativeLeapSecond", "Negative", "Positive"}[rng.Intn(7)]
					switch op {
					case "SetLeapSecond":
						y = ticks.SetLeapSecond(y)
					case "ApplyLeapSecond":
						y.ApplyLeapSecond()
					case "MSetLeapSecond":
						y.SetLeapSecond()
					case "SetNegativeLeapSecond":
						y = ticks.SetNegativeLeapSecond(y)
					case "ApplyNegativeLeapSecond":
						y.ApplyNegativeLeapSecond()
					case "Negative":
						y.SetLeapSecondDirection(true)
					case "Positive":
						y.SetLeapSecondDirection(false)
					}
					steps = append(steps, op)
				}
				c["steps"], c["after"] = steps, udec(uint64(y))
				emit(c)
			case 2:
				off := 0
				if rng.Intn(2) == 0 {
					off = (rng.Intn(27) - 12) * 1800
				}
				ns := rng.Intn(1000000000)
				switch rng.Intn(4) {
				case 0:
					ns = []int{0, 1, 99, 100, 101, 999999999, 999999900, 999999899}[rng.Intn(8)]
				}
				loc := time.UTC
				if off != 0 {
					loc = time.FixedZone("z", off)
				}
				year := 1 + rng.Intn(9999)
				if rng.Intn(3) == 0 {
					year = []int{1, 2, 4, 100, 400, 1600, 1677, 1678, 1900, 1969, 1970, 2000, 2262, 2263, 9998, 9999}[rng.Intn(16)]
				}
				t := time.Date(year, time.Month(1+rng.Intn(12)), 1+rng.Intn(31), rng.Intn(24), rng.Intn(60), rng.Intn(60), ns, loc)
				if u := t.UTC().Year(); u < 1 || u > 9999 || t.Year() < 1 || t.Year() > 9999 {
					i--
					continue
				}
				emit(map[string]interface{}{"k": "time", "t": parts(t), "off": off, "x": udec(uint64(ticks.FromTime(t)))})
			case 3:
				if rng.Intn(2) == 0 {
					ns := rng.Uint64()
					if rng.Intn(4) == 0 {
						ns = []uint64{0, 1, 99, 100, 1<<63 - 1, 1 << 63, 1<<64 - 1}[rng.Intn(7)]
					}
					emit(map[string]interface{}{"k": "nano", "ns": udec(ns), "x": udec(uint64(ticks.FromUnixNano(ns)))})
				} else {
					a, b := tickValue(), tickValue()
					emit(map[string]interface{}{"k": "order", "a": udec(a), "b": udec(b), "before": ticks.Ticks(a).ToTime().Before(ticks.Ticks(b).ToTime())})
				}
			}
		}
	}
}
