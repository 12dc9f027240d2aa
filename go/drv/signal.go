package main

import (
	"encoding/binary"
	"math"
	"strings"

	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
)

func bitsOf(x uint32) []int {
	r := []int{}
	for i := 0; i < 32; i++ {
		if x>>uint(i)&1 == 1 {
			r = append(r, i)
		}
	}
	return r
}

func someFlags() uint32 {
	switch rng.Intn(4) {
	case 0:
		return 1 << uint(rng.Intn(32))
	case 1:
		return rng.Uint32()
	case 2:
		return rng.Uint32() & rng.Uint32() & rng.Uint32()
	}
	return 0
}

func parseRef(s string) (c m) {
	c = m{"k": "ref", "s": codes(s), "panic": true, "source": []int{}, "kind": 0, "pos": 0}
	defer func() { recover() }()
	mm := transport.MeasurementMetadata{SignalReference: s}
	source, kind, pos := mm.ParseSignalReference()
	if pos != int(int32(pos)) {
		pos = -1
	}
	return m{"k": "ref", "s": codes(s), "panic": false, "source": codes(source), "kind": int(kind), "pos": pos}
}

func init() {
	drvs["C32"] = func() {
		for i := 0; i < 16; i++ {
			for _, ph := range "VvIiX" {
				k := transport.SignalKindEnum(i)
				emit(m{"k": "kind", "n": i, "name": codes(k.String()), "acr": codes(k.Acronym()), "type": codes(k.SignalTypeAcronym(ph)), "ph": int(ph),
					"back": int(transport.ParseSignalKindAcronym(k.Acronym()))})
			}
		}
		letters := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
		for _, a := range letters {
			for _, b := range letters {
				s := string(a) + string(b)
				emit(m{"k": "acr", "s": codes(s), "n": int(transport.ParseSignalKindAcronym(s))})
			}
		}
		acronyms := []string{"PA", "PM", "FQ", "DF", "SF", "DV", "AV", "CV", "ST", "AL", "QF"}
		word := func() string {
			s := ""
			for k := rng.Intn(5); k > 0; k-- {
				s += pick("A", "b", "1", "9", "!", "_", " ", "é", ":", ".", "PA", "-")
			}
			return s
		}
		for i := 0; i < *n; i++ {
			a := acronyms[rng.Intn(len(acronyms))]
			switch rng.Intn(8) {
			case 0:
				a = strings.ToLower(a)
			case 1:
				a = pick("XX", "", "P", "A", "PAM", "A P", " PA", "PA ", "P1", "\tdv", "QF\r\n", " \nCv ", "s t")
			}
			switch i % 4 {
			case 0:
				emit(m{"k": "acr", "s": codes(a), "n": int(transport.ParseSignalKindAcronym(a))})
			case 1, 2:
				p := pick("", "", "1", "2", "10", "007", "123456", "12x", "-1", " 3", "99999999999999999999")
				emit(parseRef(pick(word()+"-", word()+"-", word()+"-", word()) + a + p))
			default:
				f := someFlags()
				emit(m{"k": "flags", "bits": bitsOf(f), "s": codes(transport.StateFlagsEnum(f).String())})
			}
		}
	}
	drvs["C33"] = func() {
		cache := transport.NewSignalIndexCache()
		for b := 0; b < 256; b++ {
			cm := transport.NewCompactMeasurement(cache, chance(50), chance(50), &[2]int64{})
			cm.SetCompactStateFlags(byte(b))
			emit(m{"k": "byte", "b": b, "bits": bitsOf(uint32(cm.Flags)), "back": int(cm.GetCompactStateFlags())})
		}
		for i := 0; i < *n; i++ {
			var base [2]int64
			for j := range base {
				if chance(85) {
					base[j] = int64(tickValue())
				}
			}
			incl, ms, bi := chance(90), chance(50), rng.Intn(2)
			t := tickValue()
			if chance(75) {
				reach := int64(math.MaxUint32)
				if ms {
					reach = 65535 * int64(ticks.PerMillisecond)
				}
				v := base[bi]
				switch rng.Intn(5) {
				case 0:
					v += reach + int64(rng.Intn(5)-2)
				case 1:
					v += reach + int64(rng.Intn(30000)-15000)
				case 2:
					v += int64(rng.Intn(5) - 2)
				default:
					v += rng.Int63n(reach)
				}
				if v >= 0 && v <= int64(ticks.Max) {
					t = uint64(v)
				}
			}
			if chance(20) {
				t |= uint64(1+rng.Intn(3)) << 62
			}
			f := someFlags()
			cm := transport.NewCompactMeasurement(cache, incl, ms, &base)
			cm.SetCompactStateFlags(byte(bi << 7))
			cm.Flags = transport.StateFlagsEnum(f)
			cm.Timestamp = ticks.Ticks(t)
			bits := rng.Uint32()
			cm.Value = float64(math.Float32frombits(bits))
			n := cm.GetBinaryLength()
			b := cm.GetCompactStateFlags()
			buf := make([]byte, 9, 17)
			buf[0] = b
			binary.BigEndian.PutUint32(buf[5:], bits)
			switch n {
			case 11:
				buf = append(buf, 0, 0)
				binary.BigEndian.PutUint16(buf[9:], cm.GetTimestampC2())
			case 13:
				buf = append(buf, 0, 0, 0, 0)
				binary.BigEndian.PutUint32(buf[9:], cm.GetTimestampC4())
			case 17:
				buf = buf[:17]
				binary.BigEndian.PutUint64(buf[9:], t)
			}
			r := transport.NewCompactMeasurement(cache, incl, ms, &base)
			if chance(30) {
				other := make([]byte, 17)
				rng.Read(other)
				r.Decode(other)
			}
			k, err := r.Decode(buf)
			emit(m{"k": "compact", "time": incl, "ms": ms, "base": idec(base[bi]), "bi": bi, "bits": bitsOf(f), "x": udec(t), "len": int(n), "b": int(b), "n": k, "err": err != nil,
				"rbits": bitsOf(uint32(r.Flags)), "rx": udec(uint64(r.Timestamp)), "same": r.Value == cm.Value || r.Value != r.Value && cm.Value != cm.Value})
		}
	}
}
