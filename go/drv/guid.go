package main

import (
	"encoding/hex"
	"strings"

	"github.com/sttp/goapi/sttp/guid"
)

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}

func someGuid() (g guid.Guid) {
	switch rng.Intn(4) {
	case 0:
		for i := range g {
			g[i] = []byte{0, 1, 127, 128, 255}[rng.Intn(5)]
		}
	case 1:
		g[rng.Intn(16)] = byte(rng.Intn(256))
	default:
		rng.Read(g[:])
	}
	return
}

func init() {
	drvs["C22"] = func() {
		for i := 0; i < *n; i++ {
			g := someGuid()
			switch i % 4 {
			case 0:
				a, b, c, d := g.Components()
				emit(map[string]interface{}{"k": "text", "g": ints(g[:]), "str": codes(g.String()), "zero": g.IsZero(),
					"ca": []int{int(a >> 16), int(a & 0xffff)}, "cb": b, "cc": c, "cd": ints(d[:])})
			case 1:
				s := g.String()
				switch rng.Intn(7) {
				case 0:
					s = s[1 : len(s)-1]
				case 1:
					s = "urn:uuid:" + s[1:len(s)-1]
				case 2:
					s = hex.EncodeToString(g[:])
				case 3:
					s = "URN:uuid:" + s[1:len(s)-1]
				}
				if rng.Intn(3) == 0 {
					s = strings.ToUpper(s)
				}
				if rng.Intn(2) == 0 {
					b := []byte(s)
					k := rng.Intn(len(b))
					switch rng.Intn(4) {
					case 0:
						b[k] = "gGxX-{}/:@`' 09afAF\x00\xff"[rng.Intn(21)]
					case 1:
						b = append(b[:k], b[k+1:]...)
					case 2:
						b = append(b[:k:k], append([]byte{"0-{x"[rng.Intn(4)]}, b[k:]...)...)
					case 3:
						b = b[:k]
					}
					s = string(b)
				}
				r, err := guid.Parse(s)
				emit(map[string]interface{}{"k": "parse", "t": codes(s), "ok": err == nil, "g": ints(r[:])})
			case 2:
				b := make([]byte, 16)
				copy(b, g[:])
				if rng.Intn(3) == 0 {
					b = make([]byte, rng.Intn(34))
					rng.Read(b)
				}
				before := ints(b)
				swap := rng.Intn(2) == 0
				r, err := guid.FromBytes(b, swap)
				x := r
				out, other := x.ToBytes(swap), x.ToBytes(!swap)
				o1, o2 := ints(out), ints(other)
				out[0]++ // the returned bytes are the caller's
				emit(map[string]interface{}{"k": "bytes", "b": before, "after": ints(b), "swap": swap, "ok": err == nil, "g": ints(r[:]),
					"out": o1, "other": o2, "gafter": ints(x[:])})
			case 3:
				h := someGuid()
				switch rng.Intn(4) {
				case 0:
					h = g
				case 1:
					h = g
					h[rng.Intn(16)] ^= 1 << rng.Intn(8)
				case 2:
					h = g
					h[rng.Intn(16)] ^= 1 << rng.Intn(8)
					h[rng.Intn(16)] ^= 1 << rng.Intn(8)
				}
				emit(map[string]interface{}{"k": "cmp", "a": ints(g[:]), "b": ints(h[:]), "cmp": guid.Compare(g, h), "mcmp": g.Compare(h),
					"eq": guid.Equal(g, h), "meq": g.Equal(h)})
			}
		}
	}
}
