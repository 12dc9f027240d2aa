package main

import (
	"fmt"
	"math"

	"github.com/sttp/goapi/sttp/format"
)

// dbl is the exact value of a double.
func dbl(f float64) map[string]interface{} {
	switch {
	case math.IsNaN(f):
		return map[string]interface{}{"k": "nan", "n": false, "m": codes("0"), "e": 0}
	case math.IsInf(f, 0):
		return map[string]interface{}{"k": "inf", "n": f < 0, "m": codes("0"), "e": 0}
	}
	b := math.Float64bits(f)
	m, e := b&(1<<52-1), int(b>>52&0x7ff)
	if e == 0 {
		e = 1
	} else {
		m |= 1 << 52
	}
	e -= 1075
	if m == 0 {
		e = 0
	}
	return map[string]interface{}{"k": "num", "n": b>>63 == 1, "m": udec(m), "e": e}
}

func someFloat() float64 {
	f := 0.0
	switch rng.Intn(9) {
	case 0:
		f = []float64{0, 1, 10, 100, 999, 1000, 1001, 999999, 1000000, 0.5, 1.5, 2.5, 0.125, 0.375, 999.5, 999.9999, 999999.9, 0.05, 0.15, 1e21, 1e22, 1e23,
			math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.NaN(), 4503599627370496.5, 9007199254740993}[rng.Intn(28)]
	case 1:
		f = math.Float64frombits(rng.Uint64())
		if rng.Intn(20) > 0 || math.IsNaN(f) {
			f = math.Ldexp(rng.Float64(), rng.Intn(140)-50)
		}
	case 2:
		f = float64(rng.Intn(2000000)) / 8
	case 3:
		f = math.Pow10(rng.Intn(20)) - math.Pow10(-rng.Intn(8))
	case 4:
		f = float64(rng.Int63n(1 << uint(1+rng.Intn(62))))
	case 5:
		f = float64(rng.Intn(100000)) / math.Pow10(rng.Intn(9))
	default:
		f = rng.Float64() * math.Pow10(rng.Intn(22)-4)
	}
	if rng.Intn(3) == 0 {
		f = -f
	}
	return f
}

func init() {
	drvs["C29"] = func() {
		seps := []byte{',', '.', ' ', '\'', '_', '|', ';', '~'}
		for i := 0; i < *n; i++ {
			c := map[string]interface{}{"panic": ""}
			sep := seps[rng.Intn(len(seps))]
			func() {
				defer func() {
					if r := recover(); r != nil {
						c["panic"] = fmt.Sprint(r)
					}
				}()
				if i%3 != 0 {
					c["k"] = "int"
					c["sep"] = int(sep)
					x := rng.Uint64() >> uint(rng.Intn(64))
					if rng.Intn(3) == 0 {
						x = uint64(math.Pow10(rng.Intn(19))) - uint64(rng.Intn(2))
					}
					if rng.Intn(30) == 0 {
						x = []uint64{0, 1<<63 - 1, 1 << 63, 1<<64 - 1}[rng.Intn(4)]
					}
					switch rng.Intn(4) {
					case 0:
						c["x"], c["out"], c["def"] = udec(x), codes(format.UInt64With(x, sep)), codes(format.UInt64(x))
					case 1:
						c["x"], c["out"], c["def"] = udec(x), codes(format.UIntWith(uint(x), sep)), codes(format.UInt(uint(x)))
					case 2:
						y := int64(x)
						if rng.Intn(2) == 0 {
							y = -y
						}
						c["x"], c["out"], c["def"] = idec(y), codes(format.Int64With(y, sep)), codes(format.Int64(y))
					case 3:
						y := int64(x)
						if rng.Intn(2) == 0 {
							y = -y
						}
						c["x"], c["out"], c["def"] = idec(y), codes(format.IntWith(int(y), sep)), codes(format.Int(int(y)))
					}
					return
				}
				f := someFloat()
				prec := rng.Intn(9) - 1
				point := []byte{'.', '.', ',', ':'}[rng.Intn(4)]
				if point == sep {
					sep = ' '
				}
				c["k"], c["d"], c["prec"], c["point"], c["sep"] = "float", dbl(f), prec, int(point), int(sep)
				if point == '.' && sep == ',' {
					c["out"] = codes(format.Float(f, prec))
				} else {
					c["out"] = codes(format.FloatWith(f, prec, point, sep))
				}
			}()
			emit(c)
		}
	}
}
