package main

import "math/rand"

// The publisher's side of TSSC: an encoder that sometimes chooses longer forms than necessary.

type tpoint struct {
	next       int32
	f1, f2     uint32
	v1, v2, v3 uint32
	stats      [32]int
	sent       int
	mode       int
	c1, c2, c3 int
	stage      int
}

func newTPoint(next int32) *tpoint { return &tpoint{next: next, mode: 4, c1: 20, c2: 21, c3: 22} }

type tenc struct {
	buf    []byte
	at     int
	n      uint // bits left in buf[at]
	t1, t2 int64
	d      [4]int64
	last   *tpoint
	pts    map[int32]*tpoint
	seq    int
	wild   float64
	rng    *rand.Rand
}

type tmeas struct {
	id    int32
	t     int64
	flags uint32
	v     uint32
}

func newTEnc(rng *rand.Rand, wild float64) *tenc {
	const m = 1<<63 - 1
	return &tenc{d: [4]int64{m, m, m, m}, last: newTPoint(0), pts: map[int32]*tpoint{}, rng: rng, wild: wild}
}

func (e *tenc) bits(v, n int) {
	for i := n - 1; i >= 0; i-- {
		if e.n == 0 {
			e.at = len(e.buf)
			e.buf = append(e.buf, 0)
			e.n = 8
		}
		e.n--
		e.buf[e.at] |= byte((v>>uint(i))&1) << e.n
	}
}

func (e *tenc) code(c int) {
	p := e.last
	switch {
	case p.mode > 1 && c == p.c1:
		e.bits(1, 1)
	case p.mode > 2 && c == p.c2:
		e.bits(1, 2)
	case p.mode > 3 && c == p.c3:
		e.bits(1, 3)
	default:
		e.bits(c, 4+p.mode)
	}
	p.sent++
	p.stats[c]++
	if p.stage == 0 && p.sent > 5 || p.stage == 1 && p.sent > 20 {
		p.stage++
		p.adapt()
	} else if p.stage == 2 && p.sent > 100 {
		p.adapt()
	}
}

func (p *tpoint) adapt() {
	var c, n [3]int
	c = [3]int{0, 1, 2}
	total := 0
	for i, k := range p.stats {
		p.stats[i] = 0
		total += k
		for j := 0; j < 3; j++ {
			if k > n[j] {
				for q := 2; q > j; q-- {
					c[q], n[q] = c[q-1], n[q-1]
				}
				c[j], n[j] = i, k
				break
			}
		}
	}
	size := []int{total * 5, n[0] + (total-n[0])*6, n[0] + 2*n[1] + (total-n[0]-n[1])*7, n[0] + 2*n[1] + 3*n[2] + (total-n[0]-n[1]-n[2])*8}
	best := 0
	for i := range size {
		if size[i] < size[best] {
			best = i
		}
	}
	p.mode = best + 1
	if best >= 1 {
		p.c1 = c[0]
	}
	if best >= 2 {
		p.c2 = c[1]
	}
	if best >= 3 {
		p.c3 = c[2]
	}
	p.sent = 0
}

// xor writes 4*k bits.
func (e *tenc) xor(x uint32, k int) {
	if k%2 == 1 {
		e.bits(int(x&15), 4)
		x >>= 4
	}
	for i := 0; i < k/2; i++ {
		e.buf = append(e.buf, byte(x))
		x >>= 8
	}
}

func (e *tenc) seven(x uint64, max int) {
	for i := 1; ; i++ {
		if i == max {
			e.buf = append(e.buf, byte(x))
			return
		}
		if x < 128 {
			e.buf = append(e.buf, byte(x))
			return
		}
		e.buf = append(e.buf, byte(x)|128)
		x >>= 7
	}
}

func nibbles(x uint32) int {
	k := 1
	for k < 8 && x>>(4*uint(k)) != 0 {
		k++
	}
	return k
}

func (e *tenc) odd() bool { return e.wild > 0 && e.rng.Float64() < e.wild }

func (e *tenc) add(m tmeas) {
	if e.last.next != m.id || e.odd() {
		x := uint32(m.id) ^ uint32(e.last.next)
		k := nibbles(x)
		if e.odd() {
			k += e.rng.Intn(9 - k)
		}
		c := k
		if k >= 7 {
			c, k = 7, 8
		}
		e.code(c)
		e.xor(x, k)
		e.last.next = m.id
	}
	p := e.pts[m.id]
	if p == nil {
		p = newTPoint(m.id + 1)
		e.pts[m.id] = p
	}
	if e.t1 != m.t || e.odd() {
		c := 17
		if !e.odd() {
			if m.t == e.t2 {
				c = 16
			}
			for i := 3; i >= 0; i-- {
				if m.t == e.t1-e.d[i] {
					c = 12 + i
				}
			}
			for i := 3; i >= 0; i-- {
				if m.t == e.t1+e.d[i] {
					c = 8 + i
				}
			}
		}
		e.code(c)
		if c == 17 {
			e.seven(uint64(m.t^e.t1), 9)
		}
		d := e.t1 - m.t
		if d < 0 {
			d = -d
		}
		if d < e.d[3] && d != e.d[0] && d != e.d[1] && d != e.d[2] {
			for j := 0; j < 4; j++ {
				if d < e.d[j] {
					copy(e.d[j+1:], e.d[j:3])
					e.d[j] = d
					break
				}
			}
		}
		e.t2, e.t1 = e.t1, m.t
	}
	if p.f1 != m.flags || e.odd() {
		if p.f2 == m.flags && !e.odd() {
			e.code(18)
		} else {
			e.code(19)
			e.seven(uint64(m.flags), 5)
		}
		p.f2, p.f1 = p.f1, m.flags
	}
	switch {
	case p.v1 == m.v && !e.odd():
		e.code(20)
	case p.v2 == m.v && !e.odd():
		e.code(21)
		p.v2, p.v1 = p.v1, m.v
	case p.v3 == m.v && !e.odd():
		e.code(22)
		p.v3, p.v2, p.v1 = p.v2, p.v1, m.v
	case m.v == 0 && !e.odd():
		e.code(23)
		p.v3, p.v2, p.v1 = p.v2, p.v1, m.v
	default:
		x := m.v ^ p.v1
		k := nibbles(x)
		if e.odd() {
			k += e.rng.Intn(9 - k)
		}
		e.code(23 + k)
		e.xor(x, k)
		p.v3, p.v2, p.v1 = p.v2, p.v1, m.v
	}
	e.last = p
}

// finish ends a packet and returns its bytes.
func (e *tenc) finish() []byte {
	if e.n > 0 {
		e.code(0)
		e.n = 0
	}
	b := e.buf
	e.buf = nil
	return b
}
