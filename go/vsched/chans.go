package vsched

import (
	"reflect"
)

// Channel operations. Buffered channels and channels operated by uninstrumented code are used
// as they are; a send on an unbuffered channel is a rendezvous between two scheduled threads.

type sender struct {
	key  uintptr
	val  interface{}
	done bool
	sel  *selState
	idx  int
}

type selState struct{ fired int }

var senders []*sender
// closed keeps a reference to each closed channel so that its address is not reused
var closed = map[uintptr]interface{}{}

func key(ch interface{}) uintptr { return reflect.ValueOf(ch).Pointer() }

func isClosed(k uintptr) bool { _, ok := closed[k]; return ok }

func resetChans() { senders = nil; closed = map[uintptr]interface{}{} }

// Reset forgets the channels of earlier runs.
func Reset() { resetChans() }

func dropSender(x *sender) {
	for i, y := range senders {
		if y == x {
			senders = append(senders[:i:i], senders[i+1:]...)
			return
		}
	}
}

// tryRecv attempts to receive without blocking.
func tryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	if ch == nil {
		return
	}
	k := key(ch)
	for _, x := range senders {
		if x.key == k && !x.done && (x.sel == nil || x.sel.fired < 0) {
			x.done = true
			if x.sel != nil {
				x.sel.fired = x.idx
			}
			dropSender(x)
			if x.val == nil {
				return v, true, true
			}
			return x.val.(T), true, true
		}
	}
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
	}
	return
}

// trySend attempts to send on a buffered channel without blocking.
func trySend[T any](ch chan<- T, v T) bool {
	if ch == nil {
		return false
	}
	if isClosed(key(ch)) {
		panic("send on closed channel")
	}
	if cap(ch) == 0 {
		return false
	}
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	if s == nil {
		ch <- v
		return
	}
	Op()
	if s == nil || s.aborted {
		return
	}
	if trySend(ch, v) {
		return
	}
	if ch == nil {
		Block("send on nil channel", func() bool { return false })
		return
	}
	if cap(ch) > 0 {
		sent := false
		Block("channel send", func() bool {
			if sent {
				return true
			}
			if isClosed(key(ch)) {
				return true
			}
			select {
			case ch <- v:
				sent = true
			default:
			}
			return sent
		})
		if !sent && !s.aborted {
			panic("send on closed channel")
		}
		return
	}
	x := &sender{key: key(ch), val: v}
	senders = append(senders, x)
	Block("channel send", func() bool { return x.done || isClosed(x.key) })
	if s == nil || s.aborted {
		return
	}
	if !x.done {
		dropSender(x)
		panic("send on closed channel")
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	Op()
	var v T
	var ok, done bool
	if s == nil || s.aborted {
		return v, false
	}
	Block("channel receive", func() bool {
		if !done {
			v, ok, done = tryRecv(ch)
		}
		return done
	})
	return v, ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	Op()
	if s != nil && s.aborted {
		return
	}
	close(ch)
	closed[key(ch)] = ch
}

// Case is one case of a select statement.
type Case interface {
	try() bool
	enlist(st *selState, idx int)
	withdraw()
	taken()
}

// RecvC is a receive case; V and Ok hold the result when it was selected.
type RecvC[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

// NewRecv makes a receive case.
func NewRecv[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

func (c *RecvC[T]) try() bool {
	v, ok, done := tryRecv(c.ch)
	if done {
		c.V, c.Ok = v, ok
	}
	return done
}
func (c *RecvC[T]) enlist(*selState, int) {}
func (c *RecvC[T]) withdraw()             {}
func (c *RecvC[T]) taken()                {}

// SendC is a send case.
type SendC[T any] struct {
	ch chan<- T
	v  T
	x  *sender
}

// NewSend makes a send case.
func NewSend[T any](ch chan<- T, v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }

func (c *SendC[T]) try() bool { return trySend(c.ch, c.v) }
func (c *SendC[T]) enlist(st *selState, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		c.x = &sender{key: key(c.ch), val: c.v, sel: st, idx: idx}
		senders = append(senders, c.x)
	}
}
func (c *SendC[T]) withdraw() {
	if c.x != nil {
		dropSender(c.x)
	}
}
func (c *SendC[T]) taken() {}

// Select chooses a ready case; it returns -1 when none is and there is a default.
func Select(hasDefault bool, cases ...Case) int {
	if s == nil {
		for {
			for i, c := range cases {
				if c.try() {
					return i
				}
			}
			if hasDefault {
				return -1
			}
		}
	}
	Op()
	if s == nil || s.aborted {
		return -1
	}
	// the choice among several ready cases is arbitrary
	order := s.rng.Perm(len(cases))
	res := -2
	for _, i := range order {
		if cases[i].try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{fired: -1}
	for i, c := range cases {
		c.enlist(st, i)
	}
	Block("select", func() bool {
		if res >= 0 || st.fired >= 0 {
			return true
		}
		for _, i := range order {
			if cases[i].try() {
				res = i
				return true
			}
		}
		return false
	})
	for _, c := range cases {
		c.withdraw()
	}
	if st.fired >= 0 {
		return st.fired
	}
	if res == -2 {
		return -1
	}
	return res
}
