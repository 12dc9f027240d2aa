// Package abool replaces github.com/tevino/abool/v2 in instrumented code.
package abool

import "github.com/sttp/goapi/vdrv/vsched"

type AtomicBool struct{ v bool }

func New() *AtomicBool { return new(AtomicBool) }
func NewBool(ok bool) *AtomicBool {
	return &AtomicBool{ok}
}
func (ab *AtomicBool) Set()           { vsched.Op(); ab.v = true }
func (ab *AtomicBool) UnSet()         { vsched.Op(); ab.v = false }
func (ab *AtomicBool) IsSet() bool    { vsched.Op(); return ab.v && !vsched.Aborted() }
func (ab *AtomicBool) IsNotSet() bool { vsched.Op(); return !ab.v }
func (ab *AtomicBool) SetTo(y bool)   { vsched.Op(); ab.v = y }
func (ab *AtomicBool) Toggle() bool   { vsched.Op(); o := ab.v; ab.v = !o; return o }
func (ab *AtomicBool) Flip() bool     { vsched.Op(); ab.v = !ab.v; return ab.v }
func (ab *AtomicBool) SetToIf(old, new bool) bool {
	vsched.Op()
	if ab.v != old {
		return false
	}
	ab.v = new
	return true
}
