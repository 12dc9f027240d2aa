package main

import (
	"github.com/sttp/goapi/sttp/thread"
	"github.com/sttp/goapi/vdrv/vsched"
)

// Several goroutines start, join and query one Thread.
func init() {
	scns["thread"] = func(r *run) {
		callers := 2 + r.pick(2)
		r.cfg["callers"] = callers
		inner := r.pick(3)
		work := 1 + r.pick(4)
		type op struct {
			kind string
			gap  int
		}
		prog := make([][]op, callers)
		for c := range prog {
			for k := 1 + r.pick(4); k > 0; k-- {
				kind := []string{"start", "try", "try", "join", "join", "isrun"}[r.pick(6)]
				prog[c] = append(prog[c], op{kind, r.pick(3)})
			}
		}
		r.body = func() {
			runs := 0
			ncall := 0
			var th *thread.Thread
			do := func(kind string) {
				ncall++
				id := ncall
				r.log(ev{"e": "call", "op": kind, "id": id})
				res := true
				func() {
					defer func() {
						if x := recover(); x != nil {
							res = false
						}
					}()
					switch kind {
					case "start":
						th.Start()
					case "try":
						res = th.TryStart()
					case "join":
						th.Join()
					case "isrun":
						res = th.IsRunning()
					}
				}()
				r.log(ev{"e": "ret", "op": kind, "id": id, "res": res})
			}
			th = thread.NewThread(func() {
				runs++
				k := runs
				r.log(ev{"e": "rb", "id": k})
				for i := 0; i < work; i++ {
					vsched.Op()
				}
				if inner == 1 {
					do("try")
				} else if inner == 2 {
					do("isrun")
				}
				r.log(ev{"e": "re", "id": k})
			})
			left := callers
			for c := range prog {
				p := prog[c]
				vsched.GoNamed("caller", func() {
					for _, o := range p {
						for g := 0; g < o.gap; g++ {
							vsched.Op()
						}
						do(o.kind)
					}
					left--
				})
			}
			vsched.Settle(1e9)
			do("isrun")
			do("try")
			do("join")
			do("isrun")
			vsched.Settle(1e9)
			r.log(ev{"e": "snap", "left": left, "runs": runs})
		}
	}
}
