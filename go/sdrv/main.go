// Command sdrv runs scenarios against the instrumented library under the controlled scheduler
// and records, one JSON line per run, everything observable that happened, in order. It
// contains no expectations: TLC judges the recorded runs against the specification.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"

	"github.com/sttp/goapi/vdrv/vnet"
	"github.com/sttp/goapi/vdrv/vsched"
)

var (
	scn   = flag.String("scn", "", "scenario")
	seed  = flag.Int64("seed", 1, "seed")
	n     = flag.Int("n", 100, "number of runs")
	from  = flag.Int("from", 0, "first run")
	step  = flag.Int("step", 1, "stride between runs")
	out   = flag.String("out", "", "output file")
	in    = flag.String("in", "", "input file (behaviours generated from the specification)")
	prof  = flag.String("profile", "", "scenario profile")
	live  = flag.String("live", "", "file that receives each event as it happens")
	dbg   = flag.Bool("debug", false, "")
	scns  = map[string]func(r *run){}
	outw  *bufio.Writer
	livef *os.File
	plans []json.RawMessage
)

type ev map[string]interface{}

// run is one execution of a scenario.
type run struct {
	idx    int
	rng    *rand.Rand // decides the scenario; the schedule has its own source
	cfg    ev
	events []ev
	st     vsched.Strategy
	budget int
	body   func()
	nojump bool
	plan   json.RawMessage
}

func (r *run) log(e ev) {
	if vsched.Aborted() {
		return
	}
	r.events = append(r.events, e)
	r.live(e)
}

// live writes an event down at once, so that it is known even if the process dies.
func (r *run) live(e ev) {
	if livef != nil {
		b, _ := json.Marshal(e)
		livef.Write(append(b, '\n'))
	}
}

func (r *run) pick(n int) int        { return r.rng.Intn(n) }
func (r *run) chance(p float64) bool { return r.rng.Float64() < p }
func ms() int                        { return int(vsched.Now() / int64(time.Millisecond)) }

func strategy(r *rand.Rand) vsched.Strategy {
	st := vsched.Strategy{OpWeight: 1}
	switch r.Intn(10) {
	case 0:
		st.Kind = "seq"
	case 1, 2, 3:
		st.Kind = "pct"
		st.Depth = 1 + r.Intn(6)
		st.Length = []int{200, 1000, 4000}[r.Intn(3)]
	default:
		st.Kind = "rand"
		st.Mean = []float64{1, 3, 10, 40, 150, 600}[r.Intn(6)]
	}
	if r.Intn(2) == 0 {
		st.OpWeight = 10
		st.Mean *= 5
	}
	return st
}

func main() {
	flag.Parse()
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	outw = bufio.NewWriter(f)
	s, ok := scns[*scn]
	if !ok {
		fmt.Fprintln(os.Stderr, "no scenario", *scn)
		os.Exit(3)
	}
	if *in != "" {
		fi, err := os.Open(*in)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(fi)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			plans = append(plans, json.RawMessage(append([]byte(nil), sc.Bytes()...)))
		}
	}
	if *live != "" {
		if livef, err = os.Create(*live); err != nil {
			panic(err)
		}
	}
	cur, err := os.Create(*out + ".cur")
	if err != nil {
		panic(err)
	}
	points, hangs := 0, 0
	for i := *from; i < *n; i += *step {
		r := &run{idx: i, rng: rand.New(rand.NewSource(*seed*1000003 + int64(i))), cfg: ev{}, budget: 400000}
		r.st = strategy(r.rng)
		if len(plans) > 0 {
			r.plan = plans[i%len(plans)]
		}
		s(r)
		if r.body == nil {
			continue
		}
		cur.WriteAt([]byte(fmt.Sprintf("%9d", i)), 0)
		r.live(ev{"i": i, "scn": *scn, "cfg": r.cfg, "st": "live"})
		vsched.Reset()
		net.Reset()
		limit := r.budget
		if hangs < 4 && limit < 20000000 {
			limit = 20000000 // a long run is not a hang
		}
		o := vsched.Run(*seed*7919+int64(i), r.st, r.budget/2, limit, r.body)
		if o.Kind == "hang" {
			hangs++
		}
		points += o.Points
		r.events = append(r.events, ev{"e": "end", "kind": o.Kind, "detail": o.Detail, "threads": len(o.Threads)})
		b, err := json.Marshal(ev{"i": i, "scn": *scn, "cfg": r.cfg, "st": fmt.Sprintf("%s/%g/%d/%d", r.st.Kind, r.st.Mean, r.st.Depth, r.st.OpWeight), "ev": r.events})
		if err != nil {
			panic(err)
		}
		outw.Write(b)
		outw.WriteByte('\n')
		if *dbg && o.Kind != "ok" {
			fmt.Println(i, o.Kind, o.Detail, o.Threads)
		}
	}
	outw.Flush()
	f.Close()
	fmt.Println("points", points)
}
