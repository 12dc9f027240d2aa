// Command drv runs the implementation on generated inputs and records what it did, one JSON
// case per line, for TLC to judge. It contains no expectations of its own.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	prop  = flag.String("prop", "", "property")
	seed  = flag.Int64("seed", 1, "seed")
	n     = flag.Int("n", 1000, "number of random cases")
	out   = flag.String("out", "", "output file")
	in    = flag.String("in", "", "input file (behaviours generated from the specification)")
	mode  = flag.String("mode", "", "driver specific")
	drvs  = map[string]func(){}
	rng   *rand.Rand
	outw  *bufio.Writer
	count int
	beats atomic.Int64
	done  atomic.Bool
)

func emit(c interface{}) {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	outw.Write(b)
	outw.WriteByte('\n')
	count++
	beats.Add(1)
}

// watch ends the program, with a trace of where it is, when a call has taken an unreasonable
// amount of processor time.
func watch() {
	cpu := func() int64 {
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return u.Utime.Sec + u.Stime.Sec
	}
	last, since := int64(-1), cpu()
	for !done.Load() {
		time.Sleep(time.Second)
		if c := beats.Load(); c != last {
			last, since = c, cpu()
		} else if cpu()-since > 120 && !done.Load() {
			b := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "stuck: no result after 120 s\n\n%s\n", b[:runtime.Stack(b, true)])
			os.Exit(4)
		}
	}
}

func main() {
	flag.Parse()
	rng = rand.New(rand.NewSource(*seed))
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	outw = bufio.NewWriter(f)
	d, ok := drvs[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no driver for", *prop)
		os.Exit(3)
	}
	go watch()
	d()
	done.Store(true)
	outw.Flush()
	f.Close()
	fmt.Println("cases", count)
}
