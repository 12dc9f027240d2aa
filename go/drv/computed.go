package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/sttp/goapi/sttp/data"
)

func init() { drvs["C31"] = computedCases }

func readOut(f func() m) (o m) {
	defer func() {
		if r := recover(); r != nil {
			o = m{"t": "panic", "what": fmt.Sprint(r)}
		}
	}()
	o = f()
	if p, ok := o["p"].([]int); ok && (p[0] < 1 || p[0] > 9999) {
		o = m{"t": "far"}
	}
	return o
}

type compDef struct {
	name, typ, text string
	toks            []tok
}

// computedCase makes a case: f says how the columns are defined.
func computedCase(f func(g *egen, add func(name, typ string, q []tok))) (comps []compDef, cols []m, row *data.DataRow, base int) {
	var g *egen
	g, dt, row := mkTableWith(func(g *egen, dt *data.DataTable) {
		g.paren = 100
		base = dt.ColumnCount()
		f(g, func(name, typ string, q []tok) {
			c := compDef{name, typ, printToks(q), q}
			comps = append(comps, c)
			dt.AddColumn(dt.CreateColumn(name, typeOf(typ), c.text))
		})
	})
	cols = []m{}
	for _, name := range g.order {
		if g.used[name] {
			c := g.cols[name]
			cols = append(cols, m{"n": codes(name), "t": c.typ, "v": val(c.v)})
		}
	}
	return comps, cols, dt.Row(0), base
}

func computedReads(comps []compDef, row *data.DataRow, base int) []m {
	reads := []m{}
	read := func(i int, how string, f func() m) {
		reads = append(reads, m{"c": i + 1, "how": how, "out": readOut(f)})
	}
	for k := len(comps) + 1 + rng.Intn(3); k > 0; k-- {
		i := rng.Intn(len(comps))
		if k <= len(comps) {
			i = k - 1
		}
		c := comps[i]
		switch rng.Intn(6) {
		case 0:
			read(i, "name", func() m { return accessName(row, c.typ, anyCase(c.name)) })
		case 1:
			read(i, "value", func() m { v, err := row.Value(base + i); return acc(v, v == nil, err) })
		case 2:
			read(i, "valuename", func() m { v, err := row.ValueByName(c.name); return acc(v, v == nil, err) })
		case 3:
			read(i, "text", func() m { return m{"t": "text", "s": codes(row.ValueAsString(base + i))} })
		default:
			read(i, "typed", func() m { return access(row, c.typ, base+i) })
		}
	}
	return reads
}

func emitComputed(comps []compDef, cols, reads []m) {
	l := []m{}
	for _, c := range comps {
		l = append(l, m{"n": codes(c.name), "t": c.typ, "toks": c.toks, "text": c.text})
	}
	emit(m{"row": cols, "comps": l, "reads": reads})
}

// Every way three computed columns can refer to each other.  A column that is defined by itself may
// be more than a process survives, so they are read in another one.
var graphDefs = []int{0, 1, 2, 3, 12, 13, 23}

func graphCase(k int) ([]compDef, []m, *data.DataRow, int) {
	rng = rand.New(rand.NewSource(*seed*1000 + int64(k)))
	guids = nil
	return computedCase(func(g *egen, add func(string, string, []tok)) {
		ref := func(i int) []tok {
			q := g.col(fmt.Sprint("Comp", i))
			switch rng.Intn(8) {
			case 0:
				q = cat([]tok{fnTok("Abs"), sym("(")}, q, []tok{sym(")")})
			case 1:
				q = paren(cat([]tok{op("-")}, q))
			case 2:
				q = cat([]tok{fnTok("IIf"), sym("(")}, lit("bool", pick("True", "False")), []tok{sym(",")}, q, []tok{sym(",")}, lit("int", "5"), []tok{sym(")")})
			case 3:
				q = cat([]tok{fnTok("Coalesce"), sym("(")}, q, []tok{sym(",")}, lit("int", "5"), []tok{sym(")")})
			}
			return q
		}
		x := k
		for i := 1; i <= 3; i++ {
			d := graphDefs[x%len(graphDefs)]
			x /= len(graphDefs)
			q := lit("int", "7")
			if d > 9 {
				q = cat(ref(d/10), []tok{op("+")}, ref(d%10))
			} else if d > 0 {
				q = ref(d)
			}
			add(fmt.Sprint("Comp", i), "Int32", q)
		}
	})
}

func graphReads(from, to int) {
	for k := from; k < to; k++ {
		comps, _, row, base := graphCase(k)
		b, _ := json.Marshal(computedReads(comps, row, base))
		fmt.Fprintln(os.Stderr, string(b))
	}
}

func graphCases() {
	total := len(graphDefs) * len(graphDefs) * len(graphDefs)
	keep := rng
	for from := 0; from < total; {
		cmd := exec.Command(os.Args[0], "-prop", "C31", "-mode", strconv.Itoa(from), "-seed", strconv.FormatInt(*seed, 10), "-out", os.DevNull)
		b, err := cmd.CombinedOutput()
		for _, l := range strings.Split(string(b), "\n") {
			var reads []m
			if json.Unmarshal([]byte(l), &reads) != nil {
				break
			}
			comps, cols, _, _ := graphCase(from)
			emitComputed(comps, cols, reads)
			from++
		}
		if err != nil {
			if !strings.Contains(string(b), "stack") || from >= total {
				fmt.Fprintln(os.Stderr, string(b))
				os.Exit(3)
			}
			comps, cols, _, _ := graphCase(from)
			emitComputed(comps, cols, []m{{"c": 1, "how": "typed", "out": m{"t": "panic", "what": "stack overflow"}}})
			break
		}
	}
	rng, guids = keep, nil
}

func computedCases() {
	debug.SetMaxStack(64 << 20)
	console := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if *mode != "" {
		from, _ := strconv.Atoi(*mode)
		graphReads(from, len(graphDefs)*len(graphDefs)*len(graphDefs))
		return
	}
	// every type of value in every type of column
	for _, a := range exprTypes {
		for _, t := range typeNames {
			for k := 0; k < 9; k++ {
				comps, cols, row, base := computedCase(func(g *egen, add func(string, string, []tok)) {
					q := litOf(a)
					switch rng.Intn(4) {
					case 0, 1:
						q = g.col(pick("F", "S", "F", "S", "Nil") + colsOf[a][rng.Intn(len(colsOf[a]))])
					case 2:
						q = g.gen(1, a)
					}
					add("Comp0", t, q)
				})
				emitComputed(comps, cols, computedReads(comps, row, base))
			}
		}
	}
	for k := 0; k < *n; k++ {
		comps, cols, row, base := computedCase(func(g *egen, add func(string, string, []tok)) {
			n := 1 + rng.Intn(3)
			order := rng.Perm(n)
			for _, i := range order {
				g.comps = nil
				for j := 0; j < i; j++ {
					g.comps = append(g.comps, fmt.Sprint("Comp", j))
				}
				g.fns = chance(40)
				add(fmt.Sprint("Comp", i), typeNames[rng.Intn(len(typeNames))], g.gen(rng.Intn(3), exprTypes[rng.Intn(len(exprTypes))]))
			}
		})
		emitComputed(comps, cols, computedReads(comps, row, base))
	}
	graphCases()
	os.Stdout = console
}
