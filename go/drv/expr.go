package main

import (
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
)

func init() {
	drvs["C15"] = func() { exprCases(false) }
	drvs["C16"] = func() { exprCases(true) }
}

// A token of a filter expression as Expr.tla reads it.
type tok struct {
	K string `json:"k"`
	S []int  `json:"s"`
	O string `json:"o"`
	t string // as printed
}

var exprTypes = []string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"}

type colv struct {
	name string
	typ  string
	v    interface{}
}

type egen struct {
	cols  map[string]colv
	order []string
	used  map[string]bool
	paren int // percentage of operands put in parentheses
	fns   bool
	comps []string // names of computed columns
}

func pick(s ...string) string { return s[rng.Intn(len(s))] }
func chance(p int) bool       { return rng.Intn(100) < p }

var exprStrings = []string{"", "", "a", "abc", "ABC", "AbC", " abc ", "  x", "12", "-7.25", "1e3", "0", "1", "true", "T", "false", "hello world", "Hello World",
	"héLLo", "ÀÉ-àé", "a,b,,c", ",a,B,", "aXbxcX", "aaa", "aAaA", "2020-01-31", "2021-12-31 23:59:59.5", "1999-02-28T12:30:00Z", "02/29/2024", "2020-13-01", "x*y", "*", "a%", "%b%", "%c",
	"inf", "+5", ".5", "5.", "99999999999", "it's", "a.b", "b+", "[a-c]+", "0x1F", "007", "1 2", "zz\ttab", "no", "Year", "{a}", "PPA:12", "{",
	"'", "''", "a''b'c", "'x'", "\"q\"", "a\\nb", "#"}

func exprText() string {
	if chance(15) {
		b := ""
		for k := rng.Intn(9); k > 0; k-- {
			b += pick("a", "A", "b", "B", ",", " ", "x", "é", "É", "1", "-", "'", "\"", "\\")
		}
		return b
	}
	return exprStrings[rng.Intn(len(exprStrings))]
}

var guids []guid.Guid

func exprGuid() guid.Guid {
	if guids == nil {
		for k := 0; k < 5; k++ {
			var g guid.Guid
			rng.Read(g[:])
			if k == 4 {
				g = guids[3]
				g[15] ^= 1
			}
			guids = append(guids, g)
		}
		guids = append(guids, guid.Guid{})
	}
	return guids[rng.Intn(len(guids))]
}

func someInt(bits uint) int64 {
	switch rng.Intn(8) {
	case 0:
		return -(1 << (bits - 1))
	case 1:
		return 1<<(bits-1) - 1 - int64(rng.Intn(2))
	case 2:
		return int64(rng.Uint64()) >> (64 - bits)
	case 3:
		return int64(rng.Uint64()) >> (64 - bits) >> uint(rng.Intn(int(bits)))
	}
	return int64(rng.Intn(21) - 7)
}

func someDbl() float64 {
	switch rng.Intn(12) {
	case 0:
		return math.Inf(1 - 2*rng.Intn(2))
	case 1:
		return math.NaN()
	case 2:
		return math.Copysign(0, float64(1-2*rng.Intn(2)))
	case 3:
		return (rng.Float64() - 0.5) * math.Pow10(rng.Intn(40)-15)
	case 4:
		return rng.NormFloat64() * 1000
	case 5:
		return float64(rng.Intn(2000)-1000) / 100
	}
	return float64(rng.Intn(161)-60) / 8
}

func someDec() decimal.Decimal {
	if chance(60) {
		return decimal.New(int64(rng.Intn(4001)-1500), -int32(rng.Intn(4)))
	}
	return decimal.New(rng.Int63n(2000000000000)-1000000000000, int32(rng.Intn(15)-11))
}

func someTime() time.Time {
	y := 1890 + rng.Intn(220)
	if chance(15) {
		y = 1 + rng.Intn(9998)
	}
	d := 1 + rng.Intn(31)
	mo := 1 + rng.Intn(12)
	if chance(20) {
		mo, d = 2, 28+rng.Intn(2)
	}
	t := time.Date(y, time.Month(mo), d, rng.Intn(24), rng.Intn(60), rng.Intn(60), 0, time.UTC)
	switch rng.Intn(3) {
	case 0:
		t = t.Add(time.Duration(rng.Intn(1000)) * time.Millisecond)
	case 1:
		t = t.Add(time.Duration(rng.Intn(1000000000)))
	}
	return t
}

func exprVal(t string) interface{} {
	switch t {
	case "String":
		return exprText()
	case "Boolean":
		return chance(50)
	case "DateTime":
		return someTime()
	case "Single":
		return float32(someDbl())
	case "Double":
		return someDbl()
	case "Decimal":
		return someDec()
	case "Guid":
		return exprGuid()
	case "Int8":
		return int8(someInt(8))
	case "Int16":
		return int16(someInt(16))
	case "Int32":
		return int32(someInt(32))
	case "Int64":
		return someInt(64)
	case "UInt8":
		return uint8(someInt(8))
	case "UInt16":
		return uint16(someInt(16))
	case "UInt32":
		return uint32(someInt(32))
	}
	return uint64(someInt(64))
}

// A value of the same type that is easily mistaken for v.
func alike(v interface{}) interface{} {
	d := 1 - 2*rng.Intn(2)
	switch x := v.(type) {
	case string:
		return partOf(x, true)
	case bool:
		return x != chance(30)
	case time.Time:
		y := x.Add(time.Duration(d) * []time.Duration{1, 100, time.Microsecond, time.Millisecond, 400 * time.Millisecond, 2600 * time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour}[rng.Intn(10)])
		if y.Year() < 1 || y.Year() > 9999 {
			return x
		}
		return y
	case float32:
		return math.Nextafter32(x, float32(math.Inf(d)))
	case float64:
		if chance(50) {
			return x + float64(d)/8
		}
		return math.Nextafter(x, math.Inf(d))
	case decimal.Decimal:
		return x.Add(decimal.New(int64(d), -int32(rng.Intn(12))))
	case guid.Guid:
		x[rng.Intn(16)] ^= 1 << uint(rng.Intn(8))
		return x
	case int8:
		return x + int8(d)
	case int16:
		return x + int16(d)
	case int32:
		return x + int32(d)
	case int64:
		return x + int64(d)
	case uint8:
		return x + uint8(d)
	case uint16:
		return x + uint16(d)
	case uint32:
		return x + uint32(d)
	case uint64:
		return x + uint64(d)
	}
	return v
}

// Some text of s, perhaps in another case, perhaps all of it.
func partOf(s string, whole bool) string {
	r := []rune(s)
	if len(r) > 0 && !(whole && chance(60)) {
		i := rng.Intn(len(r))
		n := 1 + rng.Intn(len(r)-i)
		if chance(60) && n > 2 {
			n = 1 + rng.Intn(2)
		}
		r = r[i : i+n]
	}
	s = string(r)
	switch rng.Intn(5) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		if whole {
			return s + pick("a", " ", "1")
		}
	}
	return s
}

// The text that a literal or column has.
func (g *egen) textOf(q []tok) (string, bool) {
	if len(q) != 1 {
		return "", false
	}
	switch q[0].K {
	case "str":
		return strings.ReplaceAll(q[0].t[1:len(q[0].t)-1], "''", "'"), true
	case "col":
		for name, c := range g.cols {
			if strings.EqualFold(name, strings.Trim(q[0].t, "[]`")) {
				s, ok := c.v.(string)
				return s, ok
			}
		}
	}
	return "", false
}

// The types of columns whose values have a type of expressions.
var colsOf = map[string][]string{"Boolean": {"Boolean"}, "Int32": {"Int8", "Int16", "Int32", "UInt8", "UInt16"}, "Int64": {"UInt32", "Int64", "UInt64"},
	"Decimal": {"Decimal"}, "Double": {"Single", "Double"}, "String": {"String"}, "Guid": {"Guid"}, "DateTime": {"DateTime"}}

func mkTable() (*egen, *data.DataTable, *data.DataRow) { return mkTableWith(nil) }

// mkTableWith makes a table of columns of all types, and those that more adds, with one row.
func mkTableWith(more func(*egen, *data.DataTable)) (*egen, *data.DataTable, *data.DataRow) {
	g := &egen{cols: map[string]colv{}, used: map[string]bool{}}
	ds := data.NewDataSet()
	dt := ds.CreateTable("T")
	for _, t := range typeNames {
		for k := 0; k < 3; k++ {
			c := colv{fmt.Sprintf("%s%s", []string{"F", "S", "Nil"}[k], t), t, nil}
			if k < 2 {
				c.v = exprVal(t)
			}
			if k == 1 && chance(35) {
				c.v = alike(g.cols["F"+t].v)
			}
			g.cols[c.name] = c
			g.order = append(g.order, c.name)
			dt.AddColumn(dt.CreateColumn(c.name, typeOf(t), ""))
		}
	}
	if more != nil {
		more(g, dt)
	}
	ds.AddTable(dt)
	row := dt.CreateRow()
	for i, name := range g.order {
		if err := row.SetValue(i, g.cols[name].v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	dt.AddRow(row)
	return g, dt, row
}

func anyCase(s string) string {
	switch rng.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

func lit(k, s string) []tok { return []tok{{k, codes(s), "", s}} }
func op(o string) tok {
	t := o
	switch o {
	case "AND":
		t = pick("AND", "and", "&&")
	case "OR":
		t = pick("OR", "Or", "||")
	case "^":
		t = pick("^", "XOR", "xor")
	case "NOT", "IS", "IN", "LIKE", "BINARY":
		t = anyCase(o)
	}
	return tok{"op", []int{}, o, t}
}
func sym(s string) tok   { return tok{s, []int{}, "", s} }
func fnTok(f string) tok { return tok{"fn", []int{}, strings.ToUpper(f), anyCase(f)} }
func nullTok() []tok     { return []tok{{"null", []int{}, "", anyCase("NULL")}} }
func cat(q ...[]tok) []tok {
	var r []tok
	for _, x := range q {
		r = append(r, x...)
	}
	return r
}
func pickToks(q ...[]tok) []tok { return q[rng.Intn(len(q))] }
func paren(q []tok) []tok       { return cat([]tok{sym("(")}, q, []tok{sym(")")}) }

func (g *egen) col(c string) []tok {
	g.used[c] = true
	s := anyCase(c)
	switch rng.Intn(6) {
	case 0:
		s = "[" + s + "]"
	case 1:
		s = "`" + s + "`"
	}
	return []tok{{"col", codes(s), "", s}}
}

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func litOf(t string) []tok {
	switch t {
	case "Boolean":
		return lit("bool", anyCase(pick("True", "False")))
	case "Int32", "Int64":
		b := uint(32)
		if t == "Int64" {
			b = 64
		}
		v := someInt(b)
		neg := v < 0
		u := uint64(v)
		if neg {
			u = -u
		}
		s := strconv.FormatUint(u, 10)
		switch rng.Intn(8) {
		case 0:
			s = pick("0x", "0X") + strconv.FormatUint(u, 16)
		case 1:
			s = "0" + s
		}
		if neg {
			return paren(cat([]tok{op("-")}, lit("int", s)))
		}
		return lit("int", s)
	case "Decimal":
		s := someDec().Abs().String()
		if !strings.Contains(s, ".") {
			s += "."
			if chance(50) {
				s += "0"
			}
		} else if strings.HasPrefix(s, "0.") && chance(50) {
			s = s[1:]
		}
		return lit("num", s)
	case "Double":
		f := math.Abs(someDbl())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		return lit("num", strconv.FormatFloat(f, pick("e", "E")[0], -1, 64))
	case "String":
		return lit("str", quote(exprText()))
	case "Guid":
		s := exprGuid().String()
		switch rng.Intn(4) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = s[1 : len(s)-1]
		case 2:
			s = "'" + s[1:len(s)-1] + "'"
		}
		return lit("guid", s)
	case "DateTime":
		x := someTime()
		return lit("date", "#"+pick(x.Format("2006-01-02"), x.Format("2006-01-02 15:04:05"), x.Format("2006-01-02 15:04:05.000"), x.Format("2006-01-02T15:04:05Z"), x.Format("01/02/2006"))+"#")
	}
	return nil
}

func (g *egen) leaf(t string) []tok {
	if chance(4) {
		return nullTok()
	}
	if len(g.comps) > 0 && chance(20) {
		return g.col(g.comps[rng.Intn(len(g.comps))])
	}
	if chance(4) {
		t = exprTypes[rng.Intn(len(exprTypes))]
	}
	if chance(45) {
		return litOf(t)
	}
	c := colsOf[t][rng.Intn(len(colsOf[t]))]
	return g.col([]string{"F", "S", "F", "S", "F", "S", "Nil"}[rng.Intn(7)] + c)
}

// Is this one function call?
func isCall(q []tok) bool {
	depth := 0
	for i, t := range q[1:] {
		switch t.K {
		case "(":
			depth++
		case ")":
			depth--
		}
		if depth == 0 {
			return q[0].K == "fn" && i == len(q)-2
		}
	}
	return false
}

// An operand: alone or in parentheses.
func (g *egen) sub(d int, t string) []tok {
	q := g.gen(d, t)
	if len(q) > 1 && !isCall(q) && chance(g.paren) || chance(3) {
		q = paren(q)
	}
	return q
}

var numTypes = []string{"Boolean", "Int32", "Int32", "Int64", "Decimal", "Double"}

func near(t string) string {
	if chance(70) {
		return t
	}
	for _, n := range numTypes {
		if n == t {
			return numTypes[rng.Intn(len(numTypes))]
		}
	}
	if chance(60) {
		return "String"
	}
	return t
}

func (g *egen) list(d int, t string) []tok {
	r := []tok{sym("(")}
	for k := 0; ; k++ {
		if k > 0 {
			r = append(r, sym(","))
		}
		r = append(r, g.gen(d-1, near(t))...)
		if k >= rng.Intn(4) {
			break
		}
	}
	return append(r, sym(")"))
}

func (g *egen) gen(d int, t string) []tok {
	if d <= 0 || chance(8) {
		return g.leaf(t)
	}
	if g.fns && chance(60) {
		return g.fn(d, t)
	}
	bin := func(o, a, b string) []tok { return cat(g.sub(d-1, a), []tok{op(o)}, g.sub(d-1, b)) }
	neg := func() []tok {
		if chance(30) {
			return []tok{op(pick("NOT", "!"))}
		}
		return nil
	}
	exact := func() []tok {
		if chance(25) {
			return []tok{op(pick("BINARY", "==="))}
		}
		return nil
	}
	switch t {
	case "Boolean":
		x := exprTypes[rng.Intn(len(exprTypes))]
		switch rng.Intn(10) {
		case 0, 1, 2:
			return bin(pick("=", "==", "===", "<>", "!=", "!==", "<", "<=", ">", ">="), x, near(x))
		case 3, 4:
			return bin(pick("AND", "OR"), "Boolean", "Boolean")
		case 5:
			return cat([]tok{op(pick("NOT", "!", "~"))}, g.sub(d-1, "Boolean"))
		case 6:
			r := cat(g.sub(d-1, x), []tok{op("IS")})
			if chance(40) {
				r = append(r, op("NOT"))
			}
			return cat(r, nullTok())
		case 7:
			l, r := g.sub(d-1, "String"), g.sub(d-1, "String")
			if t, ok := g.textOf(l); ok && chance(50) {
				r = lit("str", quote(pick("", "%", "*")+partOf(t, true)+pick("", "%", "*")))
			}
			return cat(l, neg(), []tok{op("LIKE")}, exact(), r)
		case 8:
			return cat(g.sub(d-1, x), neg(), []tok{op("IN")}, exact(), g.list(d, x))
		}
		return bin(pick("&", "|", "^", "+", "-", "<<", ">>"), "Boolean", "Boolean")
	case "Int32", "Int64":
		switch rng.Intn(6) {
		case 0:
			return cat([]tok{op(pick("-", "+", "~", "!", "NOT"))}, g.sub(d-1, t))
		case 1:
			return bin(pick("<<", ">>"), t, "Int32")
		case 2:
			return bin(pick("%", "&", "|", "^"), near(t), near(t))
		}
		return bin(pick("+", "-", "*", "/"), near(t), near(t))
	case "Decimal", "Double":
		if chance(15) {
			return cat([]tok{op(pick("-", "+"))}, g.sub(d-1, t))
		}
		return bin(pick("+", "-", "*", "/"), near(t), near(t))
	case "String":
		if chance(70) {
			x := exprTypes[rng.Intn(len(exprTypes))]
			if chance(50) {
				return bin("+", "String", x)
			}
			return bin("+", x, "String")
		}
	}
	return g.leaf(t)
}

// Functions by the type of their result, with the types of their arguments; "?" marks where the optional ones start.
var fnTab = map[string][]string{
	"Boolean": {"Contains String String ? Boolean", "StartsWith String String ? Boolean", "EndsWith String String ? Boolean", "IsDate any", "IsInteger any", "IsGuid any", "IsNumeric any",
		"RegExMatch Regex String"},
	"Int32": {"IndexOf String String ? Boolean", "LastIndexOf String String ? Boolean", "NthIndexOf String String Index ? Boolean", "StrCount String String ? Boolean", "StrCmp String String ? Boolean",
		"Len String", "DateDiff DateTime DateTime Interval", "DatePart DateTime Interval", "Abs Int32", "Power Int32 Exponent"},
	"Int64":   {"Abs Int64", "Round Int64", "Power Int64 Exponent", "Floor Int64"},
	"Decimal": {"Abs Decimal", "Ceiling Decimal", "Floor Decimal", "Round Decimal", "Power Decimal Exponent"},
	"Double":  {"Abs Double", "Ceiling Double", "Floor Double", "Round Double", "Sqrt number", "Power Double Exponent"},
	"String": {"Replace String String String ? Boolean", "Split String String Index ? Boolean", "SubStr String Index ? Index", "Trim String", "TrimLeft String", "TrimRight String", "Upper String", "Lower String",
		"Reverse String", "RegExVal Regex String"},
	"Guid":     {"Convert String 'Guid'"},
	"DateTime": {"DateAdd DateTime Amount Interval", "Now", "UtcNow"},
}
var anyFns = []string{"Coalesce @ @ ? @ @", "IIf Boolean @ @", "MaxOf @ @ ? @", "MinOf @ @ ? @", "IsNull @ @", "Convert any Type", "Convert any Type"}

func (g *egen) arg(d int, a, t string) []tok {
	switch a {
	case "any":
		return g.gen(d, exprTypes[rng.Intn(len(exprTypes))])
	case "@":
		return g.gen(d, near(t))
	case "number":
		return g.gen(d, numTypes[rng.Intn(len(numTypes))])
	case "Index":
		if chance(80) {
			n := rng.Intn(7) - 1
			if n < 0 {
				return cat([]tok{op("-")}, lit("int", strconv.Itoa(-n)))
			}
			return lit("int", strconv.Itoa(n))
		}
		return g.gen(d-1, pick("Int32", "Int64", "Boolean", "Double"))
	case "Exponent":
		// a large power of a decimal takes for ever
		n := strconv.Itoa(rng.Intn(14))
		switch rng.Intn(10) {
		case 0, 1:
			return cat([]tok{op("-")}, lit("int", n))
		case 2:
			return lit("num", pick("0.5", "2.0", "3.", "1e1", "2E0"))
		case 3:
			return pickToks(litOf("Boolean"), nullTok(), litOf("String"), g.col("NilInt32"))
		}
		return lit("int", n)
	case "Amount":
		if chance(75) {
			n := rng.Intn(200) - 100
			if chance(20) {
				n = rng.Intn(4000000) - 2000000
			}
			if n < 0 {
				return cat([]tok{op("-")}, lit("int", strconv.Itoa(-n)))
			}
			return lit("int", strconv.Itoa(n))
		}
		return g.gen(d-1, pick("Int32", "Int64", "Boolean"))
	case "Interval":
		if chance(95) {
			s := anyCase(pick("Year", "Month", "DayOfYear", "Day", "Week", "WeekDay", "Hour", "Minute", "Second", "Millisecond"))
			if chance(10) {
				s = " " + s + " "
			}
			return lit("str", quote(s))
		}
		return g.gen(d-1, "String")
	case "Type":
		if chance(95) {
			s := pick("Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime", "Single", "Float", "Bool", "Int", "Int16", "UInt64", "Date", "Time", "UUID", "System.Int32", "System.String", "Undefined", "Nope", "System.")
			return lit("str", quote(anyCase(s)))
		}
		return g.gen(d-1, "String")
	case "Regex":
		if chance(85) {
			return lit("str", quote(pick("a", "b+", "^a", "c$", "[a-c]+", "[0-9]+", "\\d+", "a.c", "x?y*", "l+o", "", ".*", "^$", "(", "[ab", ")", "a b", "[A-Za-z]+,", "o w", "\\.5")))
		}
		return g.gen(d-1, "String")
	}
	if strings.HasPrefix(a, "'") {
		return lit("str", a)
	}
	if chance(6) {
		return g.gen(d, exprTypes[rng.Intn(len(exprTypes))])
	}
	return g.gen(d, a)
}

func (g *egen) fn(d int, t string) []tok {
	q := fnTab[t]
	s := q[rng.Intn(len(q))]
	if chance(25) {
		s = anyFns[rng.Intn(len(anyFns))]
	}
	return g.call(d, strings.Fields(s), t)
}

func (g *egen) call(d int, w []string, t string) []tok {
	r := []tok{fnTok(w[0]), sym("(")}
	k := 0
	opt := false
	var first []tok
	for _, a := range w[1:] {
		if a == "?" {
			opt = true
			continue
		}
		if opt && chance(50) || chance(1) {
			break
		}
		if k > 0 {
			r = append(r, sym(","))
		}
		q := g.arg(d-1, a, t)
		if k == 1 && a == "String" && w[1] == "String" && chance(60) {
			if s, ok := g.textOf(first); ok {
				q = lit("str", quote(partOf(s, false)))
			}
		}
		if k == 0 {
			first = q
		}
		r = append(r, q...)
		k++
	}
	if chance(1) {
		if k > 0 {
			r = append(r, sym(","))
		}
		r = append(r, g.leaf("Int32")...)
	}
	return append(r, sym(")"))
}

func printToks(q []tok) string {
	s := ""
	for i, t := range q {
		if i > 0 {
			p := q[i-1]
			tight := p.K == "(" || t.K == ")" || t.K == "," || p.K == "," || p.K == "fn"
			if !tight || chance(25) {
				s += pick(" ", " ", " ", " ", "  ", "\t", "\n", " /* c */ ", " -- c\n")
			}
		}
		s += t.t
	}
	return s
}

func stamp0(t time.Time) []int {
	return codes(fmt.Sprintf("%d%09d", t.Unix()+62135596800, t.Nanosecond()))
}

func evalOut(f func() (*data.ValueExpression, error)) (o m) {
	defer func() {
		if r := recover(); r != nil {
			o = m{"t": "panic", "what": fmt.Sprint(r)}
		}
	}()
	v, err := f()
	if err != nil {
		return m{"t": "error", "what": err.Error()}
	}
	if t, ok := v.Value().(time.Time); ok && (t.UTC().Year() < 1 || t.UTC().Year() > 9999) {
		return m{"t": "DateTime", "null": false, "v": m{"t": "far"}}
	}
	as, av := []string{}, m{"t": "null"}
	add := func(t string, x interface{}, err error) {
		if err == nil {
			as, av = append(as, t), val(x)
		}
	}
	{
		x, err := v.BooleanValue()
		add("Boolean", x, err)
	}
	{
		x, err := v.Int32Value()
		add("Int32", x, err)
	}
	{
		x, err := v.Int64Value()
		add("Int64", x, err)
	}
	{
		x, err := v.DecimalValue()
		add("Decimal", x, err)
	}
	{
		x, err := v.DoubleValue()
		add("Double", x, err)
	}
	{
		x, err := v.StringValue()
		add("String", x, err)
	}
	{
		x, err := v.GuidValue()
		add("Guid", x, err)
	}
	{
		x, err := v.DateTimeValue()
		add("DateTime", x, err)
	}
	return m{"t": v.ValueType().String(), "null": v.IsNull(), "v": val(v.Value()), "as": as, "av": av}
}

func exprCases(fns bool) {
	// the parser reports syntax errors on the console whatever it is told
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	run := func(f func(g *egen) []tok) {
		g, _, row := mkTable()
		g.fns = fns
		g.paren = 80
		if fns {
			g.paren = 100
		}
		q := f(g)
		text := printToks(q)
		cols := []m{}
		for _, name := range g.order {
			if g.used[name] {
				c := g.cols[name]
				cols = append(cols, m{"n": codes(name), "t": c.typ, "v": val(c.v)})
			}
		}
		t0 := time.Now()
		var o m
		if len(cols) == 0 && chance(50) {
			o = evalOut(func() (*data.ValueExpression, error) { return data.EvaluateExpression(text, true) })
		} else {
			o = evalOut(func() (*data.ValueExpression, error) { return data.EvaluateDataRowExpression(row, text, true) })
		}
		t1 := time.Now()
		emit(m{"text": text, "toks": q, "row": cols, "out": o, "t0": stamp0(t0), "t1": stamp0(t1)})
	}
	leafs := func(g *egen, t string) []tok {
		switch rng.Intn(8) {
		case 0:
			return g.col("Nil" + colsOf[t][rng.Intn(len(colsOf[t]))])
		case 1, 2, 3:
			return litOf(t)
		}
		return g.col(pick("F", "S") + colsOf[t][rng.Intn(len(colsOf[t]))])
	}
	if !fns {
		// every operator on every pair of types
		for _, o := range []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "=", "==", "===", "<>", "!=", "!==", "<", "<=", ">", ">=", "AND", "OR", "LIKE", "IN", "NOTIN", "NOTLIKE"} {
			for _, a := range exprTypes {
				for _, b := range exprTypes {
					for k := 0; k < 2; k++ {
						run(func(g *egen) []tok {
							x, y := leafs(g, a), leafs(g, b)
							switch o {
							case "IN":
								return cat(x, []tok{op("IN")}, paren(y))
							case "NOTIN":
								return cat(x, []tok{op("NOT"), op("IN")}, paren(y))
							case "NOTLIKE":
								return cat(x, []tok{op("NOT"), op("LIKE")}, y)
							}
							return cat(x, []tok{op(o)}, y)
						})
					}
				}
			}
		}
		// patterns
		for _, a := range []string{"", "%", "*", "%%", "**", "*%"} {
			for _, b := range []string{"", "%", "*", "%%", "**"} {
				for k := 0; k < 8; k++ {
					run(func(g *egen) []tok {
						t := ""
						if k > 2 {
							t = partOf(g.cols["FString"].v.(string), true)
						}
						r := cat(g.col("FString"))
						if chance(30) {
							r = append(r, op("NOT"))
						}
						r = append(r, op("LIKE"))
						if chance(30) {
							r = append(r, op(pick("BINARY", "===")))
						}
						return cat(r, lit("str", quote(a+t+b)))
					})
				}
			}
		}
		// literals
		for _, a := range exprTypes {
			for k := 0; k < 40; k++ {
				run(func(g *egen) []tok { return litOf(a) })
			}
		}
		for _, o := range []string{"-", "+", "~", "!", "NOT", "ISNULL", "ISNOTNULL"} {
			for _, a := range exprTypes {
				for k := 0; k < 4; k++ {
					run(func(g *egen) []tok {
						x := leafs(g, a)
						switch o {
						case "ISNULL":
							return cat(x, []tok{op("IS")}, nullTok())
						case "ISNOTNULL":
							return cat(x, []tok{op("IS"), op("NOT")}, nullTok())
						}
						return cat([]tok{op(o)}, x)
					})
				}
			}
		}
	} else {
		// every function, with arguments of its own types and with a wrong one
		for _, t := range exprTypes {
			for _, s := range append(append([]string{}, fnTab[t]...), anyFns...) {
				for k := 0; k < 20; k++ {
					run(func(g *egen) []tok { return g.call(1, strings.Fields(s), t) })
				}
			}
		}
		// text in the case of the other or not, where case matters and where not
		for _, f := range []string{"Contains", "StartsWith", "EndsWith", "IndexOf", "LastIndexOf", "NthIndexOf", "StrCount", "StrCmp", "Replace", "Split"} {
			for k := 0; k < 60; k++ {
				run(func(g *egen) []tok {
					t := exprText()
					for len(t) < 2 {
						t = exprText()
					}
					q := cat([]tok{fnTok(f), sym("(")}, lit("str", quote(t)), []tok{sym(",")}, lit("str", quote(partOf(t, f == "StrCmp"))))
					switch f {
					case "NthIndexOf", "Split":
						q = cat(q, []tok{sym(",")}, lit("int", pick("0", "0", "1", "2")))
					case "Replace":
						u := exprText()
						if chance(40) {
							u += pick("$0", "$1", "${0}", "\\0", "&", "%s", "$")
						}
						q = cat(q, []tok{sym(",")}, lit("str", quote(u)))
					}
					if chance(80) {
						q = cat(q, []tok{sym(",")}, litOf("Boolean"))
					}
					return append(q, sym(")"))
				})
			}
		}
		// text in which another occurs more than once
		for _, f := range []string{"IndexOf", "LastIndexOf", "NthIndexOf", "StrCount", "Replace", "Split"} {
			for k := 0; k < 40; k++ {
				run(func(g *egen) []tok {
					u := pick("a", "ab", "aa", ",", "é", "A", ". ", "||")
					t := ""
					for j := rng.Intn(5); j >= 0; j-- {
						t += pick("", "", "x", "b", "1 ") + pick(u, u, strings.ToUpper(u))
					}
					t += pick("", "y")
					q := cat([]tok{fnTok(f), sym("(")}, lit("str", quote(t)), []tok{sym(",")}, lit("str", quote(u)))
					switch f {
					case "NthIndexOf", "Split":
						q = cat(q, []tok{sym(",")}, lit("int", strconv.Itoa(rng.Intn(6))))
					case "Replace":
						q = cat(q, []tok{sym(",")}, lit("str", quote(pick("", u+u, "Z", "$0", strings.ToUpper(u)))))
					}
					if chance(50) {
						q = cat(q, []tok{sym(",")}, litOf("Boolean"))
					}
					return append(q, sym(")"))
				})
			}
		}
		// parts of a text, from within and beyond it
		for k := 0; k < 150; k++ {
			run(func(g *egen) []tok {
				t := exprText() + pick("", "a", "xyz", "éa")
				at := func() []tok {
					n := rng.Intn(len(t)+4) - 2
					if n < 0 {
						return cat([]tok{op("-")}, lit("int", strconv.Itoa(-n)))
					}
					return lit("int", strconv.Itoa(n))
				}
				q := cat([]tok{fnTok("SubStr"), sym("(")}, lit("str", quote(t)), []tok{sym(",")}, at())
				if chance(80) {
					q = cat(q, []tok{sym(",")}, at())
				}
				return append(q, sym(")"))
			})
		}
		// numbers half way between others, and others near to them
		for _, f := range []string{"Round", "Floor", "Ceiling", "Abs", "Sqrt"} {
			for k := 0; k < 30; k++ {
				run(func(g *egen) []tok {
					q := lit("num", pick("0.5", "1.5", "2.5", "3.5", "0.49", "0.51", "1.0", "2.25", "4.", "16.0", "0.0", "1e0", "25e-1", "35E-1", "1000000.5"))
					if chance(50) {
						q = cat([]tok{op("-")}, q)
					}
					return cat([]tok{fnTok(f), sym("(")}, q, []tok{sym(")")})
				})
			}
		}
		// every part of a time
		for _, f := range []string{"DateAdd DateTime Amount '%s'", "DateDiff DateTime DateTime '%s'", "DatePart DateTime '%s'"} {
			for _, p := range []string{"Year", "Month", "DayOfYear", "Day", "Week", "WeekDay", "Hour", "Minute", "Second", "Millisecond"} {
				for k := 0; k < 6; k++ {
					run(func(g *egen) []tok { return g.call(1, strings.Fields(fmt.Sprintf(f, p)), "Int32") })
				}
			}
		}
		// near times
		for _, p := range []string{"Day", "Hour", "Minute", "Second", "Millisecond"} {
			for k := 0; k < 30; k++ {
				run(func(g *egen) []tok {
					x, y := g.col("FDateTime"), g.col("SDateTime")
					if chance(50) {
						x, y = y, x
					}
					return cat([]tok{fnTok("DateDiff"), sym("(")}, x, []tok{sym(",")}, y, []tok{sym(",")}, lit("str", quote(p)), []tok{sym(")")})
				})
			}
		}
		// every conversion
		for _, a := range exprTypes {
			for _, b := range exprTypes {
				for k := 0; k < 4; k++ {
					run(func(g *egen) []tok {
						return cat([]tok{fnTok("Convert"), sym("(")}, leafs(g, a), []tok{sym(",")}, lit("str", quote(b)), []tok{sym(")")})
					})
				}
			}
		}
	}
	for k := 0; k < *n; k++ {
		run(func(g *egen) []tok { return g.gen(1+rng.Intn(3), exprTypes[rng.Intn(len(exprTypes))]) })
	}
}
