package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/hashset"
)

func init() {
	drvs["C17"] = func() { selectCases(false) }
	drvs["C18"] = func() { selectCases(true) }
}

// A data set to select from: each table has columns for expressions, and those that identify signals.
type sel struct {
	ds            *data.DataSet
	tabs          []*data.DataTable
	gens          []*egen
	where         map[*data.DataRow][]int
	rowVals       [][]map[string]interface{}
	sid, key, tag string
	keys, tags    []string
	sids          []guid.Guid
}

func noNaN(v interface{}) interface{} {
	switch x := v.(type) {
	case float64:
		if x != x {
			return 2.5
		}
	case float32:
		if x != x {
			return float32(2.5)
		}
	}
	return v
}

func newSel(signals bool) *sel {
	s := &sel{ds: data.NewDataSet(), where: map[*data.DataRow][]int{}, sid: "SignalID", key: "ID", tag: "PointTag"}
	if chance(25) {
		s.sid, s.key, s.tag = "Sig", "MKey", "Tag"
	}
	for k := 0; k < 6; k++ {
		var g guid.Guid
		rng.Read(g[:])
		s.sids = append(s.sids, g)
		s.keys = append(s.keys, pick("PPA", "TVA", "SHELBY", "_x1")+":"+strconv.Itoa(1+rng.Intn(12)))
		s.tags = append(s.tags, pick("TVA.SH-1", "GPA_X", "a@b", "FREQ#1", "x.y-Z", "T$9", "Alpha!", "beta.2")+pick("", "1", "2"))
	}
	for i, name := range []string{"ActiveMeasurements", "Other"} {
		g := &egen{cols: map[string]colv{}, used: map[string]bool{}, paren: 100}
		dt := s.ds.CreateTable(name)
		pool := map[string][]interface{}{}
		add := func(c colv) {
			g.cols[c.name] = c
			g.order = append(g.order, c.name)
			dt.AddColumn(dt.CreateColumn(c.name, typeOf(c.typ), ""))
		}
		for _, t := range typeNames {
			for _, k := range []string{"F", "S", "Nil"} {
				add(colv{k + t, t, nil})
				q := []interface{}{noNaN(exprVal(t)), noNaN(exprVal(t)), noNaN(exprVal(t))}
				if chance(35) {
					q[1] = noNaN(alike(q[0]))
				}
				if chance(35) {
					q[2] = noNaN(alike(q[rng.Intn(2)]))
				}
				pool[k+t] = q
			}
		}
		idt, kt, tt := "Guid", "String", "String"
		if signals && chance(4) {
			idt = "String"
		}
		if signals && chance(4) {
			kt = "Int32"
		}
		if !(signals && chance(4)) {
			add(colv{s.sid, idt, nil})
			g.used[s.sid] = true
		}
		if !(signals && chance(4)) {
			add(colv{s.key, kt, nil})
			g.used[s.key] = true
		}
		if !(signals && chance(4)) {
			add(colv{s.tag, tt, nil})
			g.used[s.tag] = true
		}
		s.ds.AddTable(dt)
		n := 2 + rng.Intn(6)
		if chance(10) {
			n = rng.Intn(2)
		}
		if chance(15) {
			n = 12 + rng.Intn(20)
		}
		vals := []map[string]interface{}{}
		for r := 0; r < n; r++ {
			row := dt.CreateRow()
			v := map[string]interface{}{}
			for _, c := range g.order {
				switch {
				case c == s.sid && idt == "Guid":
					v[c] = s.sids[rng.Intn(5)]
					if chance(5) {
						v[c] = guid.Guid{}
					}
				case c == s.sid:
					v[c] = s.sids[rng.Intn(5)].String()
				case c == s.key && kt == "String":
					v[c] = anyCase(s.keys[rng.Intn(5)])
				case c == s.key:
					v[c] = int32(r)
				case c == s.tag:
					v[c] = anyCase(s.tags[rng.Intn(5)])
				case strings.HasPrefix(c, "Nil"):
				default:
					v[c] = pool[c][rng.Intn(3)]
				}
				if chance(10) {
					v[c] = nil
				}
			}
			for k, c := range g.order {
				if err := row.SetValue(k, v[c]); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
			}
			dt.AddRow(row)
			s.where[row] = []int{i + 1, r + 1}
			vals = append(vals, v)
		}
		s.tabs = append(s.tabs, dt)
		s.gens = append(s.gens, g)
		s.rowVals = append(s.rowVals, vals)
	}
	return s
}

func (s *sel) record() []m {
	r := []m{}
	for i, dt := range s.tabs {
		cols, rows := []m{}, [][]m{}
		for _, c := range s.gens[i].order {
			if s.gens[i].used[c] {
				cols = append(cols, m{"n": codes(c), "t": s.gens[i].cols[c].typ})
			}
		}
		for _, v := range s.rowVals[i] {
			q := []m{}
			for _, c := range s.gens[i].order {
				if s.gens[i].used[c] {
					q = append(q, val(v[c]))
				}
			}
			rows = append(rows, q)
		}
		r = append(r, m{"n": codes(dt.Name()), "c": cols, "r": rows})
	}
	return r
}

// All there is to see of the data set.
func (s *sel) image() string {
	names := s.ds.TableNames()
	sort.Strings(names)
	b := fmt.Sprint(names)
	for _, dt := range s.tabs {
		b += fmt.Sprintf("|%p %s %d %d", s.ds.Table(dt.Name()), dt.Name(), dt.RowCount(), dt.ColumnCount())
		for k := 0; k < dt.ColumnCount(); k++ {
			b += fmt.Sprintf(";%s %v %s", dt.Column(k).Name(), dt.Column(k).Type(), dt.Column(k).Expression())
		}
		for r := 0; r < dt.RowCount(); r++ {
			b += fmt.Sprintf(";%p", dt.Row(r))
			for k := 0; k < dt.ColumnCount(); k++ {
				v, err := dt.Row(r).Value(k)
				b += fmt.Sprintf(",%v %v", v, err)
			}
		}
	}
	return b
}

func (s *sel) at(rows []*data.DataRow) [][]int {
	r := [][]int{}
	for _, x := range rows {
		p, ok := s.where[x]
		if !ok {
			p = []int{0, 0}
		}
		r = append(r, p)
	}
	return r
}

func guidInts(q []guid.Guid) [][]int {
	r := [][]int{}
	for _, g := range q {
		r = append(r, ints(g[:]))
	}
	return r
}

func quoteName(c string) string {
	c = anyCase(c)
	switch rng.Intn(5) {
	case 0:
		return "[" + c + "]"
	case 1:
		return "`" + c + "`"
	}
	return c
}

// A condition on rows of table i.
func (s *sel) cond(i int) []tok {
	if chance(2) {
		return cat(lit("col", "Nope"), []tok{op("=")}, lit("int", "1"))
	}
	if chance(20) {
		return lit("bool", pick("True", "TRUE", "true", "True", "True", "False"))
	}
	if chance(25) {
		// a few rows of many
		g := s.gens[i]
		q := []tok{}
		for k := 1 + rng.Intn(3); k > 0; k-- {
			c := pick("F", "S") + typeNames[rng.Intn(len(typeNames))]
			x := paren(cat(g.col(c), []tok{op("IS"), op("NOT")}, nullTok()))
			if chance(70) {
				x = paren(cat(g.col(c), []tok{op(pick("<>", ">=", "<=", "=", "==="))}, g.col(c[:1]+g.cols[c].typ)))
			}
			if len(q) > 0 {
				q = cat([]tok{sym("(")}, q, []tok{op(pick("OR", "AND")), sym("(")}, x, []tok{sym(")"), sym(")")})
			} else {
				q = x
			}
		}
		return q
	}
	g := s.gens[i]
	if chance(25) {
		g.fns = true
	}
	if chance(35) {
		// one column against one of its values, so that some rows match
		c := g.order[rng.Intn(len(g.order))]
		t := g.cols[c].typ
		if chance(20) {
			r := cat(g.col(c), []tok{op("IS")})
			if chance(60) {
				r = append(r, op("NOT"))
			}
			return cat(r, nullTok())
		}
		return cat(g.col(c), []tok{op(pick("=", "<>", "<", "<=", ">", ">="))}, g.col(pick("F", "S")+t))
	}
	t := "Boolean"
	if chance(4) {
		t = exprTypes[rng.Intn(len(exprTypes))]
	}
	return g.gen(1+rng.Intn(2), t)
}

func (s *sel) order(i int) ([]m, string) {
	r, text := []m{}, ""
	for k := rng.Intn(4); k > 0; k-- {
		g := s.gens[i]
		c := g.order[rng.Intn(len(g.order))]
		for strings.HasPrefix(c, "Nil") && chance(80) {
			c = g.order[rng.Intn(len(g.order))]
		}
		if chance(35) {
			c = pick("F", "S") + pick("String", "Boolean")
		}
		g.used[c] = true
		if chance(1) {
			c = "Nope"
		}
		name := quoteName(c)
		x := m{"c": codes(name), "desc": false, "exact": false}
		if chance(30) {
			x["exact"] = true
			name = pick("BINARY ", "binary ", "=== ", "===") + name
		}
		if chance(40) {
			x["desc"] = true
			name += pick(" DESC", " desc")
		} else if chance(30) {
			name += pick(" ASC", " Asc")
		}
		if text != "" {
			text += pick(",", ", ", " , ")
		}
		text += name
		r = append(r, x)
	}
	return r, text
}

func (s *sel) top() string {
	switch rng.Intn(12) {
	case 0:
		return "0"
	case 1:
		return "-" + strconv.Itoa(1+rng.Intn(3))
	case 2:
		return pick("99999999999999999999", "2147483648", "100")
	case 3:
		return "+" + strconv.Itoa(rng.Intn(4))
	}
	return strconv.Itoa(rng.Intn(8))
}

func (s *sel) filter(i int) (m, string) {
	name := quoteName(s.tabs[i].Name())
	if chance(1) {
		name = "Nowhere"
	}
	q := s.cond(i)
	st := m{"k": "filter", "tab": codes(name), "toks": q, "top": []int{}}
	text := anyCase("FILTER") + " "
	if chance(50) {
		n := s.top()
		st["top"] = codes(strings.TrimPrefix(n, "+"))
		text += anyCase("TOP") + " " + n + " "
	}
	text += name + " " + anyCase("WHERE") + " " + printToks(q)
	ord, otext := s.order(i)
	st["ord"] = ord
	if otext != "" {
		text += " " + pick("ORDER BY", "order by", "Order\tBy") + " " + otext
	}
	return st, text
}

func (s *sel) ident() (m, string) {
	switch rng.Intn(3) {
	case 0:
		g := s.sids[rng.Intn(6)]
		if chance(5) {
			g = guid.Guid{}
		}
		t := g.String()
		switch rng.Intn(4) {
		case 0:
			t = strings.ToUpper(t)
		case 1:
			t = t[1 : len(t)-1]
		case 2:
			t = "'" + t[1:len(t)-1] + "'"
		}
		return m{"k": "guid", "s": codes(t)}, t
	case 1:
		t := anyCase(s.keys[rng.Intn(6)])
		return m{"k": "key", "s": codes(t)}, t
	}
	t := "\"" + anyCase(s.tags[rng.Intn(6)]) + "\""
	return m{"k": "tag", "s": codes(t)}, t
}

func guarded(f func() m) (o m) {
	defer func() {
		if r := recover(); r != nil {
			o = m{"t": "panic", "what": fmt.Sprint(r)}
		}
	}()
	return f()
}

func failed(err error) m { return m{"t": "error", "what": err.Error()} }

func selectCases(signals bool) {
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if *in != "" {
		f, err := os.Open(*in)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			var p selPlan
			if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
				panic(err)
			}
			planned(p, signals)
		}
		return
	}
	for k := 0; k < *n; k++ {
		s := newSel(signals)
		switch {
		case !signals && chance(6):
			s.rowsWhere()
		case !signals && chance(20):
			for j := 0; j < 12; j++ {
				s.compare()
			}
		case !signals && chance(25):
			s.fromTable()
		default:
			s.statements(signals)
		}
	}
}

func (s *sel) statements(signals bool) {
	stmts, texts := []m{}, []string{}
	count := 1
	if signals && chance(85) || chance(20) {
		count = 1 + rng.Intn(4)
	}
	for k := 0; k < count; k++ {
		var st m
		var t string
		i := 0
		if chance(12) && !(signals && chance(70)) {
			i = 1
		}
		switch {
		case signals && chance(65) || chance(8):
			st, t = s.ident()
		case chance(15):
			q := s.cond(0)
			st, t = m{"k": "expr", "toks": q}, printToks(q)
			if len(q) == 1 && q[0].K != "bool" {
				st, t = s.filter(i) // alone it might read as an identifier
			}
		default:
			st, t = s.filter(i)
		}
		stmts = append(stmts, st)
		texts = append(texts, t)
	}
	text := strings.Join(texts, pick(";", "; ", " ;\n", ";;"))
	if chance(20) {
		text += pick(";", " ; ")
	}
	if chance(5) {
		text = ";" + text
	}
	prim := anyCase("ActiveMeasurements")
	if chance(3) {
		prim = "Missing"
	}
	s.run(signals, text, stmts, prim)
}

func (s *sel) run(signals bool, text string, stmts []m, prim string) {
	var fields *data.TableIDFields
	if s.sid != "SignalID" {
		fields = &data.TableIDFields{SignalIDFieldName: anyCase(s.sid), MeasurementKeyFieldName: s.key, PointTagFieldName: s.tag}
	}
	c := m{"op": "select", "text": text, "stmts": stmts, "tabs": s.record(), "prim": codes(prim), "sid": codes(s.sid), "key": codes(s.key), "tag": codes(s.tag),
		"lim": true, "sort": false, "rows": true, "ids": false, "strict": false}
	before := s.image()
	how := rng.Intn(4)
	if signals && how < 2 {
		how = 2
	}
	table := s.tabs[0]
	direct := prim != "Missing" && chance(30)
	switch how {
	case 0:
		c["sort"] = true
		c["out"] = guarded(func() m {
			var r []*data.DataRow
			var err error
			if direct {
				r, err = data.SelectDataRowsFromTable(table, text, prim, fields, true)
			} else {
				r, err = data.SelectDataRows(s.ds, text, prim, fields, true)
			}
			if err != nil {
				return failed(err)
			}
			return m{"t": "ok", "list": s.at(r)}
		})
	case 1:
		c["out"] = guarded(func() m {
			r, err := data.SelectDataRowSet(s.ds, text, prim, fields, true)
			if direct {
				r, err = data.SelectDataRowSetFromTable(table, text, fields, true)
			}
			if err != nil {
				return failed(err)
			}
			return m{"t": "ok", "set": s.at(r.Keys())}
		})
	case 2:
		c["rows"], c["ids"] = false, true
		c["out"] = guarded(func() m {
			r, err := data.SelectSignalIDSet(s.ds, text, prim, fields, true)
			if direct {
				r, err = data.SelectSignalIDSetFromTable(table, text, prim, fields, true)
			}
			if err != nil {
				return failed(err)
			}
			return m{"t": "ok", "idset": guidInts(r.Keys())}
		})
	case 3:
		ids, rows, lim, srt := chance(60), chance(80), chance(70), chance(70)
		if !ids && !rows {
			ids = true
		}
		c["rows"], c["ids"], c["lim"], c["sort"] = rows, ids, lim, srt
		again := rng.Intn(5) // is this a later use of the parser?
		c["out"] = guarded(func() m {
			p, err := data.NewFilterExpressionParserForDataSet(s.ds, text, prim, fields, true)
			if err != nil {
				return failed(err)
			}
			p.TrackFilteredRows, p.TrackFilteredSignalIDs = rows, ids
			switch again {
			case 0:
				if _, err := p.ExpressionTrees(); err != nil {
					return failed(err)
				}
			case 1:
				if err := p.Evaluate(!lim, srt); err != nil {
					return failed(err)
				}
			}
			if err := p.Evaluate(lim, srt); err != nil {
				return failed(err)
			}
			o := m{"t": "ok"}
			var list []*data.DataRow
			var set hashset.HashSet[*data.DataRow]
			var idlist []guid.Guid
			var idset hashset.HashSet[guid.Guid]
			if rows {
				list, set = p.FilteredRows(), p.FilteredRowSet()
			}
			if ids {
				idlist, idset = p.FilteredSignalIDs(), p.FilteredSignalIDSet()
			}
			if again == 2 { // results outlive a later use of the parser
				_ = p.Evaluate(!lim, !srt)
			}
			if rows {
				o["list"], o["set"] = s.at(list), s.at(set.Keys())
			}
			if ids {
				o["idlist"], o["idset"] = guidInts(idlist), guidInts(idset.Keys())
			}
			return o
		})
	}
	c["same"] = s.image() == before
	emit(c)
}

func (s *sel) fromTable() {
	i := rng.Intn(2)
	q := s.cond(i)
	ord, otext := s.order(i)
	text := printToks(q)
	if chance(10) {
		q, text = lit("bool", "True"), ""
	}
	n := rng.Intn(9) - 2
	st := m{"k": "filter", "tab": codes(s.tabs[i].Name()), "toks": q, "top": codes(strconv.Itoa(n)), "ord": ord}
	c := m{"op": "select", "text": text + " / " + otext, "stmts": []m{st}, "tabs": s.record(), "prim": codes(""), "sid": codes(s.sid), "key": codes(s.key), "tag": codes(s.tag),
		"lim": true, "sort": true, "rows": true, "ids": false, "strict": true}
	before := s.image()
	c["out"] = guarded(func() m {
		r, err := s.tabs[i].Select(text, otext, n)
		if err != nil {
			return failed(err)
		}
		return m{"t": "ok", "list": s.at(r)}
	})
	c["same"] = s.image() == before
	emit(c)
}

func (s *sel) rowsWhere() {
	mask := []bool{}
	want := map[*data.DataRow]bool{}
	for r := 0; r < s.tabs[0].RowCount(); r++ {
		mask = append(mask, chance(50))
		want[s.tabs[0].Row(r)] = mask[r]
	}
	n := rng.Intn(7) - 2
	before := s.image()
	o := guarded(func() m {
		return m{"t": "ok", "list": s.at(s.tabs[0].RowsWhere(func(r *data.DataRow) bool { return want[r] }, n))}
	})
	emit(m{"op": "where", "mask": mask, "n": n, "out": o, "same": s.image() == before})
}

func (s *sel) compare() {
	i := rng.Intn(2)
	dt := s.tabs[i]
	if dt.RowCount() == 0 {
		return
	}
	a, b := rng.Intn(dt.RowCount()), rng.Intn(dt.RowCount())
	k := rng.Intn(dt.ColumnCount())
	c := s.gens[i].order[k]
	for strings.HasPrefix(c, "Nil") && chance(90) {
		k = rng.Intn(dt.ColumnCount())
		c = s.gens[i].order[k]
	}
	exact := chance(50)
	before := s.image()
	o := guarded(func() m {
		d, err := data.CompareDataRowColumns(dt.Row(a), dt.Row(b), k, exact)
		if err != nil {
			return failed(err)
		}
		return m{"t": "ok", "n": d}
	})
	emit(m{"op": "cmp", "type": s.gens[i].cols[c].typ, "a": val(s.rowVals[i][a][c]), "b": val(s.rowVals[i][b][c]), "exact": exact, "out": o, "same": s.image() == before})
}

// A behaviour of SelectMC.tla.
type selPlan struct {
	Rows  []struct{ F, B, Id, K int }
	Stmts []struct {
		S   string
		Top int
		Ord string
	}
}

func planned(p selPlan, signals bool) {
	s := &sel{ds: data.NewDataSet(), where: map[*data.DataRow][]int{}, sid: "SignalID", key: "ID", tag: "PointTag"}
	g := &egen{cols: map[string]colv{}, used: map[string]bool{}}
	dt := s.ds.CreateTable("T")
	for _, c := range []colv{{"F", "Int32", nil}, {"B", "Boolean", nil}, {"SignalID", "Guid", nil}, {"ID", "String", nil}, {"PointTag", "String", nil}} {
		g.cols[c.name], g.used[c.name] = c, true
		g.order = append(g.order, c.name)
		dt.AddColumn(dt.CreateColumn(c.name, typeOf(c.typ), ""))
	}
	s.ds.AddTable(dt)
	id := func(i int) guid.Guid {
		var x guid.Guid
		for k := range x {
			x[k] = 7
		}
		x[15] = byte(i)
		return x
	}
	vals := []map[string]interface{}{}
	for r, x := range p.Rows {
		v := map[string]interface{}{"F": nil, "B": nil, "SignalID": nil, "ID": fmt.Sprintf("K:%d", x.K), "PointTag": fmt.Sprintf("K.%d", x.K)}
		if x.F > 0 {
			v["F"] = int32(x.F)
		}
		if x.B > 0 {
			v["B"] = x.B == 1
		}
		if x.Id > 0 {
			v["SignalID"] = id(x.Id)
		}
		row := dt.CreateRow()
		for k, c := range g.order {
			if err := row.SetValue(k, v[c]); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		dt.AddRow(row)
		s.where[row] = []int{1, r + 1}
		vals = append(vals, v)
	}
	s.tabs, s.gens, s.rowVals = []*data.DataTable{dt}, []*egen{g}, [][]map[string]interface{}{vals}
	stmts, texts := []m{}, []string{}
	for _, x := range p.Stmts {
		var st m
		t := ""
		switch x.S {
		case "filter":
			q := []tok{{"col", codes("B"), "", "B"}}
			st = m{"k": "filter", "tab": codes("T"), "toks": q, "top": []int{}, "ord": []m{}}
			t = "FILTER T WHERE B"
			if x.Top >= 0 {
				st["top"] = codes(strconv.Itoa(x.Top))
				t = fmt.Sprintf("FILTER TOP %d T WHERE B", x.Top)
			}
			if x.Ord != "none" {
				st["ord"] = []m{{"c": codes("F"), "desc": x.Ord == "desc", "exact": false}}
				t += " ORDER BY F " + x.Ord
			}
		case "guid":
			t = id(x.Top).String()
			st = m{"k": "guid", "s": codes(t)}
		case "key":
			t = fmt.Sprintf("K:%d", x.Top)
			st = m{"k": "key", "s": codes(t)}
		case "tag":
			t = fmt.Sprintf("\"K.%d\"", x.Top)
			st = m{"k": "tag", "s": codes(t)}
		}
		stmts = append(stmts, st)
		texts = append(texts, t)
	}
	s.run(signals, strings.Join(texts, ";"), stmts, "T")
}
