package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
)

type m = map[string]interface{}

// val is a field value as Value.tla reads it.
func val(v interface{}) m {
	switch x := v.(type) {
	case nil:
		return m{"t": "null"}
	case string:
		return m{"t": "String", "s": codes(x)}
	case bool:
		return m{"t": "Boolean", "b": x}
	case float32:
		return m{"t": "Single", "d": dbl(float64(x))}
	case float64:
		return m{"t": "Double", "d": dbl(x)}
	case decimal.Decimal:
		return m{"t": "Decimal", "c": codes(x.Coefficient().String()), "x": x.Exponent()}
	case guid.Guid:
		return m{"t": "Guid", "g": ints(x[:])}
	case time.Time:
		u := x.UTC()
		return m{"t": "DateTime", "p": []int{u.Year(), int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second(), u.Nanosecond()}}
	case int8:
		return m{"t": "Int8", "i": idec(int64(x))}
	case int16:
		return m{"t": "Int16", "i": idec(int64(x))}
	case int32:
		return m{"t": "Int32", "i": idec(int64(x))}
	case int64:
		return m{"t": "Int64", "i": idec(x)}
	case uint8:
		return m{"t": "UInt8", "i": udec(uint64(x))}
	case uint16:
		return m{"t": "UInt16", "i": udec(uint64(x))}
	case uint32:
		return m{"t": "UInt32", "i": udec(uint64(x))}
	case uint64:
		return m{"t": "UInt64", "i": udec(x)}
	}
	return m{"t": fmt.Sprintf("%T", v)}
}

var typeNames = []string{"String", "Boolean", "DateTime", "Single", "Double", "Decimal", "Guid", "Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64"}

func acc(v interface{}, null bool, err error) m {
	if err != nil {
		return m{"t": "error"}
	}
	if null {
		return m{"t": "null"}
	}
	return val(v)
}

func access(r *data.DataRow, t string, i int) m {
	switch t {
	case "String":
		v, n, e := r.StringValue(i)
		return acc(v, n, e)
	case "Boolean":
		v, n, e := r.BooleanValue(i)
		return acc(v, n, e)
	case "DateTime":
		v, n, e := r.DateTimeValue(i)
		return acc(v, n, e)
	case "Single":
		v, n, e := r.SingleValue(i)
		return acc(v, n, e)
	case "Double":
		v, n, e := r.DoubleValue(i)
		return acc(v, n, e)
	case "Decimal":
		v, n, e := r.DecimalValue(i)
		return acc(v, n, e)
	case "Guid":
		v, n, e := r.GuidValue(i)
		return acc(v, n, e)
	case "Int8":
		v, n, e := r.Int8Value(i)
		return acc(v, n, e)
	case "Int16":
		v, n, e := r.Int16Value(i)
		return acc(v, n, e)
	case "Int32":
		v, n, e := r.Int32Value(i)
		return acc(v, n, e)
	case "Int64":
		v, n, e := r.Int64Value(i)
		return acc(v, n, e)
	case "UInt8":
		v, n, e := r.UInt8Value(i)
		return acc(v, n, e)
	case "UInt16":
		v, n, e := r.UInt16Value(i)
		return acc(v, n, e)
	case "UInt32":
		v, n, e := r.UInt32Value(i)
		return acc(v, n, e)
	}
	v, n, e := r.UInt64Value(i)
	return acc(v, n, e)
}

func accessName(r *data.DataRow, t string, i string) m {
	switch t {
	case "String":
		v, n, e := r.StringValueByName(i)
		return acc(v, n, e)
	case "Boolean":
		v, n, e := r.BooleanValueByName(i)
		return acc(v, n, e)
	case "DateTime":
		v, n, e := r.DateTimeValueByName(i)
		return acc(v, n, e)
	case "Single":
		v, n, e := r.SingleValueByName(i)
		return acc(v, n, e)
	case "Double":
		v, n, e := r.DoubleValueByName(i)
		return acc(v, n, e)
	case "Decimal":
		v, n, e := r.DecimalValueByName(i)
		return acc(v, n, e)
	case "Guid":
		v, n, e := r.GuidValueByName(i)
		return acc(v, n, e)
	case "Int8":
		v, n, e := r.Int8ValueByName(i)
		return acc(v, n, e)
	case "Int16":
		v, n, e := r.Int16ValueByName(i)
		return acc(v, n, e)
	case "Int32":
		v, n, e := r.Int32ValueByName(i)
		return acc(v, n, e)
	case "Int64":
		v, n, e := r.Int64ValueByName(i)
		return acc(v, n, e)
	case "UInt8":
		v, n, e := r.UInt8ValueByName(i)
		return acc(v, n, e)
	case "UInt16":
		v, n, e := r.UInt16ValueByName(i)
		return acc(v, n, e)
	case "UInt32":
		v, n, e := r.UInt32ValueByName(i)
		return acc(v, n, e)
	}
	v, n, e := r.UInt64ValueByName(i)
	return acc(v, n, e)
}

func mix(s string) string {
	switch rng.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// dump records all that can be read from a data set.
func dump(ds *data.DataSet, names []string) m {
	tabs := []m{}
	for _, t := range ds.Tables() {
		cols := []m{}
		for i := 0; i < t.ColumnCount(); i++ {
			c := t.Column(i)
			cols = append(cols, m{"name": codes(c.Name()), "type": c.Type().String(), "expr": codes(c.Expression()), "at": c.Index(),
				"found": t.ColumnIndex(mix(c.Name())), "same": t.ColumnByName(mix(c.Name())) == c && c.Parent() == t})
		}
		rows := []m{}
		for i := 0; i < t.RowCount(); i++ {
			r := t.Row(i)
			vs, bn, ty, tn, wr, tx, xn := []m{}, []m{}, []m{}, []m{}, []m{}, [][]int{}, [][]int{}
			for j := -1; j <= t.ColumnCount(); j++ {
				v, err := r.Value(j)
				wrong := typeNames[rng.Intn(len(typeNames))]
				if j < 0 || j == t.ColumnCount() {
					wr = append(wr, m{"c": j, "type": wrong, "val": access(r, wrong, j), "any": acc(v, false, err), "text": codes(r.ValueAsString(j))})
					continue
				}
				c := t.Column(j)
				name := mix(c.Name())
				vs = append(vs, acc(v, false, err))
				v, err = r.ValueByName(name)
				bn = append(bn, acc(v, false, err))
				ty = append(ty, access(r, c.Type().String(), j))
				tn = append(tn, accessName(r, c.Type().String(), name))
				wr = append(wr, m{"c": j, "type": wrong, "val": access(r, wrong, j)})
				tx = append(tx, codes(t.RowValueAsString(i, j)))
				xn = append(xn, codes(t.RowValueAsStringByName(i, name)))
			}
			_, err := r.ValueByName("no such column")
			miss := err != nil && r.SetValueByName("nope", int32(1)) != nil && r.ValueAsStringByName("nope") == "" && t.RowValueAsStringByName(i, "nope") == "" && r.ColumnValueAsString(nil) == ""
			for _, n := range typeNames {
				miss = miss && accessName(r, n, "nope")["t"] == "error"
			}
			rows = append(rows, m{"v": vs, "n": bn, "ty": ty, "tn": tn, "wr": wr, "tx": tx, "xn": xn, "miss": miss})
		}
		tabs = append(tabs, m{"name": codes(t.Name()), "cols": cols, "rows": rows, "outside": t.Row(-1) == nil && t.Row(t.RowCount()) == nil && t.Column(-1) == nil &&
			t.Column(t.ColumnCount()) == nil && t.ColumnIndex("nope") == -1 && t.RowValueAsString(-1, 0) == "" && t.RowValueAsString(0, -1) == "" && len(t.Rows()) == t.RowCount(), "same": ds.Table(mix(t.Name())) == t && t.Parent() == ds})
	}
	look := []m{}
	for _, n := range names {
		t := ds.Table(n)
		look = append(look, m{"name": codes(n), "found": t != nil})
	}
	return m{"tables": tabs, "count": ds.TableCount(), "names": len(ds.TableNames()), "look": look}
}

type dfield struct {
	Name string
	Xsd  string
	Ext  string // none, guid, guidns (an attribute of another namespace), other
	Expr string
	Ens  bool
}

type dtable struct {
	Name   string
	Fields []dfield
}

var xsds = []string{"string", "boolean", "dateTime", "float", "double", "decimal", "byte", "short", "int", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong"}

func xmlEsc(s string) string {
	switch rng.Intn(6) {
	case 0:
		if !strings.Contains(s, "]]>") && s != "" {
			return "<![CDATA[" + s + "]]>"
		}
	case 1:
		r := ""
		for _, c := range s {
			r += "&#" + strconv.Itoa(int(c)) + ";"
		}
		return r
	}
	r := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
	if rng.Intn(8) == 0 && r != "" {
		k := len(r)
		if i := strings.IndexAny(r, "&;é∑"); i < 0 {
			k = rng.Intn(len(r) + 1)
		}
		r = r[:k] + "<!-- c -->" + r[k:]
	}
	return r
}

func lexInt(bits uint, signed bool) string {
	var s string
	if signed {
		v := int64(rng.Uint64()) >> (64 - bits)
		switch rng.Intn(4) {
		case 0:
			v = []int64{0, 1, -1, 1<<(bits-1) - 1, -1 << (bits - 1)}[rng.Intn(5)]
		case 1:
			v >>= uint(rng.Intn(int(bits)))
		}
		s = strconv.FormatInt(v, 10)
		if v >= 0 && rng.Intn(10) == 0 {
			s = "+" + s
		}
	} else {
		v := rng.Uint64() >> (64 - bits)
		switch rng.Intn(4) {
		case 0:
			v = []uint64{0, 1, 1<<(bits-1) - 1, 1 << (bits - 1), 1<<(bits-1)*2 - 1}[rng.Intn(5)]
		case 1:
			v >>= uint(rng.Intn(int(bits)))
		}
		s = strconv.FormatUint(v, 10)
	}
	if rng.Intn(12) == 0 {
		if s[0] == '-' || s[0] == '+' {
			s = s[:1] + "00" + s[1:]
		} else {
			s = "00" + s
		}
	}
	return s
}

func lexFloat() string {
	switch rng.Intn(8) {
	case 0:
		return []string{"INF", "-INF", "NaN", "0", "-0", "1", "0.1", "16777217", "9007199254740993", "1E+2", "1e-7", "3.4028235e38", "1.4E-45", "1e39", "4.9E-324", "1.7976931348623157e308", "1e309", ".5", "5."}[rng.Intn(19)]
	case 1:
		return strconv.FormatFloat(float64(math.Float32frombits(rng.Uint32()&0x7f7fffff)), 'g', 1+rng.Intn(9), 64)
	case 2:
		return strconv.FormatFloat(someFloat(), 'e', rng.Intn(18), 64)
	case 3:
		return strconv.Itoa(rng.Intn(2000000)-1000000) + "." + strconv.Itoa(rng.Intn(1000000))
	}
	f := rng.Float64() * math.Pow10(rng.Intn(12)-3)
	if rng.Intn(3) == 0 {
		f = -f
	}
	return strconv.FormatFloat(f, 'f', rng.Intn(12), 64)
}

func lexDate() string {
	y := 1 + rng.Intn(9998)
	if rng.Intn(3) > 0 {
		y = 1990 + rng.Intn(60)
	}
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, 1+rng.Intn(12), 1+rng.Intn(28), rng.Intn(24), rng.Intn(60), rng.Intn(60))
	if k := rng.Intn(10); k > 0 && rng.Intn(2) == 0 {
		s += fmt.Sprintf(".%09d", rng.Intn(1000000000))[:k+1]
	}
	switch rng.Intn(4) {
	case 0:
		s += "Z"
	case 1:
		s += fmt.Sprintf("%s%02d:%02d", []string{"+", "-"}[rng.Intn(2)], rng.Intn(14), []int{0, 0, 30, 45}[rng.Intn(4)])
	}
	return s
}

var dsTexts = []string{"", " ", "a", "A b", "  lead", "trail  ", "PPA:1", "<tag>", "a&b", "'q'", "\"dq\"", "café ∑", "0", "true", "-5", "x\ty", "SHELBY-FREQ", "a]]b", "%;="}

func lexOf(f dfield) string {
	s := ""
	switch f.Xsd {
	case "string":
		if f.Ext == "guid" {
			var g guid.Guid
			rng.Read(g[:])
			s = g.String()
			switch rng.Intn(4) {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s = s[1 : len(s)-1]
			}
			break
		}
		return dsTexts[rng.Intn(len(dsTexts))]
	case "boolean":
		s = []string{"true", "false", "1", "0"}[rng.Intn(4)]
	case "dateTime":
		s = lexDate()
	case "float", "double":
		s = lexFloat()
	case "decimal":
		s = lexInt(uint(1+rng.Intn(63)), true)
		if rng.Intn(2) == 0 {
			s += "." + strconv.Itoa(rng.Intn(1000000))
		}
		s = strings.TrimPrefix(s, "+")
	case "byte":
		s = lexInt(8, true)
	case "short":
		s = lexInt(16, true)
	case "int":
		s = lexInt(32, true)
	case "long":
		s = lexInt(64, true)
	case "unsignedByte":
		s = lexInt(8, false)
	case "unsignedShort":
		s = lexInt(16, false)
	case "unsignedInt":
		s = lexInt(32, false)
	case "unsignedLong":
		s = lexInt(64, false)
	default:
		s = "whatever"
	}
	if rng.Intn(15) == 0 {
		s = []string{" ", "\n\t", "\t "}[rng.Intn(3)] + s + []string{"", " \n", "  "}[rng.Intn(3)]
	}
	return s
}

func loadCase() {
	var tabs []dtable
	names := []string{"DeviceDetail", "MeasurementDetail", "PhasorDetail", "SchemaVersion", "Data-1", "T_x"}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	fnames := []string{"ID", "SignalID", "Name", "UpdatedOn", "Value", "Enabled", "Acronym", "X.1", "Y_2", "Longitude"}
	for i := rng.Intn(4); i > 0; i-- {
		t := dtable{Name: names[i]}
		rng.Shuffle(len(fnames), func(i, j int) { fnames[i], fnames[j] = fnames[j], fnames[i] })
		for k := rng.Intn(7); k > 0; k-- {
			f := dfield{Name: fnames[k], Xsd: xsds[rng.Intn(len(xsds))], Ext: "none"}
			if rng.Intn(12) == 0 {
				f.Xsd = []string{"token", "duration", "hexBinary", "anyURI", "String"}[rng.Intn(5)]
			}
			if rng.Intn(3) == 0 {
				f.Xsd = "string"
			}
			if f.Xsd == "string" || rng.Intn(8) == 0 {
				f.Ext = []string{"none", "guid", "guid", "guidns", "other"}[rng.Intn(5)]
			}
			t.Fields = append(t.Fields, f)
		}
		// computed columns refer to another column and have its type
		for k := rng.Intn(3); k > 0 && len(t.Fields) > 0; k-- {
			s := t.Fields[rng.Intn(len(t.Fields))]
			if s.Expr != "" || s.Xsd == "unsignedLong" || strings.ContainsAny(s.Name, ".") {
				continue
			}
			f := s
			f.Name = "Calc" + strconv.Itoa(k)
			f.Expr = s.Name
			f.Ens = rng.Intn(5) > 0
			at := rng.Intn(len(t.Fields) + 1)
			t.Fields = append(t.Fields[:at:at], append([]dfield{f}, t.Fields[at:]...)...)
		}
		tabs = append(tabs, t)
	}
	// write the document
	pre := []string{"xs", "xsd", "", "s1"}[rng.Intn(4)]
	q := pre
	if q != "" {
		q += ":"
	}
	onRoot := pre != "" && rng.Intn(4) == 0
	decl := ` xmlns:` + pre + `="http://www.w3.org/2001/XMLSchema"`
	if pre == "" {
		decl = ` xmlns="http://www.w3.org/2001/XMLSchema"`
	}
	ms := []string{"msdata", "ext"}[rng.Intn(2)]
	msd := ` xmlns:` + ms + `="urn:schemas-microsoft-com:xml-msdata" xmlns:oth="urn:other"`
	both := !onRoot && pre != "" && rng.Intn(6) == 0
	root := []string{"DataSet", "Metadata"}[rng.Intn(2)]
	bad := ""
	if rng.Intn(25) == 0 {
		bad = []string{"none", "id", "noid", "ns"}[rng.Intn(4)]
	}
	var b strings.Builder
	nl := []string{"", "\n  "}[rng.Intn(2)]
	if rng.Intn(2) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="utf-8"?>` + nl)
	}
	b.WriteString("<" + root)
	if onRoot {
		b.WriteString(decl)
	}
	b.WriteString(">" + nl)
	schema := func() {
		id := ` id="` + root + `"`
		switch bad {
		case "none":
			return
		case "id":
			id = ` id="Other"`
		case "noid":
			id = ""
		case "ns":
			decl = strings.Replace(decl, "2001", "1999", 1)
			onRoot = false
		}
		b.WriteString("<" + q + "schema" + id)
		if !onRoot {
			b.WriteString(decl)
		}
		if both {
			b.WriteString(` xmlns="http://www.w3.org/2001/XMLSchema"`)
		}
		b.WriteString(msd + ">" + nl)
		fmt.Fprintf(&b, `<%selement name="%s"><%scomplexType><%schoice minOccurs="0" maxOccurs="unbounded">`, q, root, q, q)
		for _, t := range tabs {
			fmt.Fprintf(&b, `<%selement name="%s"><%scomplexType><%ssequence>`, q, t.Name, q, q)
			for _, f := range t.Fields {
				fmt.Fprintf(&b, `<%selement name="%s" type="%s%s"`, q, f.Name, q, f.Xsd)
				switch f.Ext {
				case "guid":
					fmt.Fprintf(&b, ` %s:DataType="System.Guid%s"`, ms, []string{"", ", mscorlib"}[rng.Intn(2)])
				case "guidns":
					b.WriteString(` oth:DataType="System.Guid"`)
				case "other":
					fmt.Fprintf(&b, ` %s:DataType="System.Net.IPAddress"`, ms)
				}
				if f.Expr != "" {
					p := ms
					if !f.Ens {
						p = "oth"
					}
					fmt.Fprintf(&b, ` %s:Expression="%s"`, p, f.Expr)
				}
				b.WriteString(` minOccurs="0" />` + nl)
			}
			fmt.Fprintf(&b, `</%ssequence></%scomplexType></%selement>`, q, q, q)
		}
		fmt.Fprintf(&b, `</%schoice></%scomplexType></%selement></%sschema>`, q, q, q, q)
		b.WriteString(nl)
	}
	late := rng.Intn(5) == 0
	if !late {
		schema()
	}
	recs := []m{}
	for k := rng.Intn(7); k > 0; k-- {
		t := dtable{Name: "Unknown"}
		if len(tabs) > 0 && rng.Intn(12) > 0 {
			t = tabs[rng.Intn(len(tabs))]
		}
		b.WriteString("<" + t.Name + ">" + nl)
		vals := []m{}
		perm := rng.Perm(len(t.Fields))
		for _, j := range perm {
			f := t.Fields[j]
			if rng.Intn(4) == 0 {
				continue
			}
			lex := lexOf(f)
			name := f.Name
			if rng.Intn(8) == 0 {
				name = mix(name)
			}
			b.WriteString("<" + name + ">" + xmlEsc(lex) + "</" + name + ">" + nl)
			vals = append(vals, m{"name": codes(name), "lex": codes(lex)})
		}
		if rng.Intn(5) == 0 {
			b.WriteString("<Extra>1</Extra>")
			vals = append(vals, m{"name": codes("Extra"), "lex": codes("1")})
		}
		b.WriteString("</" + t.Name + ">" + nl)
		recs = append(recs, m{"table": codes(t.Name), "vals": vals})
	}
	if late {
		schema()
	}
	b.WriteString("</" + root + ">")
	dt := []m{}
	look := []string{"Unknown", ""}
	for _, t := range tabs {
		fs := []m{}
		for _, f := range t.Fields {
			e := f.Expr
			if !f.Ens {
				e = ""
			}
			fs = append(fs, m{"name": codes(f.Name), "xsd": f.Xsd, "ext": f.Ext == "guid", "expr": codes(e)})
		}
		dt = append(dt, m{"name": codes(t.Name), "fields": fs})
		look = append(look, mix(t.Name))
	}
	c := m{"k": "load", "decl": dt, "recs": recs, "bad": bad, "panic": "", "err": false, "xml": b.String()}
	func() {
		defer func() {
			if p := recover(); p != nil {
				c["panic"] = fmt.Sprint(p)
			}
		}()
		ds := data.NewDataSet()
		if rng.Intn(3) == 0 {
			ds = data.FromXml([]byte(b.String()))
			c["err"] = bad != ""
		} else {
			c["err"] = ds.ParseXml([]byte(b.String())) != nil
		}
		c["out"] = dump(ds, look)
	}()
	if c["panic"] != "" {
		c["out"] = m{}
	}
	emit(c)
}

// goVal is a Go value of the given type.
func goVal(t string) interface{} {
	switch t {
	case "String":
		return dsTexts[rng.Intn(len(dsTexts))]
	case "Boolean":
		return rng.Intn(2) == 0
	case "DateTime":
		return time.Date(1+rng.Intn(9998), time.Month(1+rng.Intn(12)), 1+rng.Intn(28), rng.Intn(24), rng.Intn(60), rng.Intn(60), rng.Intn(1000)*1000000, time.UTC)
	case "Single":
		return float32(someFloat())
	case "Double":
		return someFloat()
	case "Decimal":
		return decimal.New(rng.Int63n(1000000)-500000, int32(rng.Intn(9)-4))
	case "Guid":
		var g guid.Guid
		rng.Read(g[:])
		return g
	case "Int8":
		return int8(rng.Uint64())
	case "Int16":
		return int16(rng.Uint64())
	case "Int32":
		return int32(rng.Uint64())
	case "Int64":
		return int64(rng.Uint64())
	case "UInt8":
		return uint8(rng.Uint64())
	case "UInt16":
		return uint16(rng.Uint64())
	case "UInt32":
		return uint32(rng.Uint64())
	}
	return rng.Uint64()
}

func typeOf(name string) data.DataTypeEnum {
	for i, t := range typeNames {
		if t == name {
			return data.DataTypeEnum(i)
		}
	}
	panic(name)
}

// progCase builds and changes a data set through its operations.
func progCase() {
	ds := data.NewDataSet()
	ops := []m{}
	names := []string{"Alpha", "ALPHA", "beta", "Beta", "gamma"}
	cols := []string{"a", "A", "b", "c", "Calc"}
	c := m{"k": "prog", "panic": "", "out": m{}}
	func() {
		defer func() {
			if p := recover(); p != nil {
				c["panic"] = fmt.Sprint(p)
			}
		}()
		for k := 2 + rng.Intn(24); k > 0; k-- {
			name := names[rng.Intn(len(names))]
			t := ds.Table(name)
			switch op := rng.Intn(12); {
			case t == nil && op < 11:
				nt := ds.CreateTable(name)
				ds.AddTable(nt)
				ops = append(ops, m{"op": "table", "name": codes(name)})
			case op == 0:
				nt := ds.CreateTable(name)
				ds.AddTable(nt)
				ops = append(ops, m{"op": "table", "name": codes(name)})
			case op == 1 || t == nil:
				ok := ds.RemoveTable(name)
				ops = append(ops, m{"op": "drop", "name": codes(name), "ok": ok})
			case op < 6 && t.RowCount() == 0:
				cn := cols[rng.Intn(len(cols))]
				if t.ColumnByName(cn) != nil {
					continue
				}
				ty, ex := typeNames[rng.Intn(len(typeNames))], ""
				if cn == "Calc" {
					if t.ColumnCount() == 0 {
						continue
					}
					s := t.Column(rng.Intn(t.ColumnCount()))
					if s.Type() == data.DataType.UInt64 {
						continue
					}
					ty, ex = s.Type().String(), s.Name()
					nc := t.CreateColumn(cn, s.Type(), ex)
					t.AddColumn(nc)
				} else {
					nc := t.CreateColumn(cn, typeOf(ty), "")
					if rng.Intn(3) == 0 {
						nc = t.CloneColumn(nc)
					}
					t.AddColumn(nc)
				}
				ops = append(ops, m{"op": "column", "name": codes(name), "col": codes(cn), "type": ty, "expr": codes(ex)})
			case op < 8:
				t.AddRow(t.CreateRow())
				ops = append(ops, m{"op": "row", "name": codes(name)})
			case op == 8 && t.RowCount() > 0:
				r := rng.Intn(t.RowCount())
				t.AddRow(t.CloneRow(t.Row(r)))
				ops = append(ops, m{"op": "clone", "name": codes(name), "r": r + 1})
			case op == 11 && t.RowCount() > 0 && rng.Intn(4) == 0:
				t.InitRows(rng.Intn(3))
				ops = append(ops, m{"op": "clear", "name": codes(name)})
			case t.RowCount() > 0:
				r := rng.Intn(t.RowCount())
				j := rng.Intn(t.ColumnCount()+2) - 1
				var v interface{}
				if col := t.Column(j); col != nil && rng.Intn(5) > 0 {
					v = goVal(col.Type().String())
				}
				var err error
				if col := t.Column(j); col != nil && rng.Intn(2) == 0 {
					err = t.Row(r).SetValueByName(mix(col.Name()), v)
				} else {
					err = t.Row(r).SetValue(j, v)
				}
				ops = append(ops, m{"op": "set", "name": codes(name), "r": r + 1, "c": j + 1, "v": val(v), "ok": err == nil})
			}
		}
		c["out"] = dump(ds, names)
	}()
	c["ops"] = ops
	emit(c)
}

func init() {
	drvs["C19"] = func() {
		for i := 0; i < *n; i++ {
			if rng.Intn(3) == 0 {
				progCase()
			} else {
				loadCase()
			}
		}
	}
	_ = json.Marshal
}
