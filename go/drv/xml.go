package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/sttp/goapi/sttp/xml"
)

type xattr struct {
	Pre   []int `json:"pre"`
	Name  []int `json:"name"`
	Value []int `json:"value"`
}

// piece is a piece of a document (see Xml.tla).
type piece struct {
	K     string  `json:"k"`
	Pre   []int   `json:"pre"`
	Name  []int   `json:"name"`
	Attrs []xattr `json:"attrs"`
	Self  bool    `json:"self"`
	T     []int   `json:"t"`
	C     int     `json:"c"`
}

func str(c []int) string {
	b := make([]byte, len(c))
	for i := range c {
		b[i] = byte(c[i])
	}
	return string(b)
}

func nn(c []int) []int {
	if c == nil {
		return []int{}
	}
	return c
}

func qname(pre, name []int) string {
	if len(pre) == 0 {
		return str(name)
	}
	return str(pre) + ":" + str(name)
}

func esc(c []int, attr bool) string {
	s := ""
	for _, x := range c {
		switch {
		case x == '<':
			s += "&lt;"
		case x == '&':
			s += "&amp;"
		case x == '>' && !attr:
			s += "&gt;"
		case x == '"' && attr:
			s += "&quot;"
		default:
			s += string([]byte{byte(x)})
		}
	}
	return s
}

func (p *piece) write() string {
	switch p.K {
	case "open":
		s := "<" + qname(p.Pre, p.Name)
		for _, a := range p.Attrs {
			s += " " + qname(a.Pre, a.Name) + `="` + esc(a.Value, true) + `"`
		}
		if p.Self {
			return s + "/>"
		}
		return s + ">"
	case "close":
		return "</" + qname(p.Pre, p.Name) + ">"
	case "text":
		return esc(p.T, false)
	case "cdata":
		return "<![CDATA[" + str(p.T) + "]]>"
	case "ref":
		return "&#" + strconv.Itoa(p.C) + ";"
	case "comment":
		return "<!--" + str(p.T) + "-->"
	case "pi":
		return "<?" + str(p.T) + "?>"
	}
	panic(p.K)
}

type xpred struct {
	K     string `json:"k"`
	Name  []int  `json:"name"`
	Has   bool   `json:"has"`
	Value []int  `json:"value"`
	Q     int    `json:"q"`
	Sp    []int  `json:"sp"`
}

type xstep struct {
	Name []int `json:"name"`
	Pred xpred `json:"pred"`
}

func (s xstep) write() string {
	r := str(s.Name)
	if p := s.Pred; p.K != "none" {
		r += "["
		if p.K == "attr" {
			r += "@"
		}
		r += str(p.Name)
		if p.Has {
			q := ""
			if p.Q != 0 {
				q = string(rune(p.Q))
			}
			r += str(p.Sp) + "=" + str(p.Sp) + q + str(p.Value) + q
		}
		r += "]"
	}
	return r
}

func pickName() []int {
	return codes([]string{"a", "b", "A", "Node", "node", "a", "aa"}[rng.Intn(7)])
}

func someText() []int {
	const plain = "abc xyz012"
	const odd = "<>&\"'=/[]@*\n\t;#{}|\\%$-_.:,"
	t := []int{}
	for k := rng.Intn(6); k > 0; k-- {
		switch rng.Intn(8) {
		case 0, 1:
			t = append(t, int(odd[rng.Intn(len(odd))]))
		case 2:
			t = append(t, ints([]byte(string([]rune{'é', 'ß', '€', 0x4e2d}[rng.Intn(4)])))...)
		default:
			t = append(t, int(plain[rng.Intn(len(plain))]))
		}
	}
	return t
}

func someAttrs(root bool) []xattr {
	r := []xattr{}
	if root {
		r = append(r, xattr{codes("xmlns"), codes("x"), codes("urn:x")})
	}
	names := []string{"a", "b", "id", "Name", "A", "name"}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for k := rng.Intn(4); k > 0; k-- {
		v := someText()
		if rng.Intn(2) == 0 {
			v = codes([]string{"1", "2", "", "v"}[rng.Intn(4)])
		}
		for i := range v { // attribute values are written on one line
			if v[i] == '\n' || v[i] == '\t' {
				v[i] = ' '
			}
		}
		pre := []int{}
		if rng.Intn(8) == 0 {
			pre = codes("x")
		}
		r = append(r, xattr{pre, codes(names[k]), v})
	}
	return r
}

func someDoc(big int) []piece {
	var ps []piece
	var stack []piece
	if rng.Intn(4) == 0 {
		ps = append(ps, piece{K: "pi", T: codes(`xml version="1.0"`)})
	}
	if rng.Intn(6) == 0 {
		ps = append(ps, piece{K: "comment", T: codes("top")})
	}
	push := func(self bool) {
		p := piece{K: "open", Name: pickName(), Attrs: someAttrs(len(stack) == 0), Self: self}
		if rng.Intn(6) == 0 {
			p.Pre = codes("x")
		}
		ps = append(ps, p)
		if !self {
			stack = append(stack, p)
		}
	}
	push(false)
	for left := 2 + rng.Intn(big); left > 0; left-- {
		switch rng.Intn(9) {
		case 0, 1:
			push(false)
		case 2:
			push(true)
		case 3, 4:
			ps = append(ps, piece{K: "text", T: someText()})
		case 5:
			t := someText()
			ps = append(ps, piece{K: "cdata", T: t})
		case 6:
			ps = append(ps, piece{K: "ref", C: []int{60, 38, 65, 34, 233, 8364, 10}[rng.Intn(7)]})
		case 7:
			if rng.Intn(2) == 0 {
				ps = append(ps, piece{K: "comment", T: codes("<a>&")})
			} else {
				ps = append(ps, piece{K: "pi", T: codes("go on")})
			}
		case 8:
			if len(stack) > 1 {
				ps = append(ps, piece{K: "close", Pre: stack[len(stack)-1].Pre, Name: stack[len(stack)-1].Name})
				stack = stack[:len(stack)-1]
			}
		}
	}
	for len(stack) > 0 {
		ps = append(ps, piece{K: "close", Pre: stack[len(stack)-1].Pre, Name: stack[len(stack)-1].Name})
		stack = stack[:len(stack)-1]
	}
	return ps
}

// somePath makes a path, taking values from the document's nodes.
func somePath(nodes []*xml.XmlNode) []xstep {
	r := []xstep{}
	for k := 1 + rng.Intn(3); k > 0; k-- {
		s := xstep{Name: pickName(), Pred: xpred{K: "none"}}
		if rng.Intn(2) == 0 {
			s.Name = codes("*")
		}
		if rng.Intn(2) == 0 {
			s.Pred = xpred{K: []string{"attr", "child"}[rng.Intn(2)], Name: pickName(), Q: '\'', Has: rng.Intn(3) > 0}
			if s.Pred.K == "attr" {
				s.Pred.Name = codes([]string{"a", "b", "id", "Name", "A", "name"}[rng.Intn(6)])
			}
			if rng.Intn(4) == 0 {
				s.Pred.Name = codes("*")
			}
			x := nodes[rng.Intn(len(nodes))]
			v := x.Text
			if s.Pred.K == "attr" {
				var names []string
				for a := range x.Attributes {
					names = append(names, a)
				}
				sort.Strings(names)
				if len(names) > 0 {
					a := names[rng.Intn(len(names))]
					v = x.Attributes[a]
					if rng.Intn(2) == 0 {
						s.Pred.Name = codes(a)
					}
				}
			} else if rng.Intn(2) == 0 {
				s.Pred.Name = codes(x.Name)
				if x.HasChildNodes() {
					v = x.Value()
				}
			}
			if rng.Intn(6) == 0 { // almost the same
				switch rng.Intn(4) {
				case 0:
					v = strings.ToUpper(v)
				case 1:
					v += string("a1="[rng.Intn(3)])
				case 2:
					v = strings.TrimSpace(v)
				default:
					if len(v) > 1 && v[len(v)-1] < 128 {
						v = v[:len(v)-1]
					}
				}
			}
			s.Pred.Value = codes(v)
			single, double, odd := false, false, len(v) == 0 || v[0] == ' ' || v[len(v)-1] == ' '
			for _, c := range v {
				single = single || c == '\''
				double = double || c == '"'
				odd = odd || c == '[' || c == ']' || c == '/' || c == '\n' || c == '\t'
			}
			if single {
				s.Pred.Q = '"'
			}
			if single && double {
				s.Pred.Has = false
			}
			if !single && !double && !odd && rng.Intn(4) == 0 {
				s.Pred.Q = 0
			}
			if !double && rng.Intn(5) == 0 && s.Pred.Q != 0 {
				s.Pred.Q = '"'
			}
			if rng.Intn(4) == 0 {
				s.Pred.Sp = codes(" ")
			}
		}
		s.Pred.Name, s.Pred.Value, s.Pred.Sp = nn(s.Pred.Name), nn(s.Pred.Value), nn(s.Pred.Sp)
		r = append(r, s)
	}
	return r
}

func wildPath() string {
	const c = "//[]@=''\"*ab NodeId12."
	b := []byte{}
	for k := rng.Intn(12); k > 0; k-- {
		b = append(b, c[rng.Intn(len(c))])
	}
	return string(b)
}

func xmlCase(xd *xml.XmlDocument, ps []piece, paths int) {
	for i := range ps {
		p := &ps[i]
		p.Pre, p.Name, p.T = nn(p.Pre), nn(p.Name), nn(p.T)
		if p.Attrs == nil {
			p.Attrs = []xattr{}
		}
		for k := range p.Attrs {
			p.Attrs[k].Pre, p.Attrs[k].Name, p.Attrs[k].Value = nn(p.Attrs[k].Pre), nn(p.Attrs[k].Name), nn(p.Attrs[k].Value)
		}
	}
	raw := ""
	for i := range ps {
		raw += ps[i].write()
	}
	c := map[string]interface{}{"doc": ps, "raw": codes(raw), "err": "", "nodes": []int{}, "max": 0, "sel": []int{}}
	defer emit(c)
	load := func() error { return xd.LoadXml([]byte(raw)) }
	if *out != "" && rng.Intn(20) == 0 {
		file := *out + ".xml"
		load = func() error {
			defer os.Remove(file)
			if err := os.WriteFile(file, []byte(raw), 0o600); err != nil {
				panic(err)
			}
			return xd.LoadXmlFromFile(file)
		}
	}
	if err := load(); err != nil {
		c["err"] = err.Error()
		return
	}
	var all []*xml.XmlNode
	at := map[*xml.XmlNode]int{}
	var walk func(x *xml.XmlNode)
	walk = func(x *xml.XmlNode) {
		all = append(all, x)
		at[x] = len(all)
		for i := range x.ChildNodes {
			walk(&x.ChildNodes[i])
		}
	}
	walk(&xd.Root)
	list := func(q []*xml.XmlNode) []int {
		r := []int{}
		for _, x := range q {
			r = append(r, at[x])
		}
		return r
	}
	nodes := []interface{}{}
	for _, x := range all {
		as := []map[string]interface{}{}
		for k, v := range x.Attributes {
			as = append(as, map[string]interface{}{"name": codes(k), "value": codes(v), "ns": codes(x.AttributeNamespaces[k])})
		}
		items := []map[string]interface{}{}
		for k, v := range x.Items {
			items = append(items, map[string]interface{}{"name": codes(k), "at": list(v), "one": at[x.Item[k]]})
		}
		kids := []int{}
		for i := range x.ChildNodes {
			kids = append(kids, at[&x.ChildNodes[i]])
		}
		nodes = append(nodes, map[string]interface{}{"name": codes(x.Name), "ns": codes(x.Namespace), "text": codes(x.Text), "attrs": as, "parent": at[x.Parent],
			"level": x.Level, "kids": kids, "gkids": list(x.GetChildNodes()), "first": at[x.FirstChild()], "last": at[x.LastChild()], "has": x.HasChildNodes(),
			"next": at[x.Next], "prev": at[x.Previous], "items": items, "path": codes(x.Path()), "inner": codes(x.Value()), "owner": x.Owner == xd})
	}
	c["nodes"], c["max"] = nodes, xd.MaxDepth()
	sel := []interface{}{}
	for k := 0; k < paths; k++ {
		s := map[string]interface{}{"steps": []int{}, "from": []int{1}, "out": []int{}, "panic": "", "pre": []int{}}
		var path, pre string
		if rng.Intn(8) == 0 {
			path = wildPath()
		} else {
			st := somePath(all)
			s["steps"] = st
			for i := range st {
				if i > 0 {
					path += "/"
				}
				path += st[i].write()
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					s["panic"] = fmt.Sprint(r)
				}
			}()
			var out []*xml.XmlNode
			switch rng.Intn(4) {
			case 0:
				x := rng.Intn(len(all))
				s["from"] = []int{x + 1}
				out = all[x].SelectNodes(path)
			case 1:
				pre = "//" + xd.Root.Name + "/"
				out = xd.SelectNodes(pre + path)
			case 2:
				q := xd.SelectNodes("*")
				if len(q) > 0 {
					s["from"] = list(q)
					out = xml.SelectNodes(q, path)
					break
				}
				out = xd.SelectNodes(path)
			default:
				out = xd.SelectNodes(path)
			}
			s["out"] = list(out)
		}()
		s["pre"] = codes(pre)
		s["path"] = codes(pre + path)
		sel = append(sel, s)
	}
	c["sel"] = sel
}

func init() {
	drvs["C20"] = func() {
		if *in != "" {
			f, err := os.Open(*in)
			if err != nil {
				panic(err)
			}
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				var ps []piece
				if err := json.Unmarshal(sc.Bytes(), &ps); err != nil {
					panic(err)
				}
				xmlCase(&xml.XmlDocument{}, ps, 6)
			}
			return
		}
		var xd *xml.XmlDocument
		for i := 0; i < *n; i++ {
			if xd == nil || rng.Intn(4) > 0 {
				xd = &xml.XmlDocument{}
			}
			xmlCase(xd, someDoc([]int{8, 20, 50}[rng.Intn(3)]), 6)
		}
	}
}
