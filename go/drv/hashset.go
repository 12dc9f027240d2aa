package main

import (
	"fmt"
	"sort"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/hashset"
)

type hsStep struct {
	Op    string `json:"op"`
	T     []int  `json:"t"`
	X     int    `json:"x"`
	Ret   int    `json:"ret"`
	After []int  `json:"after"`
	Keep  bool   `json:"keep"`
	Set   bool   `json:"set"`
	Self  bool   `json:"self"`
}

type hsCase struct {
	Kind  string   `json:"kind"`
	Steps []hsStep `json:"steps"`
}

var hsMut = []string{"ExceptWith", "SymmetricExceptWith", "IntersectWith", "UnionWith"}
var hsQry = []string{"SetEquals", "Overlaps", "IsSubsetOf", "IsProperSubsetOf", "IsSupersetOf", "IsProperSupersetOf"}
var hsSim = []string{"Add", "Remove", "Contains", "RemoveWhere", "IsEmpty", "Clear", "Keys", "Len"}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// runHS executes a program on a set of T, where enc maps small integers to elements.
func runHS[T comparable](kind string, prog []hsStep, enc func(int) T, dec map[T]int) hsCase {
	var hs hashset.HashSet[T]
	hs = hashset.NewHashSet[T](nil)
	for i := range prog {
		st := &prog[i]
		if st.Self { // the set is its own operand
			st.T = []int{}
			for k := range hs {
				st.T = append(st.T, dec[k])
			}
			sort.Ints(st.T)
		}
		items := make([]T, len(st.T))
		for k, v := range st.T {
			items[k] = enc(v)
		}
		oset := make(hashset.HashSet[T])
		for _, v := range items {
			oset[v] = struct{}{}
		}
		if st.Self {
			oset = hs
		}
		x := enc(st.X)
		switch st.Op {
		case "ExceptWith":
			if st.Set {
				hs.ExceptWithSet(oset)
			} else {
				hs.ExceptWith(items)
			}
		case "SymmetricExceptWith":
			if st.Set {
				hs.SymmetricExceptWithSet(oset)
			} else {
				hs.SymmetricExceptWith(items)
			}
		case "IntersectWith":
			if st.Set {
				hs.IntersectWithSet(oset)
			} else {
				hs.IntersectWith(items)
			}
		case "UnionWith":
			if st.Set {
				hs.UnionWithSet(oset)
			} else {
				hs.UnionWith(items)
			}
		case "SetEquals":
			if st.Set {
				st.Ret = b2i(hs.SetEqualsSet(oset))
			} else {
				st.Ret = b2i(hs.SetEquals(items))
			}
		case "Overlaps":
			if st.Set {
				st.Ret = b2i(hs.OverlapsSet(oset))
			} else {
				st.Ret = b2i(hs.Overlaps(items))
			}
		case "IsSubsetOf":
			if st.Set {
				st.Ret = b2i(hs.IsSubsetOfSet(oset))
			} else {
				st.Ret = b2i(hs.IsSubsetOf(items))
			}
		case "IsProperSubsetOf":
			if st.Set {
				st.Ret = b2i(hs.IsProperSubsetOfSet(oset))
			} else {
				st.Ret = b2i(hs.IsProperSubsetOf(items))
			}
		case "IsSupersetOf":
			if st.Set {
				st.Ret = b2i(hs.IsSupersetOfSet(oset))
			} else {
				st.Ret = b2i(hs.IsSupersetOf(items))
			}
		case "IsProperSupersetOf":
			if st.Set {
				st.Ret = b2i(hs.IsProperSupersetOfSet(oset))
			} else {
				st.Ret = b2i(hs.IsProperSupersetOf(items))
			}
		case "Add":
			st.Ret = b2i(hs.Add(x))
		case "Remove":
			st.Ret = b2i(hs.Remove(x))
		case "Contains":
			st.Ret = b2i(hs.Contains(x))
		case "RemoveWhere":
			st.Ret = hs.RemoveWhere(func(v T) bool { _, ok := oset[v]; return ok })
		case "IsEmpty":
			st.Ret = b2i(hs.IsEmpty())
		case "Clear":
			hs.Clear()
		case "Keys":
		case "Len":
			st.Ret = len(hs)
		case "New":
			hs = hashset.NewHashSet(items)
		}
		st.After = []int{}
		for _, v := range hs.Keys() {
			d, ok := dec[v]
			if !ok {
				d = -1
			}
			st.After = append(st.After, d)
		}
		sort.Ints(st.After)
		// the operand is unchanged
		st.Keep = len(items) == len(st.T)
		for k, v := range st.T {
			if items[k] != enc(v) {
				st.Keep = false
			}
			if _, ok := oset[enc(v)]; !ok && !st.Self {
				st.Keep = false
			}
		}
		distinct := map[int]bool{}
		for _, v := range st.T {
			distinct[v] = true
		}
		if len(oset) != len(distinct) && !st.Self {
			st.Keep = false
		}
	}
	return hsCase{kind, prog}
}

func hsRun(kind string, prog []hsStep) {
	// every execution gets its own copy of the program
	p := make([]hsStep, len(prog))
	copy(p, prog)
	for i := range p {
		if p[i].T == nil {
			p[i].T = []int{}
		}
	}
	switch kind {
	case "string":
		dec := map[string]int{}
		enc := func(i int) string { return fmt.Sprintf("k%d", i) }
		for i := 0; i < 64; i++ {
			dec[enc(i)] = i
		}
		emit(runHS(kind, p, enc, dec))
	case "guid":
		dec := map[guid.Guid]int{}
		enc := func(i int) guid.Guid { return guid.Guid{0: byte(i), 15: byte(i * 7)} }
		for i := 0; i < 64; i++ {
			dec[enc(i)] = i
		}
		emit(runHS(kind, p, enc, dec))
	default:
		dec := map[int]int{}
		enc := func(i int) int { return i }
		for i := 0; i < 64; i++ {
			dec[i] = i
		}
		emit(runHS("int", p, enc, dec))
	}
}

func init() {
	drvs["C14"] = func() {
		// exhaustive part: every set over {1,2,3}, every slice up to length 4, every operation
		var slices [][]int
		var rec func(cur []int, left int)
		rec = func(cur []int, left int) {
			slices = append(slices, append([]int{}, cur...))
			if left == 0 {
				return
			}
			for v := 1; v <= 3; v++ {
				rec(append(cur, v), left-1)
			}
		}
		rec(nil, 4)
		for m := 0; m < 8; m++ {
			var start []int
			for v := 0; v < 3; v++ {
				if m>>v&1 == 1 {
					start = append(start, v+1)
				}
			}
			for _, sl := range slices {
				for _, set := range []bool{false, true} {
					var prog []hsStep
					for _, op := range append(append([]string{}, hsQry...), hsMut...) {
						prog = append(prog, hsStep{Op: "New", T: start}, hsStep{Op: op, T: sl, Set: set})
					}
					prog = append(prog, hsStep{Op: "New", T: start}, hsStep{Op: "RemoveWhere", T: sl}, hsStep{Op: "New", T: sl})
					for x := 1; x <= 3; x++ {
						prog = append(prog, hsStep{Op: "New", T: start}, hsStep{Op: "Add", X: x}, hsStep{Op: "New", T: start}, hsStep{Op: "Remove", X: x}, hsStep{Op: "Contains", X: x})
					}
					prog = append(prog, hsStep{Op: "IsEmpty"}, hsStep{Op: "Keys"}, hsStep{Op: "Len"}, hsStep{Op: "Clear"}, hsStep{Op: "IsEmpty"})
					hsRun("int", prog)
				}
			}
		}
		// random programs over larger universes and other element types
		for i := 0; i < *n; i++ {
			kind := []string{"int", "string", "guid"}[rng.Intn(3)]
			u := 1 + rng.Intn(12)
			var prog []hsStep
			for k := 0; k < 12+rng.Intn(20); k++ {
				var st hsStep
				switch rng.Intn(4) {
				case 0:
					st.Op = hsMut[rng.Intn(len(hsMut))]
				case 1, 2:
					st.Op = hsQry[rng.Intn(len(hsQry))]
				default:
					st.Op = hsSim[rng.Intn(len(hsSim))]
					if st.Op == "Clear" && rng.Intn(3) > 0 {
						st.Op = "New"
					}
				}
				st.X = rng.Intn(u)
				st.Set = rng.Intn(2) == 0
				st.Self = st.Set && st.Op != "New" && rng.Intn(6) == 0
				for m := rng.Intn(2 * u); m > 0; m-- {
					st.T = append(st.T, rng.Intn(u))
				}
				prog = append(prog, st)
			}
			hsRun(kind, prog)
		}
	}
}
