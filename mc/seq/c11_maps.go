package seq

import (
	"fmt"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
	"verif/vmap"
)

// entPool has entries which tie in references, contexts or ids.
var entPool = []ref.Ent{
	ref.Sing("", "a", "A", "f.go:10"),
	ref.Sing("c", "a", "CA", "f.go:10"),
	ref.Sing("d", "a", "DA", "f.go:9", "a.go:1"),
	ref.Sing("", "b", "B"),
	ref.Sing("c", "b", "CB"),
	ref.Plur("", "p", "ps", "P0", "P1", "P2"),
	ref.Plur("d", "p", "ps", "DP0", "DP1"),
}

var mapHeads = [][]string{
	nil,
	{"Language: de", "Plural-Forms: nplurals=3; plural=(n == 1 ? 0 : n == 2 ? 2 : 1);"},
	{"X-B: 1", "X-A: 2", "x-a: 3"},
	{"MIME-Version: 1.0", "Zz: z", "Language: de", "X-A: 1"},
}

func tiered(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// mapOrders exports every subset of the pool under all combinations of map iteration orders.
func mapOrders(name string, max int64) eng.Suite {
	r := []int{len(mapHeads), 1 << len(entPool)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("every subset of %d entries x %d header blocks, exported under every combination of the iteration orders of every map (at most %d combinations, then one map at a time)", len(entPool), len(mapHeads), max),
		Run: func(t *eng.T, i int64) {
			if !vmap.Instrumented {
				panic("built without control of map iteration")
			}
			d := eng.Digits(i, r...)
			doc := &ref.Doc{Header: mapHeads[d[0]]}
			for k, e := range entPool {
				if d[1]&(1<<k) != 0 {
					doc.Ents = append(doc.Ents, e)
				}
			}
			vmap.SetMode(vmap.Sorted)
			defer vmap.SetMode(vmap.Native)
			h, c := New("po"), ref.NewCat()
			h.Load(doc)
			c.Load(doc)
			when := fmt.Sprintf("headers %d, entries %07b", d[0], d[1])
			base := checkFix(t, when, h)
			one := func() bool {
				got := string(h.Text())
				t.Execs++
				if got != base {
					t.Failf("map-order", "%s: the text depends on the iteration order of a map:\n%s", when, Diff(got, base))
				}
				return true
			}
			if runs, all := vmap.Each(max, one); !all {
				t.Note("exports with more combinations of orders than are taken", 1)
				vmap.Limited(max, one)
			} else if runs > 1 {
				t.Nontriv()
			}
			// reading the text and exporting again under other orders
			two := func() bool {
				p := gotext.NewPo()
				p.Parse([]byte(base))
				b, err := p.MarshalText()
				t.Execs++
				if err != nil || string(b) != base {
					t.Failf("map-order", "%s: the text of the text read back depends on the iteration order of a map:\n%s", when, Diff(string(b), base))
				}
				return true
			}
			vmap.Limited(max, two)
			t.State(base)
		}}
}
