package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// stdGen draws a history for a store of the given kind.
func stdGen(ordered bool, kinds []int) func(t *rapid.T, profile string) *Case {
	return func(t *rapid.T, profile string) *Case {
		c := &Case{Kind: rapid.SampledFrom(kinds).Draw(t, "store")}
		drawBallast(t, c)
		drawHole(t, c, profile)
		if g := scenario(t, profile, ordered); g != nil {
			c.Ops = g
			return c
		}
		c.Ops = drawOps(t, profileCfg(profile, ordered), nil)
		return c
	}
}

// treeProfile tells the profiles that make sense for B+ trees only.
func treeProfile(profile string) bool {
	return profile == "tall" || profile == "waves" || profile == "aim" || profile == "lofty"
}

// scenario draws the heavy, directed histories: tall trees and big tables.
func scenario(t *rapid.T, profile string, ordered bool) []Op {
	val := func() int { return rapid.SampledFrom([]int{0, 1, 4, 9, 13, 16}).Draw(t, "value") }
	ord := func() int { return rapid.IntRange(0, 5).Draw(t, "order") }
	switch profile {
	case "tall": // long keys: three or four levels
		fam := rapid.SampledFrom([]int{famLong, famWide, famMid, famEdge}).Draw(t, "family")
		n := rapid.IntRange(3000, 9000).Draw(t, "n")
		ops := []Op{{K: "fill", Fam: fam, I: rapid.IntRange(0, 9).Draw(t, "start"), N: n, M: ord(), V: val(), W: val()}}
		if rapid.IntRange(0, 2).Draw(t, "fourlevels") == 0 {
			// four levels take long keys and values
			n = rapid.IntRange(13000, 25000).Draw(t, "n4")
			fam = rapid.SampledFrom([]int{famLong, famWide, famEdge}).Draw(t, "family4")
			ops[0].N, ops[0].Fam, ops[0].V, ops[0].W = n, fam, 12, 0
		}
		k := rapid.IntRange(1, 6).Draw(t, "steps")
		for i := 0; i < k; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "step") {
			case 0:
				ops = append(ops, Op{K: "wipe", X: rapid.IntRange(0, 1000).Draw(t, "from"), Y: rapid.IntRange(0, 1000).Draw(t, "to"), M: ord(), I: rapid.IntRange(0, 3).Draw(t, "thin"), R: true})
			case 1:
				ops = append(ops, Op{K: "rewrite", X: rapid.IntRange(0, 1000).Draw(t, "from"), Y: rapid.IntRange(0, 1000).Draw(t, "to"), M: ord(), V: val(), W: val()})
			case 2:
				ops = append(ops, Op{K: "fill", Fam: fam, I: rapid.IntRange(0, 9000).Draw(t, "start"), N: rapid.IntRange(1, 3000).Draw(t, "n"), M: ord(), V: val()})
			case 3:
				ops = append(ops, Op{K: "fill", Fam: rapid.SampledFrom([]int{famDec, famTiny, famLong, famEdge}).Draw(t, "family2"), I: rapid.IntRange(0, 900).Draw(t, "start"), N: rapid.IntRange(1, 1500).Draw(t, "n"), M: ord(), V: val()})
			}
		}
		ops = append(ops, Op{K: "wipe", X: 0, Y: 1000, M: ord(), I: 0})
		if rapid.Bool().Draw(t, "keepsome") {
			ops[len(ops)-1].N = rapid.IntRange(1, n).Draw(t, "wipen")
		}
		return ops
	case "waves": // records of all sizes in random order, about the size where a tree gains and loses its third level
		fams := []int{famJumble, famJumble, famJumble, famRand, famEdge}
		var ops []Op
		for i, k := 0, rapid.IntRange(1, 8).Draw(t, "waves"); i < k; i++ {
			ops = append(ops, Op{K: "fill", Fam: rapid.SampledFrom(fams).Draw(t, "family"), I: rapid.IntRange(0, 20000).Draw(t, "start"), N: rapid.IntRange(200, 1400).Draw(t, "n"), M: ord(),
				V: rapid.SampledFrom([]int{0, 5, 11, 13, 16, 20}).Draw(t, "maxvalue"), W: -rapid.IntRange(1, 99).Draw(t, "sizes")})
			if rapid.IntRange(0, 3).Draw(t, "rewrite") == 0 {
				ops = append(ops, Op{K: "rewrite", X: rapid.IntRange(0, 1000).Draw(t, "from"), Y: rapid.IntRange(0, 1000).Draw(t, "to"), M: ord(), V: 16, W: -rapid.IntRange(1, 99).Draw(t, "sizes")})
			}
			o := Op{K: "wipe", X: 0, Y: 1000, M: 2, I: 3}
			if rapid.Bool().Draw(t, "stretch") {
				o = Op{K: "wipe", X: rapid.IntRange(0, 1000).Draw(t, "from"), Y: rapid.IntRange(0, 1000).Draw(t, "to"), M: ord(), I: rapid.IntRange(0, 3).Draw(t, "thin"), R: true}
			}
			ops = append(ops, o)
		}
		return ops
	case "aim": // pages brought to their limits, see aim.go
		fam := rapid.SampledFrom([]int{famJumble, famJumble, famSpread, famEdge, famWide, famLong, famRand, famMid, famHigh}).Draw(t, "family")
		vmax := rapid.SampledFrom([]int{0, 5, 11, 13}).Draw(t, "maxvalue")
		n := rapid.IntRange(300, 1500).Draw(t, "n")
		w := -rapid.IntRange(1, 99).Draw(t, "sizes")
		if rapid.IntRange(0, 5).Draw(t, "fourlevels") == 0 {
			fam = rapid.SampledFrom([]int{famSpread, famSpread, famLong, famWide, famEdge}).Draw(t, "family4")
			n, vmax, w = rapid.IntRange(13000, 25000).Draw(t, "n4"), 12, 0
		}
		ops := []Op{{K: "fill", Fam: fam, I: rapid.IntRange(0, 20000).Draw(t, "start"), N: n, M: ord(), V: vmax, W: w}}
		for i, k := 0, rapid.IntRange(1, 6).Draw(t, "rounds"); i < k; i++ {
			ops = append(ops, Op{K: "aim", I: rapid.IntRange(0, 1<<20).Draw(t, "salt"), N: rapid.IntRange(1, 60).Draw(t, "steps")})
			switch rapid.IntRange(0, 5).Draw(t, "between") {
			case 0:
				ops = append(ops, Op{K: "fill", Fam: rapid.SampledFrom([]int{famJumble, famEdge, famDec}).Draw(t, "family2"), I: rapid.IntRange(0, 20000).Draw(t, "start"), N: rapid.IntRange(1, 400).Draw(t, "n"), M: ord(), V: vmax, W: -rapid.IntRange(1, 99).Draw(t, "sizes")})
			case 1:
				ops = append(ops, Op{K: "wipe", X: rapid.IntRange(0, 1000).Draw(t, "from"), Y: rapid.IntRange(0, 1000).Draw(t, "to"), M: ord(), I: rapid.IntRange(0, 3).Draw(t, "thin"), R: true})
			case 2:
				ops = append(ops, Op{K: "reopen"})
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "emptied") == 0 {
			ops = append(ops, Op{K: "wipe", X: 0, Y: 1000, M: ord(), N: rapid.SampledFrom([]int{0, 0, 500}).Draw(t, "wipen")})
		}
		return ops
	case "giant": // tables of more than eight slot directories
		n := rapid.IntRange(54000, 62000).Draw(t, "n")
		fam := rapid.SampledFrom([]int{famDec, famHigh}).Draw(t, "family")
		ops := []Op{{K: "fill", Fam: fam, N: n, M: rapid.SampledFrom([]int{0, 2}).Draw(t, "order"), V: rapid.IntRange(0, 2).Draw(t, "value")}}
		ops = append(ops, Op{K: "wipe", X: 0, Y: rapid.IntRange(700, 990).Draw(t, "to"), M: ord()})
		ops = append(ops, Op{K: "fill", Fam: fam, I: rapid.IntRange(0, 50000).Draw(t, "start"), N: rapid.IntRange(100, 9000).Draw(t, "n2"), M: ord(), V: rapid.IntRange(0, 3).Draw(t, "value")})
		ops = append(ops, Op{K: "wipe", X: 0, Y: 1000, M: ord(), N: rapid.SampledFrom([]int{0, 100, 5000}).Draw(t, "wipen")})
		return ops
	case "vast": // a few keys and values of more than 16 MiB beside small ones
		small := rapid.SampledFrom([]int{famDec, famTiny, famEdge}).Draw(t, "family")
		ops := []Op{{K: "fill", Fam: small, N: rapid.IntRange(1, 30).Draw(t, "n"), V: val(), W: val()}}
		return append(ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
			o := Op{K: rapid.SampledFrom([]string{"set", "set", "set", "setx", "setnx", "clear", "test", "reopen"}).Draw(t, "kind")}
			if o.K == "reopen" {
				return o
			}
			o.Fam = rapid.SampledFrom([]int{small, small, famVast}).Draw(t, "family")
			o.I = rapid.IntRange(0, 5).Draw(t, "index")
			o.V = rapid.SampledFrom([]int{3, 20, val16M, val16M + 1, val16M + 2}).Draw(t, "value")
			o.R = rapid.Bool().Draw(t, "ret")
			return o
		}), 3, 8).Draw(t, "ops")...)
	case "2g": // one value of more than 2 GiB
		at := rapid.IntRange(0, 9).Draw(t, "index")
		// the keys 2i and 2i+1 share a slot of a table
		ops := []Op{{K: "fill", Fam: famDec, N: 10, V: 3}, {K: "set", Fam: famCollide, I: at, V: val2G}, {K: "reopen"},
			{K: "set", Fam: famCollide, I: at ^ 1, V: 20}, {K: "reopen"}}
		if rapid.Bool().Draw(t, "clear") {
			return append(ops, Op{K: "clear", Fam: famCollide, I: at})
		}
		return append(ops, Op{K: "set", Fam: famCollide, I: at, V: 3})
	case "many": // more pairs (and slots) than 16 bits can count
		fam := rapid.SampledFrom([]int{famDec, famHigh, famTiny}).Draw(t, "family")
		n := rapid.IntRange(65000, 72000).Draw(t, "n")
		if !ordered {
			n = rapid.SampledFrom([]int{107000, 150000, 215000}).Draw(t, "n2")
		}
		ops := []Op{{K: "fill", Fam: fam, N: n, M: rapid.SampledFrom([]int{0, 2}).Draw(t, "order"), V: rapid.IntRange(0, 2).Draw(t, "value")}}
		ops = append(ops, Op{K: "reopen"}, Op{K: "fill", Fam: fam, I: n - 100, N: rapid.IntRange(101, 400).Draw(t, "n3"), V: 3})
		if rapid.Bool().Draw(t, "wipe") {
			ops = append(ops, Op{K: "wipe", X: 0, Y: rapid.IntRange(10, 990).Draw(t, "to"), M: 2})
		}
		return ops
	case "lofty": // five levels
		fam := rapid.SampledFrom([]int{famSpread, famWide}).Draw(t, "family")
		n := rapid.IntRange(400000, 420000).Draw(t, "n")
		ops := []Op{{K: "fill", Fam: fam, N: n, M: 2, V: 12}}
		if rapid.Bool().Draw(t, "aimed") {
			ops = append(ops, Op{K: "aim", I: rapid.IntRange(0, 1<<20).Draw(t, "salt"), N: 20})
		}
		ops = append(ops, Op{K: "reopen"}, Op{K: "wipe", X: 0, Y: rapid.IntRange(300, 1000).Draw(t, "to"), M: rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "wipe order"), R: true})
		return append(ops, Op{K: "fill", Fam: fam, N: rapid.IntRange(1, 3000).Draw(t, "n2"), M: 2, V: 12})
	case "dirs": // up and down across one or a few directory boundaries
		n := rapid.IntRange(5000, 16000).Draw(t, "n")
		ops := []Op{{K: "fill", Fam: famDec, N: n, M: ord(), V: rapid.IntRange(0, 3).Draw(t, "value")}}
		for i, k := 0, rapid.IntRange(1, 5).Draw(t, "steps"); i < k; i++ {
			ops = append(ops, Op{K: "wipe", X: 0, Y: rapid.IntRange(100, 900).Draw(t, "to"), M: ord(), I: rapid.IntRange(0, 3).Draw(t, "thin")})
			ops = append(ops, Op{K: "fill", Fam: famDec, I: rapid.IntRange(0, 9000).Draw(t, "start"), N: rapid.IntRange(1, 8000).Draw(t, "n"), M: ord(), V: rapid.IntRange(0, 3).Draw(t, "value")})
		}
		return ops
	}
	return nil
}

// ballastOf tells which spaces a case takes first, and their addresses: 2^b
// bytes, or 6 GiB for b = 33.
func ballastOf(b int) (sizes []int, addrs []int64) {
	switch {
	case b >= 22 && b <= 32:
		return []int{1 << uint(b)}, []int64{0}
	case holeAtZero(b):
		return []int{1 << 20}, nil
	case b == 33:
		return []int{1 << 32, 1 << 31}, []int64{0, 1 << 32}
	}
	return nil, nil
}

// drawBallast makes one case in twelve start at file addresses of 2, 4 or
// 6 GiB (a sparse file whose first part is taken).
func drawBallast(t *rapid.T, c *Case) {
	if rapid.IntRange(0, 11).Draw(t, "ballast") == 11 {
		c.B = rapid.SampledFrom([]int{31, 32, 33}).Draw(t, "ballastsize")
	}
}

// holeAtZero tells the cases that begin in a file whose first MiB was taken
// and given back: the first thing too large for a pool of spaces, a value
// (20) or a key (21), then gets the file address 0.
func holeAtZero(b int) bool { return b == 20 || b == 21 }

func drawHole(t *rapid.T, c *Case, profile string) {
	if c.B == 0 && (profile == "small" || profile == "medium") && rapid.IntRange(0, 15).Draw(t, "hole") == 15 {
		c.B = rapid.IntRange(20, 21).Draw(t, "firstspace")
	}
}

// fillHole lets such a case begin with that large value or key.
func fillHole(c *Case) {
	if !holeAtZero(c.B) {
		return
	}
	o := Op{K: "set", Fam: famDec, I: 3, V: 45}
	if c.B == 21 {
		o.Fam, o.V = famHole, 3
	}
	c.Ops = append([]Op{o}, c.Ops...)
}

// openStore opens the store of a case.
func openStore(c *Case, name string) (*Handle, error) {
	h, err := OpenBallast(c.Kind, casePath(name), c.B)
	if err != nil {
		return nil, hfail(fmt.Errorf("open: %v", err))
	}
	return h, nil
}

func openCase(c *Case) (*Exec, error) {
	h, err := openStore(c, "db")
	if err != nil {
		return nil, err
	}
	return NewExec(h), nil
}

// standard passes: counts per worker.
func stdPasses(quick, thorough []Pass) func(string) []Pass {
	return func(tier string) []Pass {
		if tier == "thorough" {
			return thorough
		}
		return quick
	}
}

func runPoint(c *Case, r *Report) error {
	e, err := openCase(c)
	if err != nil {
		return err
	}
	e.Check = true
	big := 0
	tallest := 0
	for i, o := range c.Ops {
		if err := e.Apply(o); err != nil {
			return err
		}
		if s := e.H.Stats(); s.Height > tallest {
			tallest = s.Height
		}
		if n := e.M.Len(); n <= 300 && o.N > 1 || o.K == "reopen" || i == len(c.Ops)-1 {
			if err := e.verifyTests(); err != nil {
				return err
			}
		} else if n > 300 && o.N > 1 && big < 3 {
			big++
			if err := e.verifyTests(); err != nil {
				return err
			}
		}
	}
	s := e.H.Stats()
	if s.Height > 0 {
		r.Label(fmt.Sprintf("height_%d", tallest))
	}
	opLabels(e, r)
	r.Nontrivial = e.Max >= 2 && (e.seen["clear"]+e.seen["wipe"]+e.seen["rewrite"]+e.seen["setx"] > 0)
	if err := e.H.Close(); err != nil {
		return violf("Close: %v", err)
	}
	return nil
}

func init() {
	rule := "rapid draws a history of point operations (single, and bulk fills, wipes and rewrites by rank range in six orders) over 1-3 key families and value sizes; the model is a map. Non-trivial: at least two keys held at once and at least one update or removal."
	register(&Prop{ID: "P01", Rule: rule,
		Passes: stdPasses(
			[]Pass{{"small", 700, nil}, {"medium", 160, nil}, {"large", 14, nil}, {"tall", 4, nil}, {"waves", 14, nil}, {"aim", 70, nil}},
			[]Pass{{"small", 20000, nil}, {"medium", 6000, nil}, {"large", 500, nil}, {"tall", 150, nil}, {"waves", 600, nil}, {"aim", 2000, nil}}),
		Gen: stdGen(true, []int{kOD, kOD, kBPT}), Run: runPoint})
	register(&Prop{ID: "P02", Rule: rule,
		Passes: stdPasses(
			[]Pass{{"small", 700, nil}, {"medium", 160, nil}, {"large", 14, nil}, {"dirs", 4, nil}, {"giant", 1, nil}},
			[]Pass{{"small", 20000, nil}, {"medium", 6000, nil}, {"large", 500, nil}, {"dirs", 100, nil}, {"giant", 25, nil}}),
		Gen: stdGen(false, []int{kDict, kDict, kHM}), Run: runPoint})
}
