package main

import "pgregory.net/rapid"

// GenCfg bounds the histories drawn for a case.
type GenCfg struct {
	MinOps, MaxOps int
	Idx            []int // candidates for the bound on key indices
	ValMax         []int // candidates for the largest value class
	BulkN          []int // candidates for the bound on bulk counts
	Fams           []int // candidate families
	Kinds          []string
	Reopen         bool
}

var allFams = []int{famDec, famTiny, famMid, famEdge, famLong, famNested, famRand, famSlot, famCollide, famShort, famSentinel, famDiff, famHigh, famWide, famJumble, famBucket}
var treeFams = []int{famDec, famTiny, famMid, famEdge, famLong, famNested, famRand, famDiff, famHigh, famWide, famJumble}
var hashFams = []int{famDec, famTiny, famRand, famSlot, famCollide, famShort, famLong, famHigh, famBucket}

var pointKinds = []string{"set", "set", "set", "clear", "clear", "setx", "setnx", "test", "test"}
var bulkKinds = []string{"fill", "fill", "fill", "wipe", "wipe", "rewrite", "rewrite", "set", "clear", "setx", "test"}

func withKinds(base []string, extra ...string) []string {
	return append(append([]string(nil), base...), extra...)
}

// profileCfg gives the bounds of the standard profiles.
//
//	small:  up to 60 point operations over few keys
//	medium: up to 14 bulk and point operations, a few hundred keys
//	large:  up to 12 bulk operations, thousands of keys
func profileCfg(profile string, ordered bool) GenCfg {
	fams := treeFams
	if !ordered {
		fams = hashFams
	}
	switch profile {
	case "small":
		return GenCfg{1, 60, []int{4, 12, 40}, []int{5, valSmallMax, valMidMax, valBigMax}, []int{1}, allFams, pointKinds, true}
	case "medium":
		return GenCfg{1, 14, []int{40, 400, 3000}, []int{3, valSmallMax, valMidMax, valBigMax}, []int{20, 120, 400}, allFams, bulkKinds, true}
	case "large":
		return GenCfg{2, 12, []int{3000, 20000}, []int{3, 8, valSmallMax, valMidMax}, []int{1500, 4000}, fams, bulkKinds, true}
	}
	panic("profile " + profile)
}

// drawOps draws a history.
func drawOps(t *rapid.T, cfg GenCfg, extra func(t *rapid.T, kind string, o *Op)) []Op {
	fams := rapid.SliceOfN(rapid.SampledFrom(cfg.Fams), 1, 3).Draw(t, "families")
	idx := rapid.SampledFrom(cfg.Idx).Draw(t, "indices")
	vmax := rapid.SampledFrom(cfg.ValMax).Draw(t, "valmax")
	bulk := rapid.SampledFrom(cfg.BulkN).Draw(t, "bulk")
	kinds := cfg.Kinds
	// rapid favours short slices; a drawn lower bound spreads the lengths
	lo := rapid.SampledFrom([]int{cfg.MinOps, cfg.MinOps, cfg.MaxOps / 4, cfg.MaxOps / 2, cfg.MaxOps * 3 / 4}).Draw(t, "minlen")
	if lo < cfg.MinOps {
		lo = cfg.MinOps
	}
	if cfg.Reopen && rapid.Bool().Draw(t, "reopens") {
		kinds = withKinds(kinds, "reopen", "reopen")
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch o.K {
		case "set", "setx", "setnx", "clear", "test":
			o.M = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "keymode")
			o.Fam = rapid.SampledFrom(fams).Draw(t, "family")
			o.I = rapid.IntRange(0, idx-1).Draw(t, "index")
			o.V = rapid.IntRange(0, vmax).Draw(t, "value")
			o.R = rapid.Bool().Draw(t, "ret")
		case "fill":
			o.Fam = rapid.SampledFrom(fams).Draw(t, "family")
			o.I = rapid.IntRange(0, idx-1).Draw(t, "start")
			o.N = rapid.IntRange(1, bulk).Draw(t, "n")
			o.M = rapid.IntRange(0, 5).Draw(t, "order")
			o.V = rapid.IntRange(0, vmax).Draw(t, "value")
			o.W = rapid.SampledFrom([]int{0, 0, 1, vmax / 2, vmax, -1, -2}).Draw(t, "value2")
			o.X = rapid.IntRange(0, 3).Draw(t, "op")
			o.R = rapid.Bool().Draw(t, "ret")
		case "wipe":
			o.X = rapid.SampledFrom([]int{0, 0, 100, 300, 500, 900, 990}).Draw(t, "from")
			o.Y = rapid.SampledFrom([]int{1000, 1000, 999, 950, 700, 500, 300, 10}).Draw(t, "to")
			o.M = rapid.IntRange(0, 5).Draw(t, "order")
			o.I = rapid.IntRange(0, 3).Draw(t, "thin")
			o.R = rapid.Bool().Draw(t, "ret")
		case "rewrite":
			o.X = rapid.SampledFrom([]int{0, 0, 100, 300, 500, 900, 990}).Draw(t, "from")
			o.Y = rapid.SampledFrom([]int{1000, 1000, 999, 950, 700, 500, 300, 10}).Draw(t, "to")
			o.M = rapid.IntRange(0, 5).Draw(t, "order")
			o.I = rapid.IntRange(0, 3).Draw(t, "thin")
			o.V = rapid.IntRange(0, vmax).Draw(t, "value")
			o.W = rapid.SampledFrom([]int{0, 0, 1, vmax / 2, vmax, -1, -2}).Draw(t, "value2")
			o.Fam = rapid.IntRange(0, 1).Draw(t, "op")
			o.R = rapid.Bool().Draw(t, "ret")
		default:
			if extra != nil {
				extra(t, o.K, &o)
			}
		}
		return o
	}), lo, cfg.MaxOps).Draw(t, "ops")
}

// opLabels records which classes of step a case contained.
func opLabels(e *Exec, r *Report) {
	for k, n := range e.seen {
		r.Count("op_"+k, n)
	}
	r.Count("calls", e.Calls)
	st := e.H
	_ = st
	switch {
	case e.Max == 0:
		r.Label("max_keys_0")
	case e.Max < 10:
		r.Label("max_keys_1_9")
	case e.Max < 100:
		r.Label("max_keys_10_99")
	case e.Max < 1000:
		r.Label("max_keys_100_999")
	case e.Max < 10000:
		r.Label("max_keys_1000_9999")
	default:
		r.Label("max_keys_10000_up")
	}
}
