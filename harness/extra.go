package main

import "runtime/debug"

// extraPasses are the passes at unusual scale: keys and values of more than
// 16 MiB ("vast"), more pairs than 16 bits can count ("many"), a value of more
// than 2 GiB ("2g"), trees of five levels ("lofty").  They are few and not scaled.
func extraPasses(id, tier string) (ps []Pass) {
	thorough := tier == "thorough"
	add := func(profile string, quick, deep int, only ...int) {
		if thorough {
			quick = deep
		}
		ps = append(ps, Pass{profile, quick, only})
	}
	switch id {
	case "P05", "P06":
		add("vast", 1, 12, 0, 2, 3, 6)
	case "P01", "P02", "P03", "P04", "P07", "P08", "P09", "P12", "P13", "P18", "P19", "P25":
		add("vast", 3, 12, 0, 2, 3, 6)
	}
	switch id {
	case "P01", "P02", "P03", "P04", "P05", "P06", "P08", "P09", "P10", "P11", "P12", "P13", "P18", "P19", "P20", "P28":
		add("many", 3, 12, 4, 7)
	}
	switch id {
	case "P01", "P03", "P05", "P12", "P18", "P20", "P28":
		add("lofty", 1, 6, 1)
	case "P08", "P09", "P10", "P13", "P19", "P25", "P29":
		if thorough {
			add("lofty", 1, 3, 1)
		}
	}
	switch id {
	case "P05", "P06", "P08":
		add("2g", 1, 2, 5)
	case "P07", "P01", "P02", "P12", "P25":
		if thorough {
			add("2g", 1, 1, 5)
		}
	}
	return
}

// roomFor sets the memory a worker may take in a pass.
func roomFor(profile string) {
	rssLimitBytes.Store(5 << 30)
	if profile == "2g" {
		rssLimitBytes.Store(24 << 30)
		debug.SetMemoryLimit(6 << 30)
	}
}
