//go:build race

package main

import "runtime"

// raceErrors tells how many data races the race detector has reported.
func raceErrors() int { return runtime.RaceErrors() }

const raceBuild = true
