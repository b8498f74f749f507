//go:build race

package main

import "runtime"

// The hand-off between simulated tasks must not look like synchronisation to
// the race detector: only what the code itself synchronises may count.

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

const raceBuild = true
