//go:build race

package main

import "runtime"

// raceBuild: the program is built with the race detector.
const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

// silently runs f without the race detector taking note of its synchronisation: bytes on a network synchronise nobody.
func silently(f func()) {
	runtime.RaceDisable()
	defer runtime.RaceEnable()
	f()
}
