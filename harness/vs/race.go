//go:build vsched && race

package vs

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }

const Race = true
