//go:build vsched && !race

package vs

func raceErrors() int { return 0 }

const Race = false
