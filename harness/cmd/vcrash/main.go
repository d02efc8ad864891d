//go:build vsched

// vcrash kills or faults the real code at every file-system operation of building,
// opening, starting and reindexing, each case in a process of its own.
package main

import (
	"os"

	"hv/bx"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "child" {
		child(os.Args[2])
		return
	}
	bx.Main()
}
