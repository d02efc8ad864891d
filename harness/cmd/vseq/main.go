// vseq runs the bounded-exhaustive enumerations of inputs and histories.
package main

import (
	"io"
	"log"
	"os"

	"hv/bx"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "reopen-child" {
		log.SetOutput(io.Discard)
		reopen(&bx.Ctx{Shard: 1, N: 0})
		return
	}
	bx.Main()
}
