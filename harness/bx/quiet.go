package bx

import (
	"io"
	"log"
	"os"
)

func quiet() {
	log.SetOutput(io.Discard)
	if f, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = f
	}
}
