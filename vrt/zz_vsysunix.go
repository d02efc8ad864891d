package unix

import (
	"syscall"
	_ "unsafe"
)

//go:linkname vsys
func vsys(op uint8, fd uintptr) (errno uintptr, torn uint8)

func vopen(flags int) uint8 {
	if flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		return 1
	}
	return 0
}
