package syscall

import _ "unsafe"

//go:linkname vsys
func vsys(op uint8, fd uintptr) (errno uintptr, torn uint8)

//go:linkname vsysCrash
func vsysCrash()
