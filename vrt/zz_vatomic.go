package atomic

import "unsafe"

//go:linkname vpoint
func vpoint()

// Functions with a scheduling point, called in place of those without V, which the
// compiler replaces by instructions (tools/mkoverlay.py).
func VLoadInt32(p *int32) int32 { vpoint(); return LoadInt32(p) }
func VStoreInt32(p *int32, v int32) { vpoint(); StoreInt32(p, v) }
func VSwapInt32(p *int32, v int32) int32 { vpoint(); return SwapInt32(p, v) }
func VCompareAndSwapInt32(p *int32, o, v int32) bool { vpoint(); return CompareAndSwapInt32(p, o, v) }
func VAddInt32(p *int32, v int32) int32 { vpoint(); return AddInt32(p, v) }
func VAndInt32(p *int32, v int32) int32 { vpoint(); return AndInt32(p, v) }
func VOrInt32(p *int32, v int32) int32 { vpoint(); return OrInt32(p, v) }
func VLoadInt64(p *int64) int64 { vpoint(); return LoadInt64(p) }
func VStoreInt64(p *int64, v int64) { vpoint(); StoreInt64(p, v) }
func VSwapInt64(p *int64, v int64) int64 { vpoint(); return SwapInt64(p, v) }
func VCompareAndSwapInt64(p *int64, o, v int64) bool { vpoint(); return CompareAndSwapInt64(p, o, v) }
func VAddInt64(p *int64, v int64) int64 { vpoint(); return AddInt64(p, v) }
func VAndInt64(p *int64, v int64) int64 { vpoint(); return AndInt64(p, v) }
func VOrInt64(p *int64, v int64) int64 { vpoint(); return OrInt64(p, v) }
func VLoadUint32(p *uint32) uint32 { vpoint(); return LoadUint32(p) }
func VStoreUint32(p *uint32, v uint32) { vpoint(); StoreUint32(p, v) }
func VSwapUint32(p *uint32, v uint32) uint32 { vpoint(); return SwapUint32(p, v) }
func VCompareAndSwapUint32(p *uint32, o, v uint32) bool { vpoint(); return CompareAndSwapUint32(p, o, v) }
func VAddUint32(p *uint32, v uint32) uint32 { vpoint(); return AddUint32(p, v) }
func VAndUint32(p *uint32, v uint32) uint32 { vpoint(); return AndUint32(p, v) }
func VOrUint32(p *uint32, v uint32) uint32 { vpoint(); return OrUint32(p, v) }
func VLoadUint64(p *uint64) uint64 { vpoint(); return LoadUint64(p) }
func VStoreUint64(p *uint64, v uint64) { vpoint(); StoreUint64(p, v) }
func VSwapUint64(p *uint64, v uint64) uint64 { vpoint(); return SwapUint64(p, v) }
func VCompareAndSwapUint64(p *uint64, o, v uint64) bool { vpoint(); return CompareAndSwapUint64(p, o, v) }
func VAddUint64(p *uint64, v uint64) uint64 { vpoint(); return AddUint64(p, v) }
func VAndUint64(p *uint64, v uint64) uint64 { vpoint(); return AndUint64(p, v) }
func VOrUint64(p *uint64, v uint64) uint64 { vpoint(); return OrUint64(p, v) }
func VLoadUintptr(p *uintptr) uintptr { vpoint(); return LoadUintptr(p) }
func VStoreUintptr(p *uintptr, v uintptr) { vpoint(); StoreUintptr(p, v) }
func VSwapUintptr(p *uintptr, v uintptr) uintptr { vpoint(); return SwapUintptr(p, v) }
func VCompareAndSwapUintptr(p *uintptr, o, v uintptr) bool { vpoint(); return CompareAndSwapUintptr(p, o, v) }
func VAddUintptr(p *uintptr, v uintptr) uintptr { vpoint(); return AddUintptr(p, v) }
func VAndUintptr(p *uintptr, v uintptr) uintptr { vpoint(); return AndUintptr(p, v) }
func VOrUintptr(p *uintptr, v uintptr) uintptr { vpoint(); return OrUintptr(p, v) }
func VLoadPointer(p *unsafe.Pointer) unsafe.Pointer { vpoint(); return LoadPointer(p) }
func VStorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vpoint(); StorePointer(p, v) }
func VSwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { vpoint(); return SwapPointer(p, v) }
func VCompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool { vpoint(); return CompareAndSwapPointer(p, o, v) }
