package mc

import _ "unsafe"

// The runtime is built with an overlay that takes the start of every map iteration from these variables (see
// check.sh); with mode 0 the runtime's own randomness is used.

//go:linkname verifMapMode internal/runtime/maps.VerifMode
var verifMapMode uint64

//go:linkname verifMapOffset internal/runtime/maps.VerifOffset
var verifMapOffset uint64

// MapOrder makes every following map iteration start at the given slot (0..7), the eight orders the runtime can give
// a map of up to eight entries.
func MapOrder(off int) {
	verifMapMode = 1
	verifMapOffset = uint64(off)
}

func mapControl() string {
	m := map[int]bool{0: true, 1: true, 2: true}
	first := func() int {
		for k := range m {
			return k
		}
		return -1
	}
	MapOrder(0)
	a := first()
	MapOrder(1)
	b := first()
	MapOrder(0)
	if a == 0 && b == 1 {
		return "every map iteration's start offset is set by the harness (patched runtime iterator), verified"
	}
	return "NOT in control"
}
