package mc

import (
	"os"
	"syscall"
	"unsafe"
)

var memf *os.File

// Capture runs f and returns what it printed on standard output.
func Capture(f func()) string {
	if memf == nil {
		name := []byte("out\x00")
		fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0)
		if e != 0 {
			panic(e)
		}
		memf = os.NewFile(fd, "out")
	}
	memf.Truncate(0)
	memf.Seek(0, 0)
	old := os.Stdout
	os.Stdout = memf
	defer func() { os.Stdout = old }()
	f()
	n, _ := memf.Seek(0, 1)
	b := make([]byte, n)
	memf.ReadAt(b, 0)
	return string(b)
}
