package hx

import (
	"os"
	"syscall"
	"unsafe"
)

// PrivateNetwork says whether this process has a network of its own, and
// brings its loopback interface up.
func PrivateNetwork() bool {
	if os.Getenv("HX_NETNS") == "" {
		return false
	}
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		Infra("socket: %v", err)
	}
	defer syscall.Close(s)
	var ifr struct {
		name  [16]byte
		flags uint16
		_     [22]byte
	}
	copy(ifr.name[:], "lo")
	ifr.flags = syscall.IFF_UP
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&ifr))); e != 0 {
		Infra("lo: %v", e)
	}
	return true
}
