// Package vsyscall replaces file calls of syscall.
package vsyscall

import "vrt"

func Flock(fd int, how int) error { return vrt.Flock(fd, how) }
