// Package vsignal replaces os/signal: no signal ever arrives.
package vsignal

import (
	"os"

	"vrt"
)

func Notify(c *vrt.Chan[os.Signal], sig ...os.Signal) {}
func Stop(c *vrt.Chan[os.Signal])                     {}
func Ignore(sig ...os.Signal)                         {}
func Reset(sig ...os.Signal)                          {}
