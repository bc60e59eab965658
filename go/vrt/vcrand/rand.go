// Package vcrand replaces crypto/rand with the world's deterministic source.
package vcrand

import (
	"io"
	"vrt/vmrand"
)

type rd struct{}

func (rd) Read(b []byte) (int, error) { return vmrand.Read(b) }

var Reader io.Reader = rd{}

func Read(b []byte) (int, error) { return vmrand.Read(b) }
