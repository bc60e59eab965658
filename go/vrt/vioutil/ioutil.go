// Package vioutil replaces the file functions of io/ioutil.
package vioutil

import (
	"os"
	"vrt"
)

func ReadDir(n string) ([]os.FileInfo, error)           { return vrt.ReadDirInfo(n) }
func ReadFile(n string) ([]byte, error)                 { return vrt.ReadFile(n) }
func WriteFile(n string, d []byte, p os.FileMode) error { return vrt.WriteFile(n, d, p) }
