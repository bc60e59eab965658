// Package vos replaces the file functions of os.
package vos

import (
	"fmt"
	"os"
	"vrt"
)

type File = vrt.VFile

func OpenFile(n string, f int, p os.FileMode) (*File, error) { return vrt.OpenFile(n, f, p) }
func Open(n string) (*File, error)                           { return vrt.Open(n) }
func Create(n string) (*File, error)                         { return vrt.Create(n) }
func Mkdir(n string, p os.FileMode) error                    { return vrt.Mkdir(n, p) }
func MkdirAll(n string, p os.FileMode) error                 { return vrt.MkdirAll(n, p) }
func Remove(n string) error                                  { return vrt.Remove(n) }
func RemoveAll(n string) error                               { return vrt.RemoveAll(n) }
func Rename(a, b string) error                               { return vrt.Rename(a, b) }
func Stat(n string) (os.FileInfo, error)                     { return vrt.Stat(n) }
func Lstat(n string) (os.FileInfo, error)                    { return vrt.Stat(n) }
func Getwd() (string, error)                                 { return vrt.Getwd() }
func ReadDir(n string) ([]os.DirEntry, error)                { return vrt.ReadDirEntries(n) }
func ReadFile(n string) ([]byte, error)                      { return vrt.ReadFile(n) }
func WriteFile(n string, d []byte, p os.FileMode) error      { return vrt.WriteFile(n, d, p) }
func Truncate(n string, s int64) error                       { return vrt.TruncatePath(n, s) }
func CreateTemp(d, p string) (*File, error)                  { return vrt.CreateTemp(d, p) }
func MkdirTemp(d, p string) (string, error)                  { return vrt.MkdirTemp(d, p) }
func Chmod(n string, m os.FileMode) error                    { _, err := vrt.Stat(n); return err }
func Exit(code int)                                          { panic(fmt.Sprintf("os.Exit(%d) called", code)) }
