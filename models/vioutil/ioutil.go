// Package ioutil mirrors io/ioutil on the in-memory file system.
package ioutil

import (
	"io"

	"github.com/smartbch/moeingads/zzv/vos"
)

func ReadDir(name string) ([]os.FileInfo, error) { return os.List(name) }
func ReadFile(name string) ([]byte, error)       { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }
