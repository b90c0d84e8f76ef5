//go:build go1.27

package vioutil

import (
	"io"
	"io/fs"

	os "github.com/maxnikulin/burl/internal/verif/vos"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)      { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser      { return io.NopCloser(r) }
func ReadFile(filename string) ([]byte, error) { return os.ReadFile(filename) }
func WriteFile(filename string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(filename, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
