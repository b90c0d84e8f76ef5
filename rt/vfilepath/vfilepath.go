//go:build go1.27

// Package filepath as the checked code sees it: lexical functions are the
// real ones, the others use the modelled file system.
package vfilepath

import (
	"errors"
	"path"
	"strings"

	os "github.com/maxnikulin/burl/internal/verif/vos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = path.ErrBadPattern
	SkipDir       = errors.New("skip this directory")
	SkipAll       = errors.New("skip everything and stop the walk")
)

func Base(p string) string              { return path.Base(p) }
func Clean(p string) string             { return path.Clean(p) }
func Dir(p string) string               { return path.Dir(p) }
func Ext(p string) string               { return path.Ext(p) }
func IsAbs(p string) bool               { return path.IsAbs(p) }
func Join(elem ...string) string        { return path.Join(elem...) }
func Split(p string) (dir, file string) { return path.Split(p) }
func FromSlash(p string) string         { return p }
func ToSlash(p string) string           { return p }
func VolumeName(p string) string        { return "" }
func SplitList(p string) []string {
	if p == "" {
		return []string{}
	}
	return strings.Split(p, ":")
}
func Match(pattern, name string) (matched bool, err error) { return path.Match(pattern, name) }

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return path.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if os.Fault != nil {
		if err := os.Fault("lstat", p); err != nil {
			return "", &os.PathError{Op: "lstat", Path: p, Err: err}
		}
	}
	q, n, err := os.Resolve(p)
	if err != nil || n == nil {
		return "", &os.PathError{Op: "lstat", Path: p, Err: err}
	}
	if !path.IsAbs(p) && n.Link == "" {
		return path.Clean(p), nil
	}
	return q, nil
}
