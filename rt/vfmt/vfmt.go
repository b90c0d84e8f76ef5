//go:build go1.27

// Package fmt with the modelled standard output.
package vfmt

import (
	"fmt"
	"io"

	os "github.com/maxnikulin/burl/internal/verif/vos"
)

type (
	Formatter  = fmt.Formatter
	GoStringer = fmt.GoStringer
	ScanState  = fmt.ScanState
	Scanner    = fmt.Scanner
	State      = fmt.State
	Stringer   = fmt.Stringer
)

func Print(a ...any) (int, error)                 { return fmt.Fprint(os.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(os.Stdout, format, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(os.Stdout, a...) }

func Fprint(w io.Writer, a ...any) (int, error)                 { return fmt.Fprint(w, a...) }
func Fprintf(w io.Writer, format string, a ...any) (int, error) { return fmt.Fprintf(w, format, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)               { return fmt.Fprintln(w, a...) }
func Sprint(a ...any) string                                    { return fmt.Sprint(a...) }
func Sprintf(format string, a ...any) string                    { return fmt.Sprintf(format, a...) }
func Sprintln(a ...any) string                                  { return fmt.Sprintln(a...) }
func Errorf(format string, a ...any) error                      { return fmt.Errorf(format, a...) }
func Append(b []byte, a ...any) []byte                          { return append(b, fmt.Sprint(a...)...) }
func Appendf(b []byte, format string, a ...any) []byte {
	return append(b, fmt.Sprintf(format, a...)...)
}
func Appendln(b []byte, a ...any) []byte { return append(b, fmt.Sprintln(a...)...) }

func Sscan(s string, a ...any) (int, error)               { return fmt.Sscan(s, a...) }
func Sscanf(s, format string, a ...any) (int, error)      { return fmt.Sscanf(s, format, a...) }
func Sscanln(s string, a ...any) (int, error)             { return fmt.Sscanln(s, a...) }
func Fscan(r io.Reader, a ...any) (int, error)            { return fmt.Fscan(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) { return fmt.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)          { return fmt.Fscanln(r, a...) }
