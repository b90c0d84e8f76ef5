//go:build go1.27

// Package log as the checked code sees it: messages are counted, and
// written if the harness asks for it.
package vlog

import (
	"fmt"
	"io"

	os "github.com/maxnikulin/burl/internal/verif/vos"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

var (
	Count int
	Trace bool // write messages
	std   = New(os.Stderr, "", LstdFlags)
)

// Reset brings the package into its initial state.
func Reset() {
	Count = 0
	std = New(os.Stderr, "", LstdFlags)
}

type Logger struct {
	w      io.Writer
	flags  int
	prefix string
}

func Default() *Logger                                   { return std }
func New(out io.Writer, prefix string, flag int) *Logger { return &Logger{out, flag, prefix} }

func (l *Logger) Output(calldepth int, s string) error {
	Count++
	if !Trace {
		return nil
	}
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	s = l.prefix + s
	if l.flags&(Ldate|Ltime) != 0 {
		s = "2021/01/01 00:00:00 " + s
	}
	_, err := l.w.Write([]byte(s))
	return err
}

func (l *Logger) println(v []any) {
	if !Trace {
		Count++
		return
	}
	l.Output(2, fmt.Sprintln(v...))
}

func (l *Logger) printf(format string, v []any) {
	if !Trace {
		Count++
		return
	}
	l.Output(2, fmt.Sprintf(format, v...))
}

func (l *Logger) Println(v ...any)               { l.println(v) }
func (l *Logger) Printf(format string, v ...any) { l.printf(format, v) }
func (l *Logger) Print(v ...any)                 { l.printf("%s", []any{fmt.Sprint(v...)}) }
func (l *Logger) Fatal(v ...any)                 { l.Print(v...); os.Exit(1) }
func (l *Logger) Fatalf(format string, v ...any) { l.printf(format, v); os.Exit(1) }
func (l *Logger) Fatalln(v ...any)               { l.println(v); os.Exit(1) }
func (l *Logger) Panic(v ...any)                 { panic(fmt.Sprint(v...)) }
func (l *Logger) Panicf(format string, v ...any) { panic(fmt.Sprintf(format, v...)) }
func (l *Logger) Panicln(v ...any)               { panic(fmt.Sprintln(v...)) }
func (l *Logger) SetOutput(w io.Writer)          { l.w = w }
func (l *Logger) Writer() io.Writer              { return l.w }
func (l *Logger) SetFlags(f int)                 { l.flags = f }
func (l *Logger) Flags() int                     { return l.flags }
func (l *Logger) SetPrefix(p string)             { l.prefix = p }
func (l *Logger) Prefix() string                 { return l.prefix }

func Println(v ...any)                     { std.println(v) }
func Printf(format string, v ...any)       { std.printf(format, v) }
func Print(v ...any)                       { std.Print(v...) }
func Fatal(v ...any)                       { std.Fatal(v...) }
func Fatalf(format string, v ...any)       { std.Fatalf(format, v...) }
func Fatalln(v ...any)                     { std.Fatalln(v...) }
func Panic(v ...any)                       { std.Panic(v...) }
func Panicf(format string, v ...any)       { std.Panicf(format, v...) }
func Panicln(v ...any)                     { std.Panicln(v...) }
func Output(calldepth int, s string) error { return std.Output(calldepth, s) }
func SetOutput(w io.Writer)                { std.SetOutput(w) }
func Writer() io.Writer                    { return std.Writer() }
func SetFlags(f int)                       { std.SetFlags(f) }
func Flags() int                           { return std.Flags() }
func SetPrefix(p string)                   { std.SetPrefix(p) }
func Prefix() string                       { return std.Prefix() }
