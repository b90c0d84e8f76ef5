//go:build go1.27

// Package os as the checked code sees it: an in-memory file system with
// fault and crash injection; nothing reaches the real system.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"strconv"
	"strings"
	"time"

	"github.com/maxnikulin/burl/internal/verif"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

const (
	O_RDONLY int = 0
	O_WRONLY int = 1
	O_RDWR   int = 2
	O_APPEND int = 0x400
	O_CREATE int = 0x40
	O_EXCL   int = 0x80
	O_SYNC   int = 0x101000
	O_TRUNC  int = 0x200

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	SEEK_SET int = 0
	SEEK_CUR int = 1
	SEEK_END int = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = errors.New("file type does not support deadline")
	ErrDeadlineExceeded = errors.New("i/o timeout")
	ErrProcessDone      = errors.New("process already finished")

	ErrNotDir  = errors.New("not a directory")
	ErrIsDir   = errors.New("is a directory")
	ErrIO      = errors.New("input/output error")
	ErrNoSpace = errors.New("no space left on device")
	ErrLoop    = errors.New("too many levels of symbolic links")
)

type LinkError struct {
	Op  string
	Old string
	New string
	Err error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

type SyscallError struct {
	Syscall string
	Err     error
}

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }

// ---- state of the modelled system

type Node struct {
	Dir  bool
	Mode FileMode // permission bits
	Data []byte
	Link string // target of a symbolic link
	Ino  int
}

type Entry struct {
	Path string
	Node *Node
}

var (
	Args     []string = []string{"burl"}
	Files    []*Entry
	Cwd      = "/cwd"
	Exe      = "/bin/burl_backend"
	Umask    = FileMode(0022)
	nextIno  = 1
	tempSeq  = 0
	OpenNow  int      // files opened and not yet closed
	Opened   []string // names passed to successful opens
	Ops      []string // mutating operations, in order
	ExitCode = -1

	// Fault may make an operation fail; op is the name of the operation.
	Fault func(op, path string) error
	// WriteFault may cut a write short: how many bytes are written, and the error.
	WriteFault func(path string, n int) (int, error)
	// Step is called before every operation that changes the file system
	// (also between parts of a write); it may panic to simulate a crash.
	Step func(op, path string)
	// ReadChunk limits the bytes returned by one Read (0: no limit).
	ReadChunk func(path string, n int) int
)

// Reset brings the system into its initial state.
func Reset() {
	Args = []string{"burl"}
	Files = nil
	Cwd = "/cwd"
	Exe = "/bin/burl_backend"
	nextIno = 1
	tempSeq = 0
	OpenNow = 0
	Opened = nil
	Ops = nil
	ExitCode = -1
	Fault, WriteFault, Step, ReadChunk = nil, nil, nil, nil
	Stdin, Stdout, Stderr = stdFile("/dev/stdin"), stdFile("/dev/stdout"), stdFile("/dev/stderr")
}

func Add(path string, n *Node) *Node {
	unlink(path)
	n.Ino = nextIno
	nextIno++
	Files = append(Files, &Entry{path, n})
	return n
}

func AddDir(path string) *Node { return Add(path, &Node{Dir: true, Mode: 0755}) }
func AddFile(path, data string, mode FileMode) *Node {
	return Add(path, &Node{Data: []byte(data), Mode: mode})
}

// Find returns the node with exactly that path (no links followed).
func Find(path string) *Node {
	for _, e := range Files {
		if e.Path == path {
			return e.Node
		}
	}
	return nil
}

func unlink(path string) {
	for i, e := range Files {
		if e.Path == path {
			l := make([]*Entry, 0, len(Files))
			l = append(l, Files[:i]...)
			Files = append(l, Files[i+1:]...)
			return
		}
	}
}

func clean(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = Cwd + "/" + p
	}
	var out []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

func parent(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

// resolve follows symbolic links; follow tells about the last component
func resolve(path string, follow bool) (string, *Node, error) {
	if path == "" {
		return "", nil, ErrNotExist
	}
	trailing := path[len(path)-1] == '/'
	p := clean(path)
	for depth := 0; depth < 8; depth++ {
		if p == "/" {
			return p, &Node{Dir: true, Mode: 0755}, nil
		}
		n := Find(p)
		par := parent(p)
		if n == nil {
			pn := Find(par)
			if par != "/" && pn == nil {
				return p, nil, ErrNotExist
			}
			if pn != nil && pn.Link != "" {
				p = clean(join(parent(par), pn.Link) + p[len(par):])
				continue
			}
			if pn != nil && !pn.Dir {
				return p, nil, ErrNotDir
			}
			return p, nil, ErrNotExist
		}
		if n.Link != "" && (follow || trailing) {
			p = clean(join(par, n.Link))
			continue
		}
		if trailing && !n.Dir {
			return p, nil, ErrNotDir
		}
		return p, n, nil
	}
	return p, nil, ErrLoop
}

func join(dir, p string) string {
	if p != "" && p[0] == '/' {
		return p
	}
	return dir + "/" + p
}

// Resolve is for models of other packages.
func Resolve(path string) (string, *Node, error) { return resolve(path, true) }

func fault(op, path string) error {
	if Fault != nil {
		return Fault(op, path)
	}
	return nil
}

func step(op, path string) {
	if Step != nil {
		Step(op, path)
	}
	Ops = append(Ops, op+" "+path)
}

type info struct {
	name string
	node *Node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(len(i.node.Data)) }
func (i *info) Mode() FileMode {
	m := i.node.Mode
	if i.node.Dir {
		m |= ModeDir
	}
	if i.node.Link != "" {
		m |= ModeSymlink
	}
	return m
}
func (i *info) ModTime() (t time.Time) { return }
func (i *info) IsDir() bool            { return i.node.Dir }
func (i *info) Sys() interface{}       { return i.node }

func base(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

func statOp(op, path string, follow bool) (FileInfo, error) {
	if err := fault(op, path); err != nil {
		return nil, &PathError{Op: op, Path: path, Err: err}
	}
	_, n, err := resolve(path, follow)
	if err != nil {
		return nil, &PathError{Op: op, Path: path, Err: err}
	}
	return &info{base(path), n}, nil
}

func Stat(name string) (FileInfo, error)  { return statOp("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return statOp("lstat", name, false) }

func SameFile(a, b FileInfo) bool {
	p, ok := a.(*info)
	q, ok2 := b.(*info)
	return ok && ok2 && p.node == q.node
}

// ---- open files

type File struct {
	name   string
	node   *Node
	path   string
	off    int
	rd, wr bool
	app    bool
	closed bool
	wrote  bool
	std    bool
	// In is read by the standard input, Out collects what is written
	// to the standard output or error.
	In  io.Reader
	Out []byte
	W   io.Writer
}

func stdFile(name string) *File {
	return &File{name: name, std: true, rd: true, wr: true, node: &Node{}}
}

var (
	Stdin  = stdFile("/dev/stdin")
	Stdout = stdFile("/dev/stdout")
	Stderr = stdFile("/dev/stderr")
)

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	verif.Yield()
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	fail := func(err error) (*File, error) { return nil, &PathError{Op: "open", Path: name, Err: err} }
	if err := fault(op, name); err != nil {
		return fail(err)
	}
	p, n, err := resolve(name, flag&O_EXCL == 0)
	acc := flag & 3
	if err != nil {
		if err != ErrNotExist || flag&O_CREATE == 0 {
			return fail(err)
		}
		if par := parent(p); par != "/" {
			pn := Find(par)
			if pn == nil {
				return fail(ErrNotExist)
			}
			if !pn.Dir {
				return fail(ErrNotDir)
			}
		}
		step("create", p)
		n = Add(p, &Node{Mode: perm &^ Umask & ModePerm})
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return fail(ErrExist)
		}
		if n.Dir && acc != O_RDONLY {
			return fail(ErrIsDir)
		}
		if flag&O_TRUNC != 0 && acc != O_RDONLY {
			step("truncate", p)
			n.Data = nil
		}
	}
	OpenNow++
	Opened = append(Opened, name)
	return &File{name: name, node: n, path: p, rd: acc != O_WRONLY, wr: acc != O_RDONLY, app: flag&O_APPEND != 0}, nil
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

func (f *File) Name() string {
	return f.name
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if !f.std {
		OpenNow--
	}
	if err := fault("close", f.name); err != nil {
		// data that could not be stored are lost
		if f.wr && f.wrote {
			f.node.Data = f.node.Data[:len(f.node.Data)/2]
		}
		return &PathError{Op: "close", Path: f.name, Err: err}
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	verif.Yield()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		if f.In == nil {
			return 0, io.EOF
		}
		return f.In.Read(b)
	}
	if err := fault("read", f.name); err != nil {
		return 0, &PathError{Op: "read", Path: f.name, Err: err}
	}
	if f.node.Dir {
		return 0, &PathError{Op: "read", Path: f.name, Err: ErrIsDir}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.node.Data) {
		return 0, io.EOF
	}
	n := len(f.node.Data) - f.off
	if n > len(b) {
		n = len(b)
	}
	if ReadChunk != nil {
		n = ReadChunk(f.name, n)
	}
	copy(b[:n], f.node.Data[f.off:f.off+n])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	save := f.off
	f.off = int(off)
	n, err := io.ReadFull(f, b)
	f.off = save
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		offset += int64(f.off)
	case 2:
		offset += int64(len(f.node.Data))
	}
	if offset < 0 {
		return 0, &PathError{Op: "seek", Path: f.name, Err: ErrInvalid}
	}
	f.off = int(offset)
	return offset, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		if f.W != nil {
			return f.W.Write(b)
		}
		if err := fault("write", f.name); err != nil {
			return 0, &PathError{Op: "write", Path: f.name, Err: err}
		}
		f.Out = append(f.Out, b...)
		return len(b), nil
	}
	if !f.wr {
		return 0, &PathError{Op: "write", Path: f.name, Err: ErrPermission}
	}
	n := len(b)
	var werr error
	if WriteFault != nil {
		n, werr = WriteFault(f.name, len(b))
	}
	if f.app {
		f.off = len(f.node.Data)
	}
	// a crash can leave a part of the data
	half := n / 2
	step("write", f.path)
	f.put(b[:half])
	if half > 0 {
		step("write", f.path)
	}
	f.put(b[half:n])
	if werr != nil {
		return n, &PathError{Op: "write", Path: f.name, Err: werr}
	}
	return n, nil
}

func (f *File) put(b []byte) {
	if len(b) == 0 {
		return
	}
	f.wrote = true
	end := f.off + len(b)
	size := len(f.node.Data)
	if size < end {
		size = end
	}
	d := make([]byte, size)
	copy(d, f.node.Data)
	copy(d[f.off:], b)
	f.node.Data = d
	f.off = end
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	save := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = save
	return n, err
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if err := fault("sync", f.name); err != nil {
		return &PathError{Op: "sync", Path: f.name, Err: err}
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if err := fault("stat", f.name); err != nil {
		return nil, &PathError{Op: "stat", Path: f.name, Err: err}
	}
	return &info{base(f.name), f.node}, nil
}

func (f *File) Chmod(mode FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if err := fault("chmod", f.name); err != nil {
		return &PathError{Op: "chmod", Path: f.name, Err: err}
	}
	step("chmod", f.path)
	f.node.Mode = mode & ModePerm
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := fault("truncate", f.name); err != nil {
		return &PathError{Op: "truncate", Path: f.name, Err: err}
	}
	step("truncate", f.path)
	d := make([]byte, int(size))
	copy(d, f.node.Data)
	f.node.Data = d
	return nil
}

func (f *File) Fd() uintptr                          { return 3 }
func (f *File) SetDeadline(t time.Time) error        { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error    { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error   { return ErrNoDeadline }
func (f *File) Readdirnames(n int) ([]string, error) { return nil, ErrInvalid }
func (f *File) ReadDir(n int) ([]DirEntry, error)    { return nil, ErrInvalid }
func (f *File) Readdir(n int) ([]FileInfo, error)    { return nil, ErrInvalid }
func (f *File) Chown(uid, gid int) error             { return nil }

// ---- operations on names

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Chmod(name string, mode FileMode) error {
	if err := fault("chmod", name); err != nil {
		return &PathError{Op: "chmod", Path: name, Err: err}
	}
	p, n, err := resolve(name, true)
	if err != nil {
		return &PathError{Op: "chmod", Path: name, Err: err}
	}
	step("chmod", p)
	n.Mode = mode & ModePerm
	return nil
}

func Rename(oldpath, newpath string) error {
	fail := func(err error) error { return &LinkError{"rename", oldpath, newpath, err} }
	if err := fault("rename", newpath); err != nil {
		return fail(err)
	}
	p, n, err := resolve(oldpath, false)
	if err != nil {
		return fail(err)
	}
	q, m, err := resolve(newpath, false)
	if err != nil && err != ErrNotExist {
		return fail(err)
	}
	if par := parent(q); m == nil && par != "/" && Find(par) == nil {
		return fail(ErrNotExist)
	}
	if m != nil && m.Dir {
		return fail(ErrExist)
	}
	step("rename", q)
	if m == n && p != q {
		return nil // links to the same file
	}
	if p == q {
		return nil
	}
	unlink(q)
	for _, e := range Files {
		if e.Path == p {
			e.Path = q
		}
	}
	return nil
}

func Remove(name string) error {
	if err := fault("remove", name); err != nil {
		return &PathError{Op: "remove", Path: name, Err: err}
	}
	p, _, err := resolve(name, false)
	if err != nil {
		return &PathError{Op: "remove", Path: name, Err: err}
	}
	step("remove", p)
	unlink(p)
	return nil
}

func RemoveAll(name string) error {
	err := Remove(name)
	if err != nil && errors.Is(err, ErrNotExist) {
		return nil
	}
	return err
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Link(oldname, newname string) error {
	fail := func(err error) error { return &LinkError{"link", oldname, newname, err} }
	if err := fault("link", newname); err != nil {
		return fail(err)
	}
	_, n, err := resolve(oldname, false)
	if err != nil {
		return fail(err)
	}
	q, m, err := resolve(newname, false)
	if m != nil {
		return fail(ErrExist)
	}
	if err != ErrNotExist {
		return fail(err)
	}
	step("link", q)
	Files = append(Files, &Entry{q, n})
	return nil
}

func Symlink(oldname, newname string) error {
	fail := func(err error) error { return &LinkError{"symlink", oldname, newname, err} }
	if err := fault("symlink", newname); err != nil {
		return fail(err)
	}
	q, m, err := resolve(newname, false)
	if m != nil {
		return fail(ErrExist)
	}
	if err != ErrNotExist {
		return fail(err)
	}
	step("symlink", q)
	Add(q, &Node{Link: oldname, Mode: 0777})
	return nil
}

func Readlink(name string) (string, error) {
	_, n, err := resolve(name, false)
	if err == nil && n.Link == "" {
		err = ErrInvalid
	}
	if err != nil {
		return "", &PathError{Op: "readlink", Path: name, Err: err}
	}
	return n.Link, nil
}

func Mkdir(name string, perm FileMode) error {
	if err := fault("mkdir", name); err != nil {
		return &PathError{Op: "mkdir", Path: name, Err: err}
	}
	q, m, err := resolve(name, false)
	if m != nil {
		return &PathError{Op: "mkdir", Path: name, Err: ErrExist}
	}
	if err != ErrNotExist || parent(q) != "/" && Find(parent(q)) == nil {
		return &PathError{Op: "mkdir", Path: name, Err: err}
	}
	step("mkdir", q)
	Add(q, &Node{Dir: true, Mode: perm &^ Umask & ModePerm})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := clean(name)
	if n := Find(p); n != nil || p == "/" {
		if n != nil && !n.Dir {
			return &PathError{Op: "mkdir", Path: name, Err: ErrNotDir}
		}
		return nil
	}
	if err := MkdirAll(parent(p), perm); err != nil {
		return err
	}
	return Mkdir(p, perm)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if strings.IndexByte(pattern, '/') >= 0 {
		return nil, &PathError{Op: "createtemp", Path: pattern, Err: errors.New("pattern contains path separator")}
	}
	for try := 0; ; try++ {
		tempSeq++
		name := dir + "/" + pre + "10000000" + strconv.Itoa(tempSeq) + suf
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if err != nil && try < 4 && errors.Is(err, ErrExist) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tempSeq++
	name := dir + "/" + strings.Replace(pattern, "*", "", 1) + "10000000" + strconv.Itoa(tempSeq)
	return name, Mkdir(name, 0700)
}

func Getwd() (string, error) {
	if err := fault("getwd", ""); err != nil {
		return "", &SyscallError{"getwd", err}
	}
	return Cwd, nil
}

func Executable() (string, error) {
	if err := fault("executable", ""); err != nil {
		return "", err
	}
	return Exe, nil
}

// Exited is the panic value by which Exit leaves the program.
type Exited struct{ Code int }

func Exit(code int) {
	ExitCode = code
	panic(Exited{code})
}

func under(err error) error {
	switch e := err.(type) {
	case *PathError:
		return e.Err
	case *LinkError:
		return e.Err
	case *SyscallError:
		return e.Err
	}
	return err
}

func IsNotExist(err error) bool    { return under(err) == ErrNotExist }
func IsExist(err error) bool       { return under(err) == ErrExist }
func IsPermission(err error) bool  { return under(err) == ErrPermission }
func IsTimeout(err error) bool     { return false }
func IsPathSeparator(c uint8) bool { return c == '/' }

var Env = [][2]string{}

func LookupEnv(key string) (string, bool) {
	for _, e := range Env {
		if e[0] == key {
			return e[1], true
		}
	}
	return "", false
}
func Getenv(key string) string { v, _ := LookupEnv(key); return v }
func Environ() (l []string) {
	for _, e := range Env {
		l = append(l, e[0]+"="+e[1])
	}
	return l
}
func TempDir() string                { return "/tmp" }
func UserHomeDir() (string, error)   { return "/home/user", nil }
func UserConfigDir() (string, error) { return "/home/user/.config", nil }
func Getpid() int                    { return 4242 }
func Getppid() int                   { return 4241 }
func Getuid() int                    { return 1000 }
func Geteuid() int                   { return 1000 }
func Hostname() (string, error)      { return "host", nil }

// ---- processes

type Signal interface {
	String() string
	Signal()
}

type sig int

func (s sig) String() string { return "signal" }
func (s sig) Signal()        {}

var (
	Interrupt Signal = sig(2)
	Kill      Signal = sig(9)
)

type Process struct{ Pid int }

func (p *Process) Kill() error           { return nil }
func (p *Process) Signal(s Signal) error { return nil }
func (p *Process) Release() error        { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	return &ProcessState{}, nil
}

type ProcessState struct{ Code int }

func (p *ProcessState) ExitCode() int {
	if p == nil {
		return -1
	}
	return p.Code
}
func (p *ProcessState) Success() bool  { return p.Code == 0 }
func (p *ProcessState) Exited() bool   { return p.Code >= 0 }
func (p *ProcessState) Pid() int       { return 4343 }
func (p *ProcessState) String() string { return "exit status " + strconv.Itoa(p.Code) }
