// Package fakeos stands in for package os where the code under test deletes and overwrites files: a file system in
// memory, seen by a user without privileges, that counts what is done to it. Paths are used as given, the working
// directory is "/w".
package fakeos

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

const (
	ModeDir                    = fs.ModeDir
	ModePerm                   = fs.ModePerm
	O_RDONLY, O_WRONLY, O_RDWR = 0, 1, 2
	O_APPEND, O_CREATE, O_EXCL = 0x400, 0x40, 0x80
	O_SYNC, O_TRUNC            = 0x101000, 0x200
	PathSeparator              = '/'
	DevNull                    = "/dev/null"
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
	ErrClosed     = fs.ErrClosed
)

// Errno is an error of the operating system.
type Errno string

func (e Errno) Error() string { return string(e) }

const (
	enotdir   = Errno("not a directory")
	eisdir    = Errno("is a directory")
	enotempty = Errno("directory not empty")
	eio       = Errno("input/output error")
)

// Node is a file or a directory.
type Node struct {
	Path string
	Dir  bool
	Perm FileMode
	Data []byte
}

// Disk is the state of the file system: the directories and files other than the root.
type Disk struct {
	Nodes   []*Node
	Changes int  // number of operations that changed something
	Fault   int  // the operation, counted from one, that fails; none if zero
	Ops     int  // number of operations
	Failed  bool // an operation has been made to fail
}

var disk *Disk

// New starts with an empty file system.
func New() *Disk {
	disk = &Disk{}
	disk.Nodes = []*Node{{Path: "/w", Dir: true, Perm: 0o755}}
	return disk
}

func abs(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = "/w/" + p
	}
	return path.Clean(p)
}

// Get is the node with a path, nil if there is none.
func (d *Disk) Get(p string) *Node {
	if p == "/" {
		return &Node{Path: "/", Dir: true, Perm: 0o777}
	}
	for _, n := range d.Nodes {
		if n.Path == p {
			return n
		}
	}
	return nil
}

// Put adds a node.
func (d *Disk) Put(p string, dir bool, perm FileMode) {
	d.Nodes = append(d.Nodes, &Node{Path: p, Dir: dir, Perm: perm})
}

// Copy is a copy of the nodes.
func (d *Disk) Copy() []Node {
	var r []Node
	for _, n := range d.Nodes {
		c := *n
		c.Data = append([]byte{}, n.Data...)
		r = append(r, c)
	}
	return r
}

func (d *Disk) remove(p string) {
	var r []*Node
	for _, n := range d.Nodes {
		if n.Path != p {
			r = append(r, n)
		}
	}
	d.Nodes = r
	d.Changes++
}

func (d *Disk) children(p string) []*Node {
	var r []*Node
	for _, n := range d.Nodes {
		if path.Dir(n.Path) == p {
			r = append(r, n)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Path < r[j].Path })
	return r
}

// op counts an operation and makes it fail if it is the one to fail.
func (d *Disk) op(name, p string) error {
	d.Ops++
	if d.Ops == d.Fault {
		d.Failed = true
		return &PathError{Op: name, Path: p, Err: eio}
	}
	if p == "" {
		return &PathError{Op: name, Path: p, Err: ErrNotExist}
	}
	return nil
}

// walk checks that the parents of p exist and can be searched.
func (d *Disk) walk(p string) error {
	for i := 1; i < len(p); i++ {
		if p[i] == '/' {
			n := d.Get(p[:i])
			if n == nil {
				return ErrNotExist
			}
			if !n.Dir {
				return enotdir
			}
			if n.Perm&0o100 == 0 {
				return ErrPermission
			}
		}
	}
	return nil
}

func (d *Disk) mayWrite(dir string) error {
	if n := d.Get(dir); n == nil || n.Perm&0o300 != 0o300 {
		return ErrPermission
	}
	return nil
}

func fail(op, p string, err error) error {
	if err == nil {
		return nil
	}
	if _, ok := err.(*PathError); ok {
		return err
	}
	return &PathError{Op: op, Path: p, Err: err}
}

type info struct{ n *Node }

func (i info) Name() string            { return path.Base(i.n.Path) }
func (i info) Size() int64             { return int64(len(i.n.Data)) }
func (i info) ModTime() time.Time      { return time.Time{} }
func (i info) IsDir() bool             { return i.n.Dir }
func (i info) Sys() any                { return nil }
func (i info) Info() (FileInfo, error) { return i, nil }
func (i info) Type() FileMode          { return i.Mode().Type() }
func (i info) Mode() FileMode {
	if i.n.Dir {
		return i.n.Perm | ModeDir
	}
	return i.n.Perm
}

func Stat(name string) (FileInfo, error) {
	p := abs(name)
	err := disk.op("stat", p)
	if err == nil {
		err = disk.walk(p)
	}
	if err == nil {
		if n := disk.Get(p); n != nil {
			return info{n}, nil
		}
		err = ErrNotExist
	}
	return nil, fail("stat", name, err)
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]DirEntry, error) {
	p := abs(name)
	err := disk.op("open", p)
	if err == nil {
		err = disk.walk(p)
	}
	if err == nil {
		n := disk.Get(p)
		switch {
		case n == nil:
			err = ErrNotExist
		case !n.Dir:
			err = enotdir
		case n.Perm&0o400 == 0:
			err = ErrPermission
		}
	}
	if err != nil {
		return nil, fail("open", name, err)
	}
	var r []DirEntry
	for _, c := range disk.children(p) {
		r = append(r, info{c})
	}
	return r, nil
}

func mkdir(p string, perm FileMode) error {
	if err := disk.walk(p); err != nil {
		return err
	}
	if disk.Get(p) != nil {
		return ErrExist
	}
	if err := disk.mayWrite(path.Dir(p)); err != nil {
		return err
	}
	disk.Put(p, true, perm&0o777)
	disk.Changes++
	return nil
}

func Mkdir(name string, perm FileMode) error {
	p := abs(name)
	err := disk.op("mkdir", p)
	if err == nil {
		err = mkdir(p, perm)
	}
	return fail("mkdir", name, err)
}

func MkdirAll(name string, perm FileMode) error {
	p := abs(name)
	if err := disk.op("mkdir", p); err != nil {
		return fail("mkdir", name, err)
	}
	for i := 1; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			if p[:i] == "/" {
				continue
			}
			if n := disk.Get(p[:i]); n != nil {
				if !n.Dir {
					return fail("mkdir", name, enotdir)
				}
				continue
			}
			if err := mkdir(p[:i], perm); err != nil {
				return fail("mkdir", name, err)
			}
		}
	}
	return nil
}

func removable(p string) error {
	if p == "/" {
		return ErrPermission
	}
	return disk.mayWrite(path.Dir(p))
}

func Remove(name string) error {
	p := abs(name)
	err := disk.op("remove", p)
	if err == nil {
		err = disk.walk(p)
	}
	if err == nil && disk.Get(p) == nil {
		err = ErrNotExist
	}
	if err == nil {
		err = removable(p)
	}
	if err == nil && len(disk.children(p)) > 0 {
		err = enotempty
	}
	if err == nil {
		disk.remove(p)
	}
	return fail("remove", name, err)
}

func removeAll(p string) error {
	n := disk.Get(p)
	if n == nil {
		return nil
	}
	kids := disk.children(p)
	if len(kids) > 0 && n.Perm&0o700 != 0o700 {
		return ErrPermission
	}
	for _, c := range kids {
		if err := removeAll(c.Path); err != nil {
			return err
		}
	}
	if err := removable(p); err != nil {
		return err
	}
	disk.remove(p)
	return nil
}

func RemoveAll(name string) error {
	if name == "" {
		return nil
	}
	if strings.HasSuffix(name, ".") && (len(name) == 1 || name[len(name)-2] == '/') {
		return fail("RemoveAll", name, ErrInvalid)
	}
	p := abs(name)
	err := disk.op("unlinkat", p)
	if err == nil {
		if e := disk.walk(p); e != nil && e != ErrNotExist {
			err = e
		} else if e == nil {
			err = removeAll(p)
		}
	}
	return fail("unlinkat", name, err)
}

func Rename(from, to string) error {
	p, q := abs(from), abs(to)
	err := disk.op("rename", p)
	if err == nil {
		err = disk.walk(p)
	}
	if err == nil {
		err = disk.walk(q)
	}
	n, old := disk.Get(p), disk.Get(q)
	switch {
	case err != nil:
	case n == nil:
		err = ErrNotExist
	case old != nil && old.Dir && (!n.Dir || len(disk.children(q)) > 0):
		err = enotempty
	case old != nil && !old.Dir && n.Dir:
		err = enotdir
	default:
		if err = removable(p); err == nil {
			err = disk.mayWrite(path.Dir(q))
		}
	}
	if err != nil {
		return fail("rename", from, err)
	}
	if p == q {
		return nil
	}
	if old != nil {
		disk.remove(q)
	}
	for _, c := range disk.Nodes {
		if c.Path == p || strings.HasPrefix(c.Path, p+"/") {
			c.Path = q + c.Path[len(p):]
		}
	}
	disk.Changes++
	return nil
}

func Chmod(name string, mode FileMode) error {
	p := abs(name)
	err := disk.op("chmod", p)
	if err == nil {
		err = disk.walk(p)
	}
	if err == nil {
		if n := disk.Get(p); n != nil {
			n.Perm = mode & 0o777
			disk.Changes++
			return nil
		}
		err = ErrNotExist
	}
	return fail("chmod", name, err)
}

func IsNotExist(err error) bool   { return is(err, ErrNotExist) }
func IsExist(err error) bool      { return is(err, ErrExist) || is(err, enotempty) }
func IsPermission(err error) bool { return is(err, ErrPermission) }

func is(err, want error) bool {
	if p, ok := err.(*PathError); ok {
		err = p.Err
	}
	return err == want
}

// File is an open file.
type File struct {
	n     *Node
	name  string
	flag  int
	pos   int
	close bool
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := abs(name)
	err := disk.op("open", p)
	if err == nil {
		err = disk.walk(p)
	}
	if err != nil {
		return nil, fail("open", name, err)
	}
	n := disk.Get(p)
	write := flag&3 != O_RDONLY
	switch {
	case n == nil && flag&O_CREATE == 0:
		err = ErrNotExist
	case n == nil:
		if err = disk.mayWrite(path.Dir(p)); err == nil {
			disk.Put(p, false, perm&0o777)
			disk.Changes++
			n = disk.Get(p)
		}
	case flag&O_CREATE != 0 && flag&O_EXCL != 0:
		err = ErrExist
	case n.Dir && write:
		err = eisdir
	case write && n.Perm&0o200 == 0, flag&3 != O_WRONLY && n.Perm&0o400 == 0:
		err = ErrPermission
	case flag&O_TRUNC != 0 && write:
		n.Data = nil
		disk.Changes++
	}
	if err != nil {
		return nil, fail("open", name, err)
	}
	return &File{n: n, name: name, flag: flag}, nil
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }
func (f *File) Sync() error  { return nil }

func (f *File) Stat() (FileInfo, error) { return info{f.n}, nil }

func (f *File) Close() error {
	if f.close {
		return fail("close", f.name, ErrClosed)
	}
	f.close = true
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.close {
		return 0, fail("write", f.name, ErrClosed)
	}
	if f.flag&3 == O_RDONLY {
		return 0, fail("write", f.name, ErrPermission)
	}
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.n.Data)
	}
	for len(f.n.Data) < f.pos {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = append(f.n.Data[:f.pos], b...)
	f.pos += len(b)
	disk.Changes++
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if f.n.Dir {
		return 0, fail("read", f.name, eisdir)
	}
	if f.pos >= len(f.n.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) ReadDir(int) ([]DirEntry, error) { return ReadDir(f.name) }

func (f *File) Readdirnames(int) ([]string, error) {
	var r []string
	es, err := ReadDir(f.name)
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err == nil {
		_, err = f.Write(data)
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	if f.n.Dir {
		return nil, fail("read", name, eisdir)
	}
	return append([]byte{}, f.n.Data...), nil
}

func Getwd() (string, error)       { return "/w", nil }
func Getenv(string) string         { return "" }
func TempDir() string              { return "/tmp" }
func Getpid() int                  { return 1 }
func Exit(int)                     { panic("exit") }
func IsPathSeparator(c uint8) bool { return c == '/' }
