package vsched

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

// FS, if set, gives every tagged goroutine (see SetTag) its own file system: a
// directory of the real one, with its own current directory. It stands for the
// separate machines finch's instances run on.
var FS *VFS

// VFS is a set of file systems below Root, one per tag.
type VFS struct {
	Root string
	mu   sync.Mutex
	cwd  map[string]string
	// Reads and Writes are the (virtual) paths opened, by tag.
	Log []FSOp
}

type FSOp struct{ Tag, Op, Path string }

func tagged() (*VFS, string) {
	v := FS
	if v == nil {
		return nil, ""
	}
	t := Tag()
	if t == "" {
		return nil, ""
	}
	return v, t
}

func (v *VFS) abs(tag, p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	d := v.cwd[tag]
	if d == "" {
		d = "/"
	}
	return filepath.Join(d, p)
}

// Real is the real path of the path p of tag's file system.
func (v *VFS) Real(tag, p string) string { return filepath.Join(v.Root, tag, v.abs(tag, p)) }

func real(op, p string) string {
	v, t := tagged()
	if v == nil {
		return p
	}
	v.mu.Lock()
	if len(v.Log) < 10000 {
		v.Log = append(v.Log, FSOp{t, op, p})
	}
	v.mu.Unlock()
	return v.Real(t, p)
}

func virtual(p string) string {
	v, t := tagged()
	if v == nil {
		return p
	}
	return "/" + strings.TrimPrefix(strings.TrimPrefix(p, filepath.Join(v.Root, t)), "/")
}

// Chtag sets the current directory of tag.
func (v *VFS) Chtag(tag, dir string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.cwd == nil {
		v.cwd = map[string]string{}
	}
	v.cwd[tag] = dir
}

// OSHostname is the part of the tag before #, if there are simulated machines.
func OSHostname() (string, error) {
	if v, t := tagged(); v != nil {
		return strings.Split(t, "#")[0], nil
	}
	return os.Hostname()
}

func OSOpen(p string) (*os.File, error) { return os.Open(real("open", p)) }
func OSOpenFile(p string, flag int, m os.FileMode) (*os.File, error) {
	return os.OpenFile(real("openfile", p), flag, m)
}
func OSCreate(p string) (*os.File, error)      { return os.Create(real("create", p)) }
func OSReadFile(p string) ([]byte, error)      { return os.ReadFile(real("read", p)) }
func OSStat(p string) (fs.FileInfo, error)     { return os.Stat(real("stat", p)) }
func OSLstat(p string) (fs.FileInfo, error)    { return os.Lstat(real("stat", p)) }
func OSMkdir(p string, m os.FileMode) error    { return os.Mkdir(real("mkdir", p), m) }
func OSMkdirAll(p string, m os.FileMode) error { return os.MkdirAll(real("mkdir", p), m) }
func OSRemove(p string) error                  { return os.Remove(real("remove", p)) }
func OSRemoveAll(p string) error               { return os.RemoveAll(real("remove", p)) }
func OSChmod(p string, m os.FileMode) error    { return os.Chmod(real("chmod", p), m) }
func OSRename(p, q string) error               { return os.Rename(real("rename", p), real("create", q)) }
func OSReadDir(p string) ([]os.DirEntry, error) {
	return os.ReadDir(real("read", p))
}
func OSWriteFile(p string, b []byte, m os.FileMode) error {
	return os.WriteFile(real("write", p), b, m)
}

func OSTempDir() string {
	if v, _ := tagged(); v == nil {
		return os.TempDir()
	}
	return "/tmp"
}

func OSMkdirTemp(d, pat string) (string, error) {
	v, _ := tagged()
	if v == nil {
		return os.MkdirTemp(d, pat)
	}
	if d == "" {
		d = "/tmp"
	}
	r, err := os.MkdirTemp(real("mkdir", d), pat)
	if err != nil {
		return "", err
	}
	return virtual(r), nil
}

func OSCreateTemp(d, pat string) (*os.File, error) {
	v, _ := tagged()
	if v == nil {
		return os.CreateTemp(d, pat)
	}
	if d == "" {
		d = "/tmp"
	}
	return os.CreateTemp(real("create", d), pat)
}

func OSGetwd() (string, error) {
	v, t := tagged()
	if v == nil {
		return os.Getwd()
	}
	return v.abs(t, "."), nil
}

func OSChdir(p string) error {
	v, t := tagged()
	if v == nil {
		return os.Chdir(p)
	}
	d := v.abs(t, p)
	fi, err := os.Stat(v.Real(t, d))
	if err != nil {
		return err
	}
	if !fi.IsDir() {
		return &fs.PathError{Op: "chdir", Path: p, Err: os.ErrInvalid}
	}
	v.Chtag(t, d)
	return nil
}

func FilepathAbs(p string) (string, error) {
	v, t := tagged()
	if v == nil {
		return filepath.Abs(p)
	}
	return v.abs(t, p), nil
}
