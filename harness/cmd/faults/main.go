// Command faults holds the checks that watch and refuse operations on files.
// It is built with a standard library which has hooks (overlay).
package main

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"dupiverif/fw"
)

var props []*fw.Prop

func main() { fw.Main(props, nil) }

// op is one operation that was performed.
type op struct {
	kind        string // open write truncate mkdir rename unlink rmdir link
	path, path2 string
	flags       int
	off         int64
	data        []byte
}

// watcher sees the operations on everything below a directory.
type watcher struct {
	mu    sync.Mutex
	base  string
	paths map[int]string
	ops   []op
	odd   string // something it cannot follow
	// fault decides whether the operation fails instead; nil: never
	fault func(kind, path string, n int) (error, int)
	reads bool
	quiet bool // record nothing
	count int
}

func watch(base string, reads bool) *watcher {
	w := &watcher{base: base, paths: map[int]string{}, reads: reads}
	syscall.VerifHook = w.hook
	return w
}

func (w *watcher) stop() { syscall.VerifHook = nil }

func (w *watcher) below(p string) (string, bool) {
	if p == "" {
		return "", false
	}
	if !strings.HasPrefix(p, "/") {
		wd, err := os.Getwd()
		if err != nil {
			return "", false
		}
		p = wd + "/" + p
	}
	p = filepath.Clean(p)
	return p, strings.HasPrefix(p, w.base+"/")
}

func (w *watcher) hook(kind string, fd int, path, path2 string, flags int, p []byte, off int64, do func() (int, error)) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	in := false
	if fd >= 0 {
		path, in = w.paths[fd]
	} else {
		path, in = w.below(path)
	}
	if path2 != "" {
		var in2 bool
		path2, in2 = w.below(path2)
		in = in || in2
	}
	if !in {
		n, err := do()
		if kind == "open" && err == nil {
			delete(w.paths, n)
		}
		return n, err
	}
	read := kind == "read" || kind == "pread" || kind == "open" && flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) == 0
	if w.fault != nil && (!read || w.reads) {
		if err, short := w.fault(kind, path, len(p)); err != nil {
			if short > 0 && short < len(p) { // a part is written
				if kind == "write" {
					n, e := syscall.VerifWrite(fd, p[:short])
					if e == nil {
						cur, _ := syscall.Seek(fd, 0, 1)
						w.ops = append(w.ops, op{kind: "write", path: path, off: cur - int64(n), data: append([]byte{}, p[:n]...)})
						return n, err
					}
				}
			}
			return -1, err
		} else if short > 0 && short < len(p) && read { // a part is read
			if kind == "read" {
				return syscall.VerifRead(fd, p[:short])
			}
			return syscall.VerifPread(fd, p[:short], off)
		}
	}
	n, err := do()
	w.count++
	if kind == "open" {
		if err == nil {
			w.paths[n] = path
		}
	}
	if w.quiet || err != nil || read && kind != "open" {
		return n, err
	}
	switch kind {
	case "open":
		if !read {
			w.ops = append(w.ops, op{kind: "open", path: path, flags: flags})
		}
	case "write":
		cur, e := syscall.Seek(fd, 0, 1)
		if e != nil {
			w.odd = "write to " + path
			break
		}
		w.ops = append(w.ops, op{kind: "write", path: path, off: cur - int64(n), data: append([]byte{}, p[:n]...)})
	case "pwrite":
		w.ops = append(w.ops, op{kind: "write", path: path, off: off, data: append([]byte{}, p[:n]...)})
	case "ftruncate", "truncate":
		w.ops = append(w.ops, op{kind: "truncate", path: path, off: off})
	default:
		w.ops = append(w.ops, op{kind: kind, path: path, path2: path2})
		for fd, p := range w.paths {
			if p == path && kind == "rename" {
				w.paths[fd] = path2
			} else if p == path && kind == "unlink" {
				delete(w.paths, fd)
			}
		}
	}
	return n, err
}

// image is the state of a directory.
type image struct {
	files map[string][]byte
	dirs  map[string]bool
	dirty map[string]bool
}

func newImage() *image {
	return &image{files: map[string][]byte{}, dirs: map[string]bool{}, dirty: map[string]bool{}}
}

// load reads everything below base.
func (m *image) load(base string) {
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if p == base {
			return nil
		}
		if fi.IsDir() {
			m.dirs[p] = true
			return nil
		}
		d, err := os.ReadFile(p)
		m.files[p] = d
		return err
	})
	if err != nil {
		fw.Broken("%v", err)
	}
}

func (m *image) apply(o *op) {
	m.dirty[o.path] = true
	switch o.kind {
	case "open":
		if _, ok := m.files[o.path]; !ok && o.flags&syscall.O_CREAT != 0 || o.flags&syscall.O_TRUNC != 0 {
			m.files[o.path] = nil
		}
	case "write":
		d := m.files[o.path]
		if need := int(o.off) + len(o.data); need > len(d) {
			if need > cap(d) {
				nd := make([]byte, len(d), 2*need+1024)
				copy(nd, d)
				d = nd
			}
			old := len(d)
			d = d[:need]
			for i := old; i < need; i++ {
				d[i] = 0
			}
		}
		copy(d[o.off:], o.data)
		m.files[o.path] = d
	case "truncate":
		d := m.files[o.path]
		if int(o.off) <= len(d) {
			m.files[o.path] = d[:o.off:o.off]
		} else {
			m.files[o.path] = append(d[:len(d):len(d)], make([]byte, int(o.off)-len(d))...)
		}
	case "mkdir":
		m.dirs[o.path] = true
	case "rename":
		m.dirty[o.path2] = true
		if d, ok := m.files[o.path]; ok {
			m.files[o.path2] = d
			delete(m.files, o.path)
			break
		}
		pre := o.path + "/"
		for p, d := range m.files {
			if strings.HasPrefix(p, pre) {
				m.files[o.path2+"/"+p[len(pre):]] = d
				delete(m.files, p)
			}
		}
		for p := range m.dirs {
			if p == o.path || strings.HasPrefix(p, pre) {
				m.dirs[o.path2+p[len(o.path):]] = true
				delete(m.dirs, p)
			}
		}
	case "link":
		m.files[o.path2] = m.files[o.path]
	case "unlink":
		delete(m.files, o.path)
	case "rmdir":
		delete(m.dirs, o.path)
	}
}

// dump writes the image, which was below base, below dir.
func (m *image) dump(base, dir string) {
	at := func(p string) string { return dir + p[len(base):] }
	for p := range m.dirs {
		if err := os.MkdirAll(at(p), 0755); err != nil {
			fw.Broken("%v", err)
		}
	}
	for p, d := range m.files {
		if err := os.WriteFile(at(p), d, 0644); err != nil {
			fw.Broken("%v", err)
		}
	}
}

// differs describes a difference between images, or is empty.
func (m *image) differs(o *image) string {
	for p := range m.dirs {
		if !o.dirs[p] {
			return "directory " + p
		}
	}
	for p, d := range m.files {
		e, ok := o.files[p]
		if !ok || string(d) != string(e) {
			return "file " + p
		}
	}
	if len(m.files) != len(o.files) || len(m.dirs) != len(o.dirs) {
		return "more files"
	}
	return ""
}
