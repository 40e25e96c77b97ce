package model

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"dupiverif/fw"
)

// IsEOF reports end of data.
func IsEOF(err error) bool { return err == io.EOF }

// Snap describes everything below a directory (or one file).
type Snap map[string]string

// Snapshot takes note of names, kinds, permissions and contents.
func Snapshot(root string) Snap {
	s := Snap{}
	filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			if _, lerr := os.Lstat(p); lerr != nil {
				return nil
			}
			s[p] += " unreadable"
			return nil
		}
		fi, err := e.Info()
		if err != nil {
			return nil
		}
		d := fi.Mode().String()
		switch {
		case fi.Mode().IsRegular():
			h := "unreadable"
			if fi.Size() > 1<<30 {
				h = fmt.Sprintf("%d bytes", fi.Size())
			} else if b, err := os.ReadFile(p); err == nil {
				h = fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b))
			}
			d += " " + h
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			d += " -> " + l
		}
		s[p] = d
		return nil
	})
	return s
}

// Diff lists what differs, apart from names allow accepts.
func (s Snap) Diff(t Snap, allow func(p string) bool) string {
	var out []string
	for p, d := range s {
		if allow != nil && allow(p) {
			continue
		}
		if e, ok := t[p]; !ok {
			out = append(out, "gone: "+p)
		} else if e != d {
			out = append(out, fmt.Sprintf("changed: %s: %s, was %s", p, e, d))
		}
	}
	for p := range t {
		if allow != nil && allow(p) {
			continue
		}
		if _, ok := s[p]; !ok {
			out = append(out, "new: "+p)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// CopyTree copies files and directories.
func CopyTree(from, to string) {
	err := filepath.WalkDir(from, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		q := filepath.Join(to, rel)
		fi, err := e.Info()
		if err != nil {
			return err
		}
		if e.IsDir() {
			return os.Mkdir(q, fi.Mode().Perm()|0700)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, fi.Mode().Perm())
	})
	if err != nil {
		fw.Broken("copying %s: %v", from, err)
	}
}

// Fds lists the open descriptors of this process and what they refer to.
func Fds() map[string]string {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fw.Broken("cannot list descriptors: %v", err)
	}
	m := map[string]string{}
	for _, d := range ds {
		l, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err != nil || strings.HasPrefix(l, "anon_inode:") || strings.HasSuffix(l, "/fd") {
			continue // gone, of the runtime, or of the listing itself
		}
		m[d.Name()] = l
	}
	return m
}

// Leaks describes descriptors below dir in b that were not in a.
func Leaks(a, b map[string]string, dir string) string {
	var out []string
	for n, l := range b {
		if a[n] != l && strings.HasPrefix(l, dir) {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// GoroutinesIn counts goroutines running or created by the code under test.
func GoroutinesIn(pkg string) (int, string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	k := 0
	var ex []string
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // this one
		}
		if strings.Contains(g, pkg) {
			k++
			if len(ex) < 2 {
				if len(g) > 600 {
					g = g[:600]
				}
				ex = append(ex, g)
			}
		}
	}
	return k, strings.Join(ex, "\n")
}

// SettleGoroutines waits until at most n goroutines of the code under test
// remain and describes those that stay.
func SettleGoroutines(pkg string, n int) string {
	for i := 0; ; i++ {
		k, ex := GoroutinesIn(pkg)
		if k <= n {
			return ""
		}
		if i == 400 {
			return fmt.Sprintf("%d goroutines remain:\n%s", k-n, ex)
		}
		runtime.Gosched()
		time.Sleep(time.Duration(i) * 200 * time.Microsecond)
	}
}

// LockFree tries the lock file at p without waiting.
func LockFree(p string) bool {
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR) {
		return true
	}
	if err != nil {
		fw.Broken("lock file: %v", err)
	}
	defer f.Close()
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
		return false
	}
	return true
}
