package syscall

// VerifHook, when set, is called in place of the operations that change
// files. do performs the operation.
var VerifHook func(op string, fd int, path, path2 string, flags int, p []byte, off int64, do func() (int, error)) (int, error)

func verif(op string, fd int, path, path2 string, flags int, p []byte, off int64, do func() (int, error)) (int, error) {
	if h := VerifHook; h != nil {
		return h(op, fd, path, path2, flags, p, off, do)
	}
	return do()
}

func Write(fd int, p []byte) (n int, err error) {
	if VerifHook == nil || fd <= 2 {
		return vWrite(fd, p)
	}
	return verif("write", fd, "", "", 0, p, -1, func() (int, error) { return vWrite(fd, p) })
}

func Pwrite(fd int, p []byte, offset int64) (n int, err error) {
	return verif("pwrite", fd, "", "", 0, p, offset, func() (int, error) { return vPwrite(fd, p, offset) })
}

func Open(path string, mode int, perm uint32) (fd int, err error) {
	return verif("open", -1, path, "", mode, nil, 0, func() (int, error) { return vOpen(path, mode, perm) })
}

func Ftruncate(fd int, length int64) (err error) {
	_, err = verif("ftruncate", fd, "", "", 0, nil, length, func() (int, error) { return 0, vFtruncate(fd, length) })
	return
}

func Truncate(path string, length int64) (err error) {
	_, err = verif("truncate", -1, path, "", 0, nil, length, func() (int, error) { return 0, vTruncate(path, length) })
	return
}

func Mkdir(path string, mode uint32) (err error) {
	_, err = verif("mkdir", -1, path, "", 0, nil, 0, func() (int, error) { return 0, vMkdir(path, mode) })
	return
}

func Rename(oldpath string, newpath string) (err error) {
	_, err = verif("rename", -1, oldpath, newpath, 0, nil, 0, func() (int, error) { return 0, vRename(oldpath, newpath) })
	return
}

func Unlink(path string) (err error) {
	_, err = verif("unlink", -1, path, "", 0, nil, 0, func() (int, error) { return 0, vUnlink(path) })
	return
}

func Rmdir(path string) (err error) {
	_, err = verif("rmdir", -1, path, "", 0, nil, 0, func() (int, error) { return 0, vRmdir(path) })
	return
}

func Link(oldpath string, newpath string) (err error) {
	_, err = verif("link", -1, oldpath, newpath, 0, nil, 0, func() (int, error) { return 0, vLink(oldpath, newpath) })
	return
}

func Read(fd int, p []byte) (n int, err error) {
	if VerifHook == nil || fd <= 2 {
		return vRead(fd, p)
	}
	return verif("read", fd, "", "", 0, p, -1, func() (int, error) { return vRead(fd, p) })
}

func Pread(fd int, p []byte, offset int64) (n int, err error) {
	return verif("pread", fd, "", "", 0, p, offset, func() (int, error) { return vPread(fd, p, offset) })
}

// VerifWrite is Write without the hook.
func VerifWrite(fd int, p []byte) (int, error) { return vWrite(fd, p) }

// VerifRead is Read without the hook.
func VerifRead(fd int, p []byte) (int, error) { return vRead(fd, p) }

// VerifPread is Pread without the hook.
func VerifPread(fd int, p []byte, off int64) (int, error) { return vPread(fd, p, off) }
