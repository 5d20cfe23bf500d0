// Simulated-kernel seam. Added to package syscall through a build overlay by
// the checks in /verif; it is never part of a shipped build. Paths below
// VerifPrefix and descriptors from VerifFDBase up go to VerifK.
package syscall

type VerifKernel interface {
	Open(path string, flags int, mode uint32) (int, Errno)
	Close(fd int) Errno
	Read(fd int, p []byte) (int, Errno)
	Write(fd int, p []byte) (int, Errno)
	Pread(fd int, p []byte, off int64) (int, Errno)
	Pwrite(fd int, p []byte, off int64) (int, Errno)
	Seek(fd int, off int64, whence int) (int64, Errno)
	Fsync(fd int) Errno
	Ftruncate(fd int, n int64) Errno
	Fstat(fd int, st *Stat_t) Errno
	Stat(path string, st *Stat_t) Errno
	Unlink(path string, dir bool) Errno
	Rename(from, to string) Errno
	Mkdir(path string) Errno
	Truncate(path string, n int64) Errno
	Fallocate(fd int, mode uint32, off, n int64) Errno
}

const (
	VerifPrefix = "/simfs"
	VerifFDBase = 1 << 20
)

var VerifK VerifKernel

// VerifPid, when not 0, is the number of the simulated process.
var VerifPid int

// VerifCwd says that relative paths are simulated too.
var VerifCwd bool

func verifPath(p string) bool {
	if VerifCwd && VerifK != nil && len(p) > 0 && p[0] != '/' {
		return true
	}
	return VerifK != nil && len(p) >= len(VerifPrefix) && p[:len(VerifPrefix)] == VerifPrefix &&
		(len(p) == len(VerifPrefix) || p[len(VerifPrefix)] == '/')
}

func verifErr(e Errno) error {
	if e == 0 {
		return nil
	}
	return errnoErr(e)
}
