// Package simsyscall replaces the parts of syscall that act on the system; constants,
// error numbers and types are the real ones.
package simsyscall

import (
	"syscall"

	"vsim/simos"
)

func errno(err error) error {
	type unwrapper interface{ Unwrap() error }
	for err != nil {
		if e, ok := err.(syscall.Errno); ok {
			return e
		}
		u, ok := err.(unwrapper)
		if !ok {
			return syscall.EIO
		}
		err = u.Unwrap()
	}
	return nil
}

func Unlink(p string) error                { return errno(simos.Remove(p)) }
func Rmdir(p string) error                 { return errno(simos.Remove(p)) }
func Mkdir(p string, mode uint32) error    { return errno(simos.Mkdir(p, 0o700)) }
func Rename(a, b string) error             { return errno(simos.Rename(a, b)) }
func Truncate(p string, n int64) error     { return errno(simos.Truncate(p, n)) }
func Chmod(p string, mode uint32) error    { return errno(simos.Chmod(p, 0)) }
func Access(p string, mode uint32) error   { _, err := simos.Stat(p); return errno(err) }
func Kill(pid int, s syscall.Signal) error { return simos.KillPid(pid) }
func Flock(fd int, how int) error          { return nil }
func Fsync(fd int) error                   { return nil }
func Getpid() int                          { return simos.Getpid() }
func Getppid() int                         { return simos.Getppid() }
func Getuid() int                          { return simos.Getuid() }
func Exit(code int)                        { simos.Exit(code) }
func Getenv(k string) (string, bool)       { return simos.LookupEnv(k) }
func Setenv(k, v string) error             { return simos.Setenv(k, v) }
func Sync()                                {}
func Open(p string, mode int, perm uint32) (int, error) {
	return -1, syscall.ENOSYS
}
func Exec(p string, argv, envv []string) error { return syscall.ENOSYS }
func ForkExec(p string, argv []string, attr *syscall.ProcAttr) (int, error) {
	return 0, syscall.ENOSYS
}

// VrtShim marks the simulated package.
const VrtShim = 0
