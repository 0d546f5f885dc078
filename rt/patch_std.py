# Executed by tool/overlay.py with rep/get/out/VERIF: seams for the operating
# system interface. Virtual descriptors start at 1<<20; everything else goes to
# the real system untouched.
G = "\tif SimH != nil && fd >= SimFD {\n\t\treturn SimH.%s\n\t}\n"

out["syscall/zz_sim.go"] = """package syscall

// SimFD is the first virtual file descriptor.
const SimFD = 1 << 20

// SimHooks implements virtual files. The path functions report whether the
// path is virtual.
type SimHooks struct {
	Open      func(path string, mode int, perm uint32) (fd int, err error, ok bool)
	Stat      func(path string, st *Stat_t) (err error, ok bool)
	Unlink    func(path string) (err error, ok bool)
	Rename    func(a, b string) (err error, ok bool)
	Truncate  func(path string, n int64) (err error, ok bool)
	Read      func(fd int, p []byte) (int, error)
	Write     func(fd int, p []byte) (int, error)
	Pread     func(fd int, p []byte, off int64) (int, error)
	Pwrite    func(fd int, p []byte, off int64) (int, error)
	Close     func(fd int) error
	Seek      func(fd int, off int64, whence int) (int64, error)
	Fstat     func(fd int, st *Stat_t) error
	Ftruncate func(fd int, n int64) error
	Fsync     func(fd int) error
}

// SimH, when set, handles virtual files.
var SimH *SimHooks
"""

L = "syscall/syscall_linux.go"
U = "syscall/syscall_unix.go"
Z = "syscall/zsyscall_linux_amd64.go"
A = "syscall/syscall_linux_amd64.go"


def fn(rel, sig, body):
    rep(rel, sig + " {\n", sig + " {\n" + body)


def path(call):
    return "\tif SimH != nil {\n\t\tif err, ok := SimH.%s; ok {\n\t\t\treturn err\n\t\t}\n\t}\n" % call


fn(L, "func Open(path string, mode int, perm uint32) (fd int, err error)",
   "\tif SimH != nil {\n\t\tif fd, err, ok := SimH.Open(path, mode, perm); ok {\n\t\t\treturn fd, err\n\t\t}\n\t}\n")
fn(U, "func Read(fd int, p []byte) (n int, err error)", G % "Read(fd, p)")
fn(U, "func Write(fd int, p []byte) (n int, err error)", G % "Write(fd, p)")
fn(U, "func Pread(fd int, p []byte, offset int64) (n int, err error)", G % "Pread(fd, p, offset)")
fn(U, "func Pwrite(fd int, p []byte, offset int64) (n int, err error)", G % "Pwrite(fd, p, offset)")
fn(Z, "func Close(fd int) (err error)", G % "Close(fd)")
fn(Z, "func Seek(fd int, offset int64, whence int) (off int64, err error)", G % "Seek(fd, offset, whence)")
fn(Z, "func Fstat(fd int, stat *Stat_t) (err error)", G % "Fstat(fd, stat)")
fn(Z, "func Ftruncate(fd int, length int64) (err error)", G % "Ftruncate(fd, length)")
fn(Z, "func Fsync(fd int) (err error)", G % "Fsync(fd)")
fn(Z, "func Fdatasync(fd int) (err error)", G % "Fsync(fd)")
fn(Z, "func Truncate(path string, length int64) (err error)", path("Truncate(path, length)"))
fn(L, "func Rename(oldpath string, newpath string) (err error)", path("Rename(oldpath, newpath)"))
fn(L, "func Unlink(path string) error", path("Unlink(path)"))
fn(A, "func Stat(path string, stat *Stat_t) (err error)", path("Stat(path, stat)"))
fn(A, "func Lstat(path string, stat *Stat_t) (err error)", path("Stat(path, stat)"))

# Process exit ends the calling client of the simulated process.
out["os/zz_sim.go"] = "package os\n\n// SimExit, when set, is called in place of ending the process; it does not return.\nvar SimExit func(code int)\n"
rep("os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n")

# The network.
out["net/zz_sim.go"] = "package net\n\n// SimDial, when set, makes every connection.\nvar SimDial func(network, address string) (Conn, error)\n"
rep("net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
    "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
    "\tif SimDial != nil {\n\t\treturn SimDial(network, address)\n\t}\n")

# Pools keep a per-run LIFO list, so that what a Get returns depends on the run only.
S = "sync/pool.go"
rep(S, "\tNew func() any\n}\n",
    "\tNew func() any\n\n\tsimRun  uint64\n\tsimHead *simNode\n}\n\ntype simNode struct {\n\tx    any\n\tnext *simNode\n}\n")
ANCHOR = "\tif x == nil {\n\t\treturn\n\t}\n\tif race.Enabled {\n\t\tif runtime_randn"
rep(S, ANCHOR, ANCHOR.replace("\tif race.Enabled", """\tif id := runtime.SimRunID(); id != 0 {
\t\tif race.Enabled {
\t\t\trace.ReleaseMerge(poolRaceAddr(x))
\t\t\trace.Disable()
\t\t}
\t\tif p.simRun != id {
\t\t\tp.simRun, p.simHead = id, nil
\t\t}
\t\tp.simHead = &simNode{x, p.simHead}
\t\tif race.Enabled {
\t\t\trace.Enable()
\t\t}
\t\treturn
\t}
\tif race.Enabled"""))
rep(S, "func (p *Pool) Get() any {\n", """func (p *Pool) Get() any {
\tif id := runtime.SimRunID(); id != 0 {
\t\tif n := p.simHead; n != nil && p.simRun == id {
\t\t\tp.simHead = n.next
\t\t\tif race.Enabled {
\t\t\t\trace.Acquire(poolRaceAddr(n.x))
\t\t\t}
\t\t\treturn n.x
\t\t}
\t\tif p.New == nil {
\t\t\treturn nil
\t\t}
\t\treturn p.New()
\t}
""")
