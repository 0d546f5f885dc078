//go:build go1.22

package kit

import (
	"os"
	pathpkg "path"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

// The simulated disk: files below /zzsim/. Their contents are the durable
// state that survives a crash of the simulated process.

const DiskRoot = "/zzsim/"

// DiskFaults are the fault rates of a run, in 1/1000 per operation.
type DiskFaults struct {
	Short, EINTR, EIO, OpenErr int
	Capacity                   int // bytes; 0 is unlimited
	Latency                    int // extra scheduling points per operation; 2 and more: time may pass, too
}

type vfile struct {
	path string
	data []byte
	busy bool
	gone bool
	perm uint32
}

type vfd struct {
	fd     int
	f      *vfile
	flags  int
	off    int
	closed bool
	proc   int
}

var (
	diskFiles  []*vfile
	diskFDs    []*vfd
	diskNextFD = syscall.SimFD
	diskProc   int
	diskPolicy DiskFaults
	diskOpen   int

	faShortW   = Ctr("fault.disk_short_write")
	faEINTR    = Ctr("fault.disk_interrupted_call")
	faEIO      = Ctr("fault.disk_io_error")
	faENOSPC   = Ctr("fault.disk_full")
	faSlowDisk = Ctr("fault.disk_stalls_while_time_passes")
	faOpenErr  = Ctr("fault.disk_open_error")
	faShortR   = Ctr("fault.disk_short_read")
	faTornW    = Ctr("fault.torn_write_at_crash")
	faCrash    = Ctr("fault.process_crash")
)

func init() {
	SetupRun = append(SetupRun, func() {
		diskMembers = nil
		diskFiles, diskFDs, diskProc, diskPolicy, diskOpen = nil, nil, 0, DiskFaults{}, 0
		diskTrack, diskStates, diskHard = "", nil, nil
		os.SimExit = nil
	})
	syscall.SimH = &syscall.SimHooks{
		Open: diskOpenFn, Stat: diskStatFn, Unlink: diskUnlink, Rename: diskRename, Truncate: diskTruncate,
		Read: diskRead, Write: diskWrite, Pread: diskPread, Pwrite: diskPwrite, Close: diskClose, Seek: diskSeek,
		Fstat: diskFstat, Ftruncate: diskFtruncate, Fsync: diskFsync,
	}
}

// DiskState is the content of the tracked file from Seq on.
type DiskState struct {
	Seq     uint64
	Data    []byte
	Exists  bool
	InPlace bool // changed in place: a reader may have seen a mixture
}

var (
	diskTrack  string
	diskStates []DiskState
	diskHard   []uint64 // when a call failed for good
)

const (
	evDiskState = 1000
	evDiskFault = 1001
)

// DiskTrack records the states a file goes through.
//
//go:norace
func DiskTrack(path string) { diskTrack = path; diskChanged(path, false) }

// DiskStates returns the recorded states and when calls failed for good.
//
//go:norace
func DiskStates() ([]DiskState, []uint64) { return diskStates, diskHard }

//go:norace
func diskChanged(path string, inPlace bool) {
	if path != diskTrack || diskTrack == "" {
		return
	}
	s := DiskState{Seq: Log(evDiskState, int64(len(diskStates)), 0, 0), InPlace: inPlace}
	if f := lookup(path); f != nil {
		s.Exists, s.Data = true, append([]byte(nil), f.data...)
	}
	diskStates = append(diskStates, s)
}

//go:norace
func hardFault() {
	if diskTrack != "" {
		diskHard = append(diskHard, Log(evDiskFault, 0, 0, 0))
	}
}

//go:norace
func DiskSetFaults(f DiskFaults) { diskPolicy = f }

// DiskPut creates a file.
//
//go:norace
func DiskPut(path string, data []byte) {
	diskFiles = append(diskFiles, &vfile{path: path, data: append([]byte(nil), data...)})
}

// DiskReplace puts another file in the place of one, at once.
//
//go:norace
func DiskReplace(path string, data []byte) {
	DiskRemove(path)
	DiskPut(path, data)
}

//go:norace
func DiskRemove(path string) {
	if f := lookup(path); f != nil {
		f.gone = true
	}
}

// DiskNames lists the files of a directory.
//
//go:norace
func DiskNames(dir string) (l []string) {
	for _, f := range diskFiles {
		if n, ok := strings.CutPrefix(f.path, dir+"/"); ok && !f.gone && !strings.Contains(n, "/") {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// DiskExit ends the current process, which has left by itself: what its
// deferred functions do has no effect.
//
//go:norace
func DiskExit() { diskProc++ }

// DiskGet returns a file's durable content.
//
//go:norace
func DiskGet(path string) ([]byte, bool) {
	if f := lookup(path); f != nil {
		return f.data, true
	}
	return nil, false
}

// DiskCrash ends the current simulated process: its descriptors are dead, and
// a write in progress stays torn.
//
//go:norace
func DiskCrash() {
	Hit(faCrash)
	for _, f := range diskFiles {
		if f.busy {
			Hit(faTornW)
			f.busy = false
		}
	}
	diskProc++
}

type member struct {
	g    int32
	proc int
}

var diskMembers []member

// DiskJoin makes the calling goroutine part of simulated process p: what it
// does after p has crashed has no effect.
//
//go:norace
func DiskJoin(p int) { diskMembers = append(diskMembers, member{runtime.SimSelf(), p}) }

//go:norace
func myProc() int {
	g := runtime.SimSelf()
	for _, m := range diskMembers {
		if m.g == g {
			return m.proc
		}
	}
	return diskProc
}

// DiskProc numbers the current simulated process.
//
//go:norace
func DiskProc() int { return diskProc }

// DiskPerm returns the permissions a file was created with.
//
//go:norace
func DiskPerm(path string) uint32 {
	if f := lookup(path); f != nil {
		return f.perm
	}
	return 0
}

// DiskOpenFDs counts the descriptors the current process has open.
//
//go:norace
func DiskOpenFDs() int {
	n := 0
	for _, d := range diskFDs {
		if !d.closed && d.proc == diskProc {
			n++
		}
	}
	return n
}

//go:norace
func lookup(path string) *vfile {
	for _, f := range diskFiles {
		if f.path == path && !f.gone {
			return f
		}
	}
	return nil
}

//go:norace
func getfd(fd int) *vfd {
	for _, d := range diskFDs {
		if d.fd == fd && !d.closed {
			return d
		}
	}
	return nil
}

//go:norace
func latency() {
	SimPoint()
	for i := 0; i < diskPolicy.Latency; i++ {
		runtime.SimYield()
	}
	if diskPolicy.Latency > 1 && slowNS > 0 && simulating && Rnd(3) == 0 {
		Hit(faSlowDisk)
		Stall(1)
	}
}

// SimPoint is a scheduling point of a device.
func SimPoint() { runtime.SimYield() }

//go:norace
func roll(p int) bool { return p > 0 && Rnd(1000) < p }

// DiskCwd is the working directory of the simulated process, if it has one.
var DiskCwd string

//go:norace
func absolute(path string) string {
	if DiskCwd == "" || path == "" || path[0] == '/' {
		return path
	}
	return pathpkg.Join(DiskCwd, path)
}

//go:norace
func diskOpenFn(path string, mode int, perm uint32) (int, error, bool) {
	path = absolute(path)
	if !strings.HasPrefix(path, DiskRoot) {
		return 0, nil, false
	}
	proc := myProc()
	latency()
	if proc != diskProc {
		return -1, syscall.EIO, true // the process is dead
	}
	if roll(diskPolicy.OpenErr) {
		Hit(faOpenErr)
		hardFault()
		return -1, []error{syscall.EACCES, syscall.EMFILE, syscall.ENOSPC, syscall.EIO}[Rnd(4)], true
	}
	f := lookup(path)
	if f == nil {
		if mode&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT, true
		}
		f = &vfile{path: path, perm: perm}
		diskFiles = append(diskFiles, f)
	} else if mode&syscall.O_EXCL != 0 && mode&syscall.O_CREAT != 0 {
		return -1, syscall.EEXIST, true
	}
	if mode&syscall.O_TRUNC != 0 {
		f.data = nil
	}
	if mode&(syscall.O_TRUNC|syscall.O_CREAT) != 0 {
		diskChanged(path, true)
	}
	diskNextFD++
	diskFDs = append(diskFDs, &vfd{fd: diskNextFD, f: f, flags: mode, proc: proc})
	return diskNextFD, nil, true
}

//go:norace
func diskWrite(fd int, p []byte) (int, error) {
	d := getfd(fd)
	if d == nil || d.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	latency()
	proc := d.proc
	if proc != diskProc {
		return len(p), nil // the process is dead
	}
	if roll(diskPolicy.EINTR) {
		Hit(faEINTR)
		return -1, syscall.EINTR
	}
	if roll(diskPolicy.EIO) {
		Hit(faEIO)
		hardFault()
		return -1, syscall.EIO
	}
	n := len(p)
	if n > 1 && roll(diskPolicy.Short) {
		Hit(faShortW)
		n = 1 + Rnd(n-1)
	}
	f := d.f
	for f.busy {
		runtime.Gosched()
		if proc != diskProc {
			return len(p), nil
		}
	}
	f.busy = true
	if c := diskPolicy.Capacity; c > 0 {
		room := c - len(f.data)
		if room <= 0 && n > 0 {
			f.busy = false
			Hit(faENOSPC)
			hardFault()
			return -1, syscall.ENOSPC
		}
		if n > room {
			Hit(faENOSPC)
			n = room
		}
	}
	if d.flags&syscall.O_APPEND != 0 {
		d.off = len(f.data)
	}
	for i := 0; i < n; {
		k := 16
		if k > n-i {
			k = n - i
		}
		if proc != diskProc {
			return len(p), nil
		}
		for d.off+k > len(f.data) {
			f.data = append(f.data, 0)
		}
		for j := 0; j < k; j++ {
			f.data[d.off+j] = p[i+j]
		}
		d.off += k
		i += k
		diskChanged(f.path, true)
		runtime.SimYield()
	}
	if proc == diskProc {
		f.busy = false
	}
	return n, nil
}

//go:norace
func diskRead(fd int, p []byte) (int, error) {
	d := getfd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	latency()
	if roll(diskPolicy.EINTR) {
		Hit(faEINTR)
		return -1, syscall.EINTR
	}
	if roll(diskPolicy.EIO) {
		Hit(faEIO)
		hardFault()
		return -1, syscall.EIO
	}
	n := len(d.f.data) - d.off
	if n <= 0 || len(p) == 0 {
		return 0, nil
	}
	if n > len(p) {
		n = len(p)
	}
	if n > 1 && roll(diskPolicy.Short) {
		Hit(faShortR)
		n = 1 + Rnd(n-1)
	}
	for i := 0; i < n; i++ {
		p[i] = d.f.data[d.off+i]
	}
	d.off += n
	return n, nil
}

//go:norace
func diskPread(fd int, p []byte, off int64) (int, error) {
	d := getfd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	save := d.off
	d.off = int(off)
	n, err := diskRead(fd, p)
	d.off = save
	return n, err
}

//go:norace
func diskPwrite(fd int, p []byte, off int64) (int, error) {
	d := getfd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	save := d.off
	d.off = int(off)
	n, err := diskWrite(fd, p)
	d.off = save
	return n, err
}

//go:norace
func diskClose(fd int) error {
	for _, d := range diskFDs {
		if d.fd == fd && !d.closed {
			d.closed = true
			return nil
		}
	}
	return syscall.EBADF
}

//go:norace
func diskSeek(fd int, off int64, whence int) (int64, error) {
	d := getfd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	switch whence {
	case 1:
		off += int64(d.off)
	case 2:
		off += int64(len(d.f.data))
	}
	d.off = int(off)
	return off, nil
}

//go:norace
func fill(f *vfile, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Mode: syscall.S_IFREG | 0o644, Size: int64(len(f.data)), Nlink: 1, Blksize: 4096}
}

//go:norace
func diskFstat(fd int, st *syscall.Stat_t) error {
	d := getfd(fd)
	if d == nil {
		return syscall.EBADF
	}
	fill(d.f, st)
	return nil
}

//go:norace
func diskStatFn(path string, st *syscall.Stat_t) (error, bool) {
	path = absolute(path)
	if !strings.HasPrefix(path, DiskRoot) {
		return nil, false
	}
	latency()
	if roll(diskPolicy.OpenErr) {
		Hit(faOpenErr)
		hardFault()
		return syscall.EACCES, true
	}
	f := lookup(path)
	if f == nil {
		return syscall.ENOENT, true
	}
	fill(f, st)
	return nil, true
}

//go:norace
func diskUnlink(path string) (error, bool) {
	path = absolute(path)
	if !strings.HasPrefix(path, DiskRoot) {
		return nil, false
	}
	latency()
	if myProc() != diskProc {
		return syscall.EIO, true
	}
	f := lookup(path)
	if f == nil {
		return syscall.ENOENT, true
	}
	f.gone = true
	diskChanged(path, false)
	return nil, true
}

//go:norace
func diskRename(a, b string) (error, bool) {
	a, b = absolute(a), absolute(b)
	if !strings.HasPrefix(a, DiskRoot) {
		return nil, false
	}
	latency()
	if myProc() != diskProc {
		return syscall.EIO, true
	}
	f := lookup(a)
	if f == nil {
		return syscall.ENOENT, true
	}
	if g := lookup(b); g != nil {
		g.gone = true
	}
	f.path = b
	diskChanged(a, false)
	diskChanged(b, false)
	return nil, true
}

//go:norace
func diskTruncate(path string, n int64) (error, bool) {
	path = absolute(path)
	if !strings.HasPrefix(path, DiskRoot) {
		return nil, false
	}
	f := lookup(path)
	if f == nil {
		return syscall.ENOENT, true
	}
	trunc(f, n)
	return nil, true
}

//go:norace
func trunc(f *vfile, n int64) {
	for int64(len(f.data)) < n {
		f.data = append(f.data, 0)
	}
	f.data = f.data[:n]
}

//go:norace
func diskFtruncate(fd int, n int64) error {
	d := getfd(fd)
	if d == nil {
		return syscall.EBADF
	}
	trunc(d.f, n)
	return nil
}

//go:norace
func diskFsync(fd int) error {
	if getfd(fd) == nil {
		return syscall.EBADF
	}
	latency()
	return nil
}

// GoProcess starts a client that may end by leaving the simulated process.
func (r *Run) GoProcess(name string, f func()) {
	go func() {
		defer func() {
			if e := recover(); e != nil {
				r.Violate("panic", "client %s panicked: %v", name, e)
			}
		}()
		f()
	}()
}

// OnExit makes os.Exit end the calling client after running f.
func OnExit(f func(code int)) {
	os.SimExit = func(code int) {
		f(code)
		runtime.Goexit()
	}
}
