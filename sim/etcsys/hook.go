// The simulator's seam under package os: with VERIF_FS set, every system call
// which package os and its friends make goes through verifSys, which keeps
// effects inside a scratch directory, takes faults from a plan and writes down
// what happened.  It is laid over package syscall when the generator is built
// for simulation; without VERIF_FS it does nothing.

package syscall

import (
	"internal/runtime/syscall/linux"
	"sync/atomic"
	"unsafe"
)

//go:linkname verifSystemstack runtime.systemstack
func verifSystemstack(fn func())

var verifOn bool

const (
	vMaxPlan = 256
	vMaxFd   = 256
	vMaxPath = 1024
)

type vFault struct {
	at   int
	kind byte
	arg  int
	arg2 int
}

type vFile struct {
	used bool
	wr   bool
	in   bool
	n    int
	path [vMaxPath]byte
}

var (
	vRoot  [vMaxPath]byte
	vRootN int
	vPlan  [vMaxPlan]vFault
	vPlanN int
	vFds   [vMaxFd]vFile
	vIdx   int
	vLock  int32
	vLine  [4096]byte
	vLineN int
	vP     [2][vMaxPath]byte
	vPN    [2]int
	vTmp   [2 * vMaxPath]byte
	vDents [1 << 16]byte
	vLogFd uintptr = 3

	// taking turns with other runs, on descriptor 4
	vTurns bool
	vTurnB [1]byte

	// arguments and results: one call at a time
	vTrap, vA1, vA2, vA3, vA4, vA5, vA6 uintptr
	vR1, vR2, vE                        uintptr
)

func init() {
	// root|index,kind,arg,arg2;...
	s, ok := Getenv("VERIF_FS")
	if !ok {
		return
	}
	i := 0
	for i < len(s) && s[i] != '|' {
		vRoot[i] = s[i]
		i++
	}
	vRootN = i
	i++
	num := func() int {
		n := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n = n*10 + int(s[i]-'0')
			i++
		}
		i++
		return n
	}
	for i < len(s) && vPlanN < vMaxPlan {
		f := &vPlan[vPlanN]
		f.at = num()
		f.kind = s[i]
		i += 2
		f.arg = num()
		f.arg2 = num()
		vPlanN++
	}
	_, vTurns = Getenv("VERIF_TURNS")
	verifOn = true
}

// vTurn waits until the simulator lets this run make its next call.
func vTurn() {
	vTurnB[0] = 'r'
	linux.Syscall6(SYS_WRITE, 4, uintptr(unsafe.Pointer(&vTurnB[0])), 1, 0, 0, 0)
	for {
		n, _, e := linux.Syscall6(SYS_READ, 4, uintptr(unsafe.Pointer(&vTurnB[0])), 1, 0, 0, 0)
		if n == 1 {
			return
		}
		if e != uintptr(EINTR) {
			vKill()
		}
	}
}

//go:nosplit
//go:norace
func verifSys(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var x, y, e uintptr
	verifSystemstack(func() {
		for !atomic.CompareAndSwapInt32(&vLock, 0, 1) {
		}
		vTrap, vA1, vA2, vA3, vA4, vA5, vA6 = trap, a1, a2, a3, a4, a5, a6
		vCall()
		x, y, e = vR1, vR2, vE
		atomic.StoreInt32(&vLock, 0)
	})
	return x, y, Errno(e)
}

func vRaw() { vR1, vR2, vE = linux.Syscall6(vTrap, vA1, vA2, vA3, vA4, vA5, vA6) }

func vStr(s string) {
	for i := 0; i < len(s) && vLineN < len(vLine)-2; i++ {
		vLine[vLineN] = s[i]
		vLineN++
	}
}

func vByte(b byte) {
	if vLineN < len(vLine)-2 {
		vLine[vLineN] = b
		vLineN++
	}
}

func vNum(n int) {
	if n < 0 {
		vByte('-')
		n = -n
	}
	d := 1
	for n/d >= 10 {
		d *= 10
	}
	for ; d > 0; d /= 10 {
		vByte('0' + byte(n/d%10))
	}
}

func vPath(p *[vMaxPath]byte, n int) {
	const hex = "0123456789abcdef"
	for i := 0; i < n; i++ {
		c := p[i]
		if c <= ' ' || c == '%' || c > 126 {
			vByte('%')
			vByte(hex[c>>4])
			vByte(hex[c&15])
		} else {
			vByte(c)
		}
	}
}

func vFlush() {
	vLine[vLineN] = '\n'
	linux.Syscall6(SYS_WRITE, vLogFd, uintptr(unsafe.Pointer(&vLine[0])), uintptr(vLineN+1), 0, 0, 0)
	vLineN = 0
}

// vResolve puts the lexically clean absolute path of (dirfd, p) in vP[k].
func vResolve(k int, dirfd int, p uintptr) {
	n := 0
	s := (*[vMaxPath]byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p)))
	if p == 0 || s[0] != '/' {
		if dirfd >= 0 && dirfd < vMaxFd && vFds[dirfd].used {
			for i := 0; i < vFds[dirfd].n; i++ {
				vTmp[i] = vFds[dirfd].path[i]
			}
			n = vFds[dirfd].n
		} else if dirfd == _AT_FDCWD {
			r, _, e := linux.Syscall6(SYS_GETCWD, uintptr(unsafe.Pointer(&vTmp[0])), vMaxPath, 0, 0, 0, 0)
			if e == 0 {
				n = int(r) - 1
			}
		} else {
			for _, c := range []byte("/?") {
				vTmp[n] = c
				n++
			}
		}
	}
	if p != 0 {
		vTmp[n] = '/'
		n++
		for i := 0; i < vMaxPath-1 && s[i] != 0 && n < len(vTmp)-1; i++ {
			vTmp[n] = s[i]
			n++
		}
	}
	// clean
	o := 0
	d := &vP[k]
	for i := 0; i < n; {
		for i < n && vTmp[i] == '/' {
			i++
		}
		j := i
		for j < n && vTmp[j] != '/' {
			j++
		}
		switch {
		case j == i, j == i+1 && vTmp[i] == '.':
		case j == i+2 && vTmp[i] == '.' && vTmp[i+1] == '.':
			for o > 0 && d[o-1] != '/' {
				o--
			}
			if o > 0 {
				o--
			}
		default:
			if o+1+j-i >= vMaxPath {
				o = 0
			}
			d[o] = '/'
			o++
			for ; i < j; i++ {
				d[o] = vTmp[i]
				o++
			}
		}
		i = j
	}
	vPN[k] = o
}

func vIn(k int) bool {
	if vPN[k] < vRootN {
		return false
	}
	for i := 0; i < vRootN; i++ {
		if vP[k][i] != vRoot[i] {
			return false
		}
	}
	return vPN[k] == vRootN || vP[k][vRootN] == '/'
}

func vIs(k int, s string) bool {
	if vPN[k] != len(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if vP[k][i] != s[i] {
			return false
		}
	}
	return true
}

const (
	vNone = iota
	vOpen
	vRead
	vWrite
	vPread
	vPwrite
	vClose
	vFd   // other calls on a file
	vDir  // getdents
	vPth  // other calls on a path, which only look
	vMod  // calls on a path, which change
	vMod2 // calls on two paths
	vCopy // calls from a file to a file
	vLink
)

func vFrom(k int, fd int) {
	vP[k] = vFds[fd].path
	vPN[k] = vFds[fd].n
}

func vCall() {
	class, name := vNone, ""
	dfd, pth := _AT_FDCWD, uintptr(0)
	dfd2, pth2 := _AT_FDCWD, uintptr(0)
	fd := -1
	sArg := 0 // which argument is the size
	mod := false
	switch vTrap {
	case SYS_OPEN:
		class, name, pth = vOpen, "open", vA1
		mod = vA2&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND) != 0
	case SYS_OPENAT:
		class, name, dfd, pth = vOpen, "open", int(int32(vA1)), vA2
		mod = vA3&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND) != 0
	case 437: // openat2
		vR1, vR2, vE = ^uintptr(0), 0, uintptr(ENOSYS)
		return
	case SYS_CREAT:
		class, name, pth, mod = vOpen, "open", vA1, true
	case SYS_READ:
		class, name, fd, sArg = vRead, "read", int(vA1), 3
	case SYS_PREAD64:
		class, name, fd, sArg = vPread, "pread", int(vA1), 3
	case SYS_WRITE:
		class, name, fd, sArg = vWrite, "write", int(vA1), 3
	case SYS_PWRITE64:
		class, name, fd, sArg = vPwrite, "pwrite", int(vA1), 3
	case SYS_READV, SYS_PREADV:
		class, name, fd = vFd, "readv", int(vA1)
	case SYS_WRITEV, SYS_PWRITEV:
		class, name, fd = vFd, "writev", int(vA1)
	case SYS_CLOSE:
		class, name, fd = vClose, "close", int(vA1)
	case SYS_FSTAT:
		class, name, fd = vFd, "fstat", int(vA1)
	case SYS_FSYNC, SYS_FDATASYNC:
		class, name, fd = vFd, "fsync", int(vA1)
	case SYS_FTRUNCATE:
		class, name, fd = vFd, "ftruncate", int(vA1)
	case SYS_FALLOCATE:
		class, name, fd = vFd, "fallocate", int(vA1)
	case SYS_FCHMOD, SYS_FCHOWN:
		class, name, fd = vFd, "fchmod", int(vA1)
	case SYS_GETDENTS64:
		class, name, fd, sArg = vDir, "getdents", int(vA1), 3
	case SYS_GETDENTS:
		vR1, vR2, vE = ^uintptr(0), 0, uintptr(ENOSYS)
		return
	case SYS_SENDFILE:
		class, name, fd, sArg = vCopy, "sendfile", int(vA1), 4
	case 326: // copy_file_range
		class, name, fd, sArg = vCopy, "copy_file_range", int(vA3), 5
	case SYS_SPLICE:
		class, name, fd, sArg = vCopy, "splice", int(vA3), 5
	case SYS_STAT, SYS_LSTAT:
		class, name, pth = vPth, "stat", vA1
	case SYS_NEWFSTATAT:
		class, name, dfd, pth = vPth, "stat", int(int32(vA1)), vA2
	case 332: // statx
		class, name, dfd, pth = vPth, "stat", int(int32(vA1)), vA2
	case SYS_ACCESS:
		class, name, pth = vPth, "access", vA1
	case SYS_FACCESSAT, 439:
		class, name, dfd, pth = vPth, "access", int(int32(vA1)), vA2
	case SYS_READLINK:
		class, name, pth = vPth, "readlink", vA1
	case SYS_READLINKAT:
		class, name, dfd, pth = vPth, "readlink", int(int32(vA1)), vA2
	case SYS_MKDIR:
		class, name, pth = vMod, "mkdir", vA1
	case SYS_MKDIRAT:
		class, name, dfd, pth = vMod, "mkdir", int(int32(vA1)), vA2
	case SYS_RMDIR, SYS_UNLINK:
		class, name, pth = vMod, "unlink", vA1
	case SYS_UNLINKAT:
		class, name, dfd, pth = vMod, "unlink", int(int32(vA1)), vA2
	case SYS_TRUNCATE, SYS_CHMOD, SYS_CHOWN, SYS_LCHOWN, SYS_MKNOD, SYS_UTIME, SYS_UTIMES, SYS_SETXATTR, SYS_LSETXATTR, SYS_REMOVEXATTR, SYS_LREMOVEXATTR:
		class, name, pth = vMod, "change", vA1
	case SYS_FCHMODAT, SYS_FCHOWNAT, SYS_MKNODAT, SYS_UTIMENSAT, SYS_FUTIMESAT, 452:
		class, name, dfd, pth = vMod, "change", int(int32(vA1)), vA2
	case SYS_RENAME, SYS_LINK:
		class, name, pth, pth2 = vMod2, "rename", vA1, vA2
	case SYS_RENAMEAT, 316, SYS_LINKAT:
		class, name, dfd, pth, dfd2, pth2 = vMod2, "rename", int(int32(vA1)), vA2, int(int32(vA3)), vA4
	case SYS_SYMLINK:
		class, name, pth = vMod, "symlink", vA2
	case SYS_SYMLINKAT:
		class, name, dfd, pth = vMod, "symlink", int(int32(vA2)), vA3
	case SYS_MOUNT, SYS_UMOUNT2, SYS_CHROOT, SYS_PIVOT_ROOT, SYS_SWAPON, SYS_SWAPOFF, SYS_REBOOT, SYS_KILL, SYS_TKILL, SYS_SETHOSTNAME, SYS_PTRACE:
		vStr("X forbidden trap ")
		vNum(int(vTrap))
		vFlush()
		vR1, vR2, vE = ^uintptr(0), 0, uintptr(EPERM)
		return
	case SYS_DUP, SYS_DUP2, SYS_DUP3:
		vRaw()
		if vE == 0 && int(vA1) < vMaxFd && int(vR1) < vMaxFd {
			vFds[vR1] = vFds[vA1]
		}
		return
	}
	switch class {
	case vNone:
		vRaw()
		return
	case vOpen, vPth:
		vResolve(0, dfd, pth)
	case vMod:
		vResolve(0, dfd, pth)
		mod = true
	case vMod2:
		vResolve(0, dfd, pth)
		vResolve(1, dfd2, pth2)
		mod = true
	default:
		if fd < 0 || fd >= vMaxFd || !vFds[fd].used {
			vRaw()
			return
		}
		vFrom(0, fd)
	}
	in := vIn(0)
	if class == vMod2 && !vIn(1) {
		in = false
	}
	if mod && !in && !(class == vOpen && vIs(0, "/dev/null")) {
		vStr("X ")
		vStr(name)
		vByte(' ')
		vPath(&vP[0], vPN[0])
		if class == vMod2 {
			vByte(' ')
			vPath(&vP[1], vPN[1])
		}
		vFlush()
		vR1, vR2, vE = ^uintptr(0), 0, uintptr(EPERM)
		return
	}
	if !in {
		vRaw()
		return
	}
	if vTurns {
		vTurn()
	}
	idx := vIdx
	vIdx++
	var f *vFault
	for i := 0; i < vPlanN; i++ {
		if vPlan[i].at == idx {
			f = &vPlan[i]
		}
	}
	size := 0
	switch sArg {
	case 3:
		size = int(vA3)
	case 4:
		size = int(vA4)
	case 5:
		size = int(vA5)
	}
	// what is about to happen, in case it is the last thing
	vNum(idx)
	vByte(' ')
	vStr(name)
	vByte(' ')
	vPath(&vP[0], vPN[0])
	vByte(' ')
	if class == vMod2 {
		vPath(&vP[1], vPN[1])
	} else {
		vByte('-')
	}
	vByte(' ')
	if mod || class != vOpen && fd >= 0 && vFds[fd].wr {
		vByte('w')
	} else {
		vByte('r')
	}
	vByte(' ')
	vNum(size)
	vByte(' ')
	kind := byte('-')
	done := false
	kill := false
	if f != nil {
		switch f.kind {
		case 'e':
			if f.arg == int(EINTR) && class == vClose {
				break
			}
			kind = 'e'
			done = true
			if class == vClose {
				if vFds[fd].wr && f.arg2 > 0 {
					// what was written does not reach the disk: all but
					// arg2-1 bytes are lost
					linux.Syscall6(SYS_FTRUNCATE, uintptr(fd), uintptr(f.arg2-1), 0, 0, 0, 0)
				}
				vRaw()
				vFds[fd].used = false
			}
			vR1, vR2, vE = ^uintptr(0), 0, uintptr(f.arg)
		case 's':
			if sArg == 0 {
				break
			}
			n := f.arg
			if class == vDir && n < 300 {
				n = 300
			}
			if n < 1 {
				n = 1
			}
			if n < size {
				kind = 's'
				switch sArg {
				case 3:
					vA3 = uintptr(n)
				case 4:
					vA4 = uintptr(n)
				case 5:
					vA5 = uintptr(n)
				}
			}
		case 'd':
			if class == vDir {
				kind = 'd'
			}
		case 'k':
			kind = 'k'
			vByte('k')
			vFlush()
			vKill()
		case 'K':
			kind, kill = 'K', true
		case 'p':
			kind, kill = 'p', true
			if (class == vWrite || class == vPwrite) && f.arg < size {
				vA3 = uintptr(f.arg)
			}
		}
	}
	vByte(kind)
	if kill {
		vFlush()
	}
	if !done {
		vRaw()
		if vE == 0 {
			switch class {
			case vOpen:
				if n := int(vR1); n < vMaxFd {
					vFds[n].used, vFds[n].wr, vFds[n].n = true, mod, vPN[0]
					vFds[n].path = vP[0]
				}
			case vDir:
				if kind == 'd' {
					vShuffle(f.arg, f.arg2)
				}
			}
		}
		if class == vClose {
			vFds[fd].used = false
		}
	}
	if kill {
		vKill()
	}
	vByte(' ')
	if vE != 0 {
		vByte('!')
		vNum(int(vE))
	} else {
		vNum(int(vR1))
	}
	vFlush()
}

func vKill() {
	pid, _, _ := linux.Syscall6(SYS_GETPID, 0, 0, 0, 0, 0, 0)
	for {
		linux.Syscall6(SYS_KILL, pid, 9, 0, 0, 0, 0)
	}
}

// vShuffle reorders the records getdents has put in the caller's buffer and
// hides their types when told so.
func vShuffle(seed, hide int) {
	buf := (*[1 << 16]byte)(*(*unsafe.Pointer)(unsafe.Pointer(&vA2)))
	n := int(vR1)
	if n > len(vDents) {
		return
	}
	var offs [256]int32
	k := 0
	for i := 0; i < n; {
		if k == len(offs) {
			return
		}
		offs[k] = int32(i)
		k++
		if hide != 0 {
			buf[i+18] = 0 // DT_UNKNOWN
		}
		i += int(buf[i+16]) | int(buf[i+17])<<8
	}
	x := uint64(seed)*0x9e3779b97f4a7c15 + 1
	for i := k - 1; i > 0; i-- {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		j := int(x % uint64(i+1))
		offs[i], offs[j] = offs[j], offs[i]
	}
	o := 0
	for i := 0; i < k; i++ {
		at := int(offs[i])
		l := int(buf[at+16]) | int(buf[at+17])<<8
		for q := 0; q < l; q++ {
			vDents[o+q] = buf[at+q]
		}
		o += l
	}
	for i := 0; i < o; i++ {
		buf[i] = vDents[i]
	}
}
