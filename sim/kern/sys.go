package kern

import (
	"fmt"
	"syscall"
	"unsafe"

	"a0sim/hb"
	"a0sim/sched"
)

var faultErr = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENFILE": syscall.ENFILE, "EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM, "EDQUOT": syscall.EDQUOT,
	"EROFS": syscall.EROFS, "EBUSY": syscall.EBUSY, "EPERM": syscall.EPERM, "ESTALE": syscall.ESTALE,
}

// fault draws a fault for a call; "short" is handled by the caller.
func fault(op string, kinds ...string) (syscall.Errno, bool) {
	k := sched.Fault(op, kinds...)
	if k == "" {
		return 0, false
	}
	if k == "short" {
		return 0, true
	}
	e, ok := faultErr[k]
	if !ok {
		die("unknown fault %q", k)
	}
	return e, false
}

// mut marks a call that changes the disk: the crash points.
func mut() {
	K.MutCalls++
	if K.CrashAt > 0 && K.MutCalls == K.CrashAt {
		K.CrashFn()
	}
}

// Handle is the system call boundary.
func Handle(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, e syscall.Errno, ok bool) {
	defer hb.Restore(hb.Quiet())
	K.Clock += K.Tick
	if K.Others != nil {
		K.Others()
	}
	switch trap {
	case syscall.SYS_READ:
		r1, e = sysRead(int(a1), mem(a2, int(a3)), -1)
	case syscall.SYS_PREAD64:
		r1, e = sysRead(int(a1), mem(a2, int(a3)), int64(a4))
	case syscall.SYS_WRITE:
		r1, e = sysWrite(int(a1), mem(a2, int(a3)), -1)
	case syscall.SYS_PWRITE64:
		r1, e = sysWrite(int(a1), mem(a2, int(a3)), int64(a4))
	case syscall.SYS_OPEN:
		r1, e = sysOpen(atCwd, cstr(a1), int(a2), uint32(a3))
	case syscall.SYS_OPENAT:
		r1, e = sysOpen(int(int32(a1)), cstr(a2), int(a3), uint32(a4))
	case syscall.SYS_CLOSE:
		e = sysClose(int(a1))
	case syscall.SYS_STAT:
		e = sysStat(atCwd, cstr(a1), a2, true)
	case syscall.SYS_LSTAT:
		e = sysStat(atCwd, cstr(a1), a2, false)
	case syscall.SYS_NEWFSTATAT:
		p := cstr(a2)
		if p == "" && a4&0x1000 != 0 {
			e = sysFstat(int(int32(a1)), a3)
		} else {
			e = sysStat(int(int32(a1)), p, a3, a4&0x100 == 0)
		}
	case syscall.SYS_FSTAT:
		e = sysFstat(int(a1), a2)
	case syscall.SYS_LSEEK:
		r1, e = sysSeek(int(a1), int64(a2), int(a3))
	case syscall.SYS_GETDENTS64:
		r1, e = sysGetdents(int(a1), mem(a2, int(a3)))
	case syscall.SYS_GETCWD:
		b := mem(a1, int(a2))
		if len(K.Cwd)+1 > len(b) {
			e = syscall.ERANGE
			break
		}
		copy(b, K.Cwd)
		b[len(K.Cwd)] = 0
		r1 = uintptr(len(K.Cwd) + 1)
	case syscall.SYS_CHDIR:
		e = sysChdir(cstr(a1))
	case syscall.SYS_FCHDIR:
		fd := K.FDs[int(a1)]
		if fd == nil {
			e = syscall.EBADF
		} else if !fd.N.IsDir() {
			e = syscall.ENOTDIR
		} else {
			K.Cwd = fd.Path
		}
	case syscall.SYS_MKDIR:
		e = sysMkdir(atCwd, cstr(a1), uint32(a2))
	case syscall.SYS_MKDIRAT:
		e = sysMkdir(int(int32(a1)), cstr(a2), uint32(a3))
	case syscall.SYS_UNLINK:
		e = sysUnlink(atCwd, cstr(a1), false)
	case syscall.SYS_RMDIR:
		e = sysUnlink(atCwd, cstr(a1), true)
	case syscall.SYS_UNLINKAT:
		e = sysUnlink(int(int32(a1)), cstr(a2), a3&0x200 != 0)
	case syscall.SYS_RENAME:
		e = sysRename(atCwd, cstr(a1), atCwd, cstr(a2), 0)
	case syscall.SYS_RENAMEAT:
		e = sysRename(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4), 0)
	case 316: // renameat2
		e = sysRename(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4), int(a5))
	case syscall.SYS_SYMLINK:
		e = sysSymlink(cstr(a1), atCwd, cstr(a2))
	case syscall.SYS_SYMLINKAT:
		e = sysSymlink(cstr(a1), int(int32(a2)), cstr(a3))
	case syscall.SYS_LINKAT:
		e = sysLink(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4))
	case syscall.SYS_LINK:
		e = sysLink(atCwd, cstr(a1), atCwd, cstr(a2))
	case syscall.SYS_READLINK:
		r1, e = sysReadlink(atCwd, cstr(a1), mem(a2, int(a3)))
	case syscall.SYS_READLINKAT:
		r1, e = sysReadlink(int(int32(a1)), cstr(a2), mem(a3, int(a4)))
	case syscall.SYS_FCHMODAT, 452:
		e = sysChmod(int(int32(a1)), cstr(a2), uint32(a3))
	case syscall.SYS_CHMOD:
		e = sysChmod(atCwd, cstr(a1), uint32(a2))
	case syscall.SYS_FCHMOD:
		fd := K.FDs[int(a1)]
		if fd == nil {
			e = syscall.EBADF
		} else {
			mut()
			fd.N.Mode = fd.N.Mode&S_IFMT | uint32(a2)&07777
			jmode(fd.N)
			mutated(fd.Path)
		}
	case syscall.SYS_FCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_CHOWN, syscall.SYS_LCHOWN:
		// single user: ownership does not change
	case syscall.SYS_UTIMENSAT:
		e = sysUtimens(int(int32(a1)), cstr(a2), a3, a4&0x100 == 0)
	case syscall.SYS_FACCESSAT, 439:
		e = sysAccess(int(int32(a1)), cstr(a2), uint32(a3))
	case syscall.SYS_ACCESS:
		e = sysAccess(atCwd, cstr(a1), uint32(a2))
	case syscall.SYS_FTRUNCATE:
		fd := K.FDs[int(a1)]
		if fd == nil {
			e = syscall.EBADF
		} else if fd.Flags&3 == syscall.O_RDONLY {
			e = syscall.EINVAL
		} else if e, _ = fault("ftruncate", "EIO"); e == 0 {
			mut()
			truncate(fd.N, int64(a2))
			mutated(fd.Path)
		}
		note("ftruncate", fmt.Sprint(a1), e)
	case syscall.SYS_TRUNCATE:
		_, _, n, full, er := resolve(atCwd, cstr(a1), true)
		e = er
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 {
			mut()
			truncate(n, int64(a2))
			mutated(full)
		}
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		e = sysFsync(int(a1))
	case syscall.SYS_SYNC:
		syncAll()
	case syscall.SYS_FLOCK, syscall.SYS_FADVISE64:
	case syscall.SYS_FCNTL:
		// duplicate descriptor requests are not offered; the rest is harmless
		fd := K.FDs[int(a1)]
		switch {
		case fd == nil:
			e = syscall.EBADF
		case int(a2) == syscall.F_DUPFD || int(a2) == 1030:
			n := *fd
			K.nextFD++
			n.Num = K.nextFD
			n.Tag = K.Tag
			K.FDs[n.Num] = &n
			r1 = uintptr(n.Num)
		case int(a2) == syscall.F_GETFL:
			r1 = uintptr(fd.Flags)
		}
	case syscall.SYS_IOCTL:
		e = syscall.ENOTTY
	case syscall.SYS_FALLOCATE:
		e = syscall.EOPNOTSUPP
	case 326, syscall.SYS_SENDFILE, syscall.SYS_SPLICE: // copy_file_range
		e = syscall.ENOSYS
	case 332: // statx
		e = syscall.ENOSYS
	case syscall.SYS_STATFS, syscall.SYS_FSTATFS:
		e = syscall.ENOSYS
	case 437: // openat2
		e = syscall.ENOSYS
	case 318: // getrandom
		b := mem(a1, int(a2))
		x := uint64(sched.Env("getrandom", 1<<30))
		for i := range b {
			x = sched.Mix(x)
			b[i] = byte(x)
		}
		r1 = uintptr(len(b))
	case syscall.SYS_UMASK:
		r1 = uintptr(K.Umask)
		K.Umask = uint32(a1) & 0777
	case syscall.SYS_PIPE2, syscall.SYS_SOCKET, syscall.SYS_MMAP, syscall.SYS_DUP3, 424, 434:
		e = syscall.ENOSYS
	case syscall.SYS_MUNMAP, syscall.SYS_MADVISE, syscall.SYS_KILL, syscall.SYS_PRLIMIT64, syscall.SYS_UNAME:
		return 0, 0, 0, false
	default:
		die("system call %d is not simulated", trap)
	}
	if e != 0 {
		r1 = ^uintptr(0)
	}
	return r1, 0, e, true
}

func sysOpen(dirfd int, p string, flags int, mode uint32) (uintptr, syscall.Errno) {
	sched.P(-1001)
	e := func() syscall.Errno {
		if len(K.FDs) >= K.MaxFD {
			return syscall.EMFILE
		}
		if flags&syscall.O_CREAT != 0 {
			if e, _ := fault("create", "EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR", "EROFS"); e != 0 {
				return e
			}
		} else if e, _ := fault("open", "EIO", "EACCES", "EMFILE", "EINTR", "ENOMEM"); e != 0 {
			return e
		}
		return 0
	}()
	if e != 0 {
		note("open", p, e)
		return 0, e
	}
	follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0)
	dir, name, n, full, e := resolve(dirfd, p, follow)
	if e != 0 {
		note("open", p, e)
		return 0, e
	}
	if K.TrackRead {
		K.Reads = append(K.Reads, full)
	}
	if n != nil && flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
		note("open", full, syscall.EEXIST)
		return 0, syscall.EEXIST
	}
	acc := flags & 3
	switch {
	case n == nil && flags&syscall.O_CREAT == 0:
		e = syscall.ENOENT
	case n == nil && len(p) > 0 && p[len(p)-1] == '/':
		e = syscall.EISDIR
	case n == nil && !access(dir, 2):
		e = syscall.EACCES
	case n == nil && K.Free == 0:
		e = syscall.ENOSPC
	case n == nil:
		mut()
		n = newNode(S_IFREG | mode&^K.Umask&07777)
		dir.set(name, n)
		dir.MTime = K.Clock
		jcreate(dir, name, n)
		mutated(full)
	case n.IsLnk():
		e = syscall.ELOOP
	case n.IsDir() && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0):
		e = syscall.EISDIR
	case !n.IsDir() && flags&syscall.O_DIRECTORY != 0:
		e = syscall.ENOTDIR
	case acc != syscall.O_WRONLY && !access(n, 4):
		e = syscall.EACCES
	case acc != syscall.O_RDONLY && !access(n, 2):
		e = syscall.EACCES
	default:
		if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
			mut()
			truncate(n, 0)
			mutated(full)
		}
	}
	note("open", full, e)
	if e != 0 {
		return 0, e
	}
	K.nextFD++
	fd := &FD{Num: K.nextFD, N: n, Flags: flags, Path: full, Tag: K.Tag}
	K.FDs[fd.Num] = fd
	return uintptr(fd.Num), 0
}

func sysClose(num int) syscall.Errno {
	fd := K.FDs[num]
	if fd == nil {
		return syscall.EBADF
	}
	delete(K.FDs, num)
	var e syscall.Errno
	if fd.Flags&3 != syscall.O_RDONLY {
		e, _ = fault("close", "EIO", "ENOSPC", "EDQUOT")
		if e != 0 {
			// the error reports that delayed data did not make it to the disk
			if !jclean(fd.N) {
				lostWrite(fd.N)
			}
		}
	}
	note("close", fd.Path, e)
	return e
}

// lostWrite models a close error: the tail of the file may be missing.
func lostWrite(n *Node) {
	if len(n.Data) > 0 {
		keep := len(n.Data) / 2
		n.Data = append([]byte(nil), n.Data[:keep]...)
	}
}

func sysRead(num int, b []byte, at int64) (uintptr, syscall.Errno) {
	if num == 0 {
		return 0, 0
	}
	fd := K.FDs[num]
	if fd == nil {
		return 0, syscall.EBADF
	}
	if fd.Flags&3 == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	if fd.N.IsDir() {
		return 0, syscall.EISDIR
	}
	off := fd.Off
	if at >= 0 {
		off = at
	}
	e, short := fault("read", "EIO", "EINTR", "short", "short")
	if e != 0 {
		note("read", fd.Path, e)
		return 0, e
	}
	if off >= int64(len(fd.N.Data)) || len(b) == 0 {
		note("read", fd.Path, 0)
		return 0, 0
	}
	n := copy(b, fd.N.Data[off:])
	if short && n > 1 {
		n = 1 + sched.Env("short-read", n-1)
	}
	if at < 0 {
		fd.Off += int64(n)
	}
	note("read", fd.Path, 0)
	return uintptr(n), 0
}

func sysWrite(num int, b []byte, at int64) (uintptr, syscall.Errno) {
	if num == 1 {
		if e, _ := fault("stdout", "EIO", "ENOSPC"); e != 0 {
			return 0, e
		}
		K.Out = append(K.Out, b...)
		return uintptr(len(b)), 0
	}
	if num == 2 {
		K.Err = append(K.Err, b...)
		return uintptr(len(b)), 0
	}
	fd := K.FDs[num]
	if fd == nil {
		return 0, syscall.EBADF
	}
	if fd.Flags&3 == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	e, short := fault("write", "EIO", "ENOSPC", "EINTR", "EDQUOT", "short", "short")
	if e != 0 {
		note("write", fd.Path, e)
		return 0, e
	}
	n := len(b)
	if short && n > 1 {
		n = 1 + sched.Env("short-write", n-1)
	}
	off := fd.Off
	if at >= 0 {
		off = at
	}
	if fd.Flags&syscall.O_APPEND != 0 {
		off = int64(len(fd.N.Data))
	}
	if K.Free >= 0 {
		grow := off + int64(n) - int64(len(fd.N.Data))
		if grow > K.Free {
			n -= int(grow - K.Free)
			if n <= 0 {
				note("write", fd.Path, syscall.ENOSPC)
				return 0, syscall.ENOSPC
			}
			grow = K.Free
		}
		if grow > 0 {
			K.Free -= grow
		}
	}
	mut()
	writeAt(fd.N, off, b[:n])
	if at < 0 {
		fd.Off = off + int64(n)
	}
	mutated(fd.Path)
	note("write", fd.Path, 0)
	return uintptr(n), 0
}

func writeAt(n *Node, off int64, b []byte) {
	jwrite(n, off, b)
	// copy on write: readers of the old slice keep what they saw
	end := off + int64(len(b))
	size := int64(len(n.Data))
	if end > size {
		size = end
	}
	if int64(cap(n.Data)) >= size && off == int64(len(n.Data)) {
		n.Data = append(n.Data, b...)
	} else {
		nd := make([]byte, size, size+size/2+64)
		copy(nd, n.Data)
		copy(nd[off:], b)
		n.Data = nd
	}
	n.MTime = K.Clock
}

func truncate(n *Node, size int64) {
	jtrunc(n, size)
	nd := make([]byte, size)
	copy(nd, n.Data)
	if K.Free >= 0 && int64(len(n.Data)) > size {
		K.Free += int64(len(n.Data)) - size
	}
	n.Data = nd
	n.MTime = K.Clock
}

func sysSeek(num int, off int64, whence int) (uintptr, syscall.Errno) {
	fd := K.FDs[num]
	if fd == nil {
		return 0, syscall.EBADF
	}
	var base int64
	switch whence {
	case 0:
	case 1:
		base = fd.Off
	case 2:
		base = int64(len(fd.N.Data))
	default:
		return 0, syscall.EINVAL
	}
	if base+off < 0 {
		return 0, syscall.EINVAL
	}
	fd.Off = base + off
	if fd.N.IsDir() && fd.Off == 0 {
		fd.ents, fd.dirAt, fd.read = nil, 0, false
	}
	return uintptr(fd.Off), 0
}

func fillStat(n *Node, p uintptr) {
	st := (*syscall.Stat_t)(unsafe.Pointer(p))
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = n.Ino
	st.Mode = n.Mode
	st.Nlink = uint64(n.Nlink)
	st.Uid = n.UID
	st.Gid = n.UID
	st.Blksize = 4096
	st.Size = int64(len(n.Data))
	if n.IsDir() {
		st.Size = 4096
	}
	if n.IsLnk() {
		st.Size = int64(len(n.Link))
	}
	st.Blocks = (st.Size + 511) / 512
	st.Mtim.Sec = n.MTime / 1e9
	st.Mtim.Nsec = n.MTime % 1e9
	st.Atim = st.Mtim
	st.Ctim = st.Mtim
}

func sysStat(dirfd int, p string, buf uintptr, follow bool) syscall.Errno {
	sched.P(-1002)
	op := "stat"
	if !follow {
		op = "lstat"
	}
	if e, _ := fault(op, "EIO", "EACCES", "EINTR", "ENOMEM"); e != 0 {
		note(op, p, e)
		return e
	}
	_, _, n, full, e := resolve(dirfd, p, follow)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	switch {
	case !K.TrackRead:
	case follow:
		K.Reads = append(K.Reads, full)
	default:
		K.LReads = append(K.LReads, full)
	}
	note(op, full, e)
	if e == 0 {
		fillStat(n, buf)
	}
	return e
}

func sysFstat(num int, buf uintptr) syscall.Errno {
	if num >= 0 && num <= 2 {
		n := &Node{Mode: syscall.S_IFIFO | 0600, Nlink: 1}
		fillStat(n, buf)
		return 0
	}
	fd := K.FDs[num]
	if fd == nil {
		return syscall.EBADF
	}
	if e, _ := fault("fstat", "EIO", "ENOMEM", "ESTALE"); e != 0 {
		note("fstat", fd.Path, e)
		return e
	}
	note("fstat", fd.Path, 0)
	fillStat(fd.N, buf)
	return 0
}

func sysGetdents(num int, b []byte) (uintptr, syscall.Errno) {
	fd := K.FDs[num]
	if fd == nil {
		return 0, syscall.EBADF
	}
	if !fd.N.IsDir() {
		return 0, syscall.ENOTDIR
	}
	e, _ := fault("getdents", "EIO", "EINTR")
	if e != 0 {
		note("getdents", fd.Path, e)
		return 0, e
	}
	if !fd.read {
		fd.read = true
		fd.ents = append([]Ent(nil), fd.N.Kids...)
		if K.DirSeed != 0 && len(fd.ents) > 1 {
			// the same names come in the same order in any directory
			h := uint64(K.DirSeed)
			for _, e := range fd.ents {
				for i := 0; i < len(e.Name); i++ {
					h = sched.Mix(h ^ uint64(e.Name[i]))
				}
			}
			r := sched.NewRand(h)
			for i := len(fd.ents) - 1; i > 0; i-- {
				j := r.Int(i + 1)
				fd.ents[i], fd.ents[j] = fd.ents[j], fd.ents[i]
			}
		}
	}
	n := 0
	limit := 1 << 30
	if K.Chunk {
		limit = 1 + (len(fd.ents)+fd.dirAt)%4
	}
	for c := 0; fd.dirAt < len(fd.ents) && c < limit; c++ {
		ent := fd.ents[fd.dirAt]
		rl := (19 + len(ent.Name) + 1 + 7) &^ 7
		if n+rl > len(b) {
			break
		}
		fd.dirAt++
		d := b[n : n+rl]
		for i := range d {
			d[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&d[0])) = ent.N.Ino
		*(*int64)(unsafe.Pointer(&d[8])) = int64(fd.dirAt)
		*(*uint16)(unsafe.Pointer(&d[16])) = uint16(rl)
		switch {
		case ent.N.IsDir():
			d[18] = syscall.DT_DIR
		case ent.N.IsLnk():
			d[18] = syscall.DT_LNK
		default:
			d[18] = syscall.DT_REG
		}
		copy(d[19:], ent.Name)
		n += rl
	}
	note("getdents", fd.Path, 0)
	return uintptr(n), 0
}

func sysChdir(p string) syscall.Errno {
	_, _, n, full, e := resolve(atCwd, p, true)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && !n.IsDir() {
		e = syscall.ENOTDIR
	}
	if e == 0 && !access(n, 1) {
		e = syscall.EACCES
	}
	if e == 0 {
		K.Cwd = full
	}
	note("chdir", p, e)
	return e
}

func sysMkdir(dirfd int, p string, mode uint32) syscall.Errno {
	sched.P(-1003)
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	e, _ := fault("mkdir", "EIO", "ENOSPC", "EACCES", "EROFS")
	if e != 0 {
		note("mkdir", p, e)
		return e
	}
	dir, name, n, full, e := resolve(dirfd, p, false)
	switch {
	case e != 0:
	case n != nil || dir == nil:
		e = syscall.EEXIST
	case !access(dir, 2):
		e = syscall.EACCES
	case K.Free == 0:
		e = syscall.ENOSPC
	default:
		mut()
		k := newNode(S_IFDIR | mode&^K.Umask&07777)
		dir.set(name, k)
		dir.MTime = K.Clock
		jcreate(dir, name, k)
		mutated(full)
	}
	note("mkdir", full, e)
	return e
}

func sysUnlink(dirfd int, p string, rmdir bool) syscall.Errno {
	sched.P(-1004)
	e, _ := fault("unlink", "EIO", "EACCES", "EBUSY", "EROFS")
	if e != 0 {
		note("unlink", p, e)
		return e
	}
	dir, name, n, full, e := resolve(dirfd, p, false)
	switch {
	case e != 0:
	case n == nil:
		e = syscall.ENOENT
	case dir == nil:
		e = syscall.EINVAL
	case rmdir && !n.IsDir():
		e = syscall.ENOTDIR
	case !rmdir && n.IsDir():
		e = syscall.EISDIR
	case !access(dir, 2):
		e = syscall.EACCES
	case rmdir && len(n.Kids) > 0:
		e = syscall.ENOTEMPTY
	default:
		mut()
		dir.del(name)
		dir.MTime = K.Clock
		n.Nlink--
		if K.Free >= 0 {
			K.Free += int64(len(n.Data))
		}
		junlink(dir, name)
		mutated(full)
	}
	note("unlink", full, e)
	return e
}

func sysRename(d1 int, p1 string, d2 int, p2 string, flags int) syscall.Errno {
	sched.P(-1005)
	e, _ := fault("rename", "EIO", "ENOSPC", "EACCES", "EROFS")
	if e != 0 {
		note("rename", p1, e)
		return e
	}
	dir1, n1, x, full1, e := resolve(d1, p1, false)
	if e == 0 && x == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		note("rename", p1, e)
		return e
	}
	dir2, n2, y, full2, e := resolve(d2, p2, false)
	switch {
	case e != 0:
	case dir1 == nil || dir2 == nil:
		e = syscall.EBUSY
	case !access(dir1, 2) || !access(dir2, 2):
		e = syscall.EACCES
	case flags&1 != 0 && y != nil:
		e = syscall.EEXIST
	case y == x && y != nil:
	case y != nil && y.IsDir() && !x.IsDir():
		e = syscall.EISDIR
	case y != nil && !y.IsDir() && x.IsDir():
		e = syscall.ENOTDIR
	case y != nil && y.IsDir() && len(y.Kids) > 0:
		e = syscall.ENOTEMPTY
	default:
		mut()
		dir1.del(n1)
		dir2.set(n2, x)
		dir1.MTime = K.Clock
		dir2.MTime = K.Clock
		if y != nil && K.Free >= 0 {
			K.Free += int64(len(y.Data))
		}
		jrename(dir1, n1, dir2, n2, x)
		mutated(full1)
		mutated(full2)
	}
	note("rename", full1+" -> "+full2, e)
	return e
}

func sysSymlink(target string, dirfd int, p string) syscall.Errno {
	sched.P(-1006)
	dir, name, n, full, e := resolve(dirfd, p, false)
	switch {
	case e != 0:
	case n != nil:
		e = syscall.EEXIST
	case !access(dir, 2):
		e = syscall.EACCES
	default:
		mut()
		k := newNode(S_IFLNK | 0777)
		k.Link = target
		dir.set(name, k)
		jcreate(dir, name, k)
		mutated(full)
	}
	note("symlink", full, e)
	return e
}

func sysLink(d1 int, p1 string, d2 int, p2 string) syscall.Errno {
	sched.P(-1007)
	_, _, x, _, e := resolve(d1, p1, false)
	if e == 0 && x == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return e
	}
	if x.IsDir() {
		return syscall.EPERM
	}
	dir, name, n, full, e := resolve(d2, p2, false)
	switch {
	case e != 0:
	case n != nil:
		e = syscall.EEXIST
	case !access(dir, 2):
		e = syscall.EACCES
	default:
		mut()
		dir.set(name, x)
		x.Nlink++
		jcreate(dir, name, x)
		mutated(full)
	}
	return e
}

func sysReadlink(dirfd int, p string, b []byte) (uintptr, syscall.Errno) {
	if e, _ := fault("readlink", "EIO", "EACCES", "ENOMEM"); e != 0 {
		note("readlink", p, e)
		return 0, e
	}
	_, _, n, full, e := resolve(dirfd, p, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	note("readlink", full, e)
	if e == 0 && !n.IsLnk() {
		e = syscall.EINVAL
	}
	if e != 0 {
		return 0, e
	}
	return uintptr(copy(b, n.Link)), 0
}

func sysChmod(dirfd int, p string, mode uint32) syscall.Errno {
	sched.P(-1008)
	_, _, n, full, e := resolve(dirfd, p, true)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 {
		if e, _ = fault("chmod", "EIO", "EPERM", "EROFS"); e == 0 {
			mut()
			n.Mode = n.Mode&S_IFMT | mode&07777
			jmode(n)
			mutated(full)
		}
	}
	note("chmod", full, e)
	return e
}

func sysUtimens(dirfd int, p string, ts uintptr, follow bool) syscall.Errno {
	_, _, n, full, e := resolve(dirfd, p, follow)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 {
		mut()
		t := (*[2]syscall.Timespec)(unsafe.Pointer(ts))
		n.MTime = t[1].Sec*1e9 + t[1].Nsec
		mutated(full)
	}
	note("utimens", full, e)
	return e
}

func sysAccess(dirfd int, p string, mode uint32) syscall.Errno {
	_, _, n, _, e := resolve(dirfd, p, true)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && mode != 0 && !access(n, mode&7) {
		e = syscall.EACCES
	}
	return e
}

func sysFsync(num int) syscall.Errno {
	fd := K.FDs[num]
	if fd == nil {
		return syscall.EBADF
	}
	e, _ := fault("fsync", "EIO", "ENOSPC", "EDQUOT")
	if e == 0 {
		mut()
		jsync(fd.N)
	}
	note("fsync", fd.Path, e)
	return e
}
