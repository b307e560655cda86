package main

// The ufs command as a process.

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type ufsProc struct {
	r       *R
	cmd     *exec.Cmd
	network string
	addr    string
	out     *lockedBuf
	ended   chan struct{}
	err     error
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(b)
	}
	return len(b), nil
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var sockN atomic.Int64

// startUFS runs the command with this root. memKB limits its address space.
func startUFS(r *R, network, root string, memKB int, args ...string) *ufsProc {
	return startUFSLimited(r, network, root, memKB, 0, args...)
}

// startUFSLimited limits the number of descriptors too.
func startUFSLimited(r *R, network, root string, memKB, nofile int, args ...string) *ufsProc {
	return startUFSIn(r, r.dir, network, root, memKB, nofile, args...)
}

func startUFSIn(r *R, dir, network, root string, memKB, nofile int, args ...string) *ufsProc {
	return startUFSEnv(r, dir, nil, network, root, memKB, nofile, args...)
}

// startUFSEnv starts it in a directory, with more in its environment.
func startUFSEnv(r *R, dir string, env []string, network, root string, memKB, nofile int, args ...string) *ufsProc {
	for try := 0; ; try++ {
		u := &ufsProc{r: r, network: network, out: &lockedBuf{}, ended: make(chan struct{})}
		n := sockN.Add(1)
		if network == "unix" {
			u.addr = filepath.Join(r.dir, fmt.Sprintf("s%d", n))
			os.Remove(u.addr)
		} else {
			ln, err := net.Listen("tcp4", "127.0.0.1:0")
			r.must(err)
			u.addr = ln.Addr().String()
			ln.Close()
		}
		bin := filepath.Join(r.dir, "..", "ufs")
		a := append([]string{"-ntype", network, "-addr", u.addr, "-root", root}, args...)
		if memKB > 0 || nofile > 0 {
			lim := ""
			if memKB > 0 {
				lim += fmt.Sprintf("ulimit -v %d; ", memKB)
			}
			if nofile > 0 {
				lim += fmt.Sprintf("ulimit -n %d; ", nofile)
			}
			a = append([]string{"-c", lim + "exec \"$0\" \"$@\"", bin}, a...)
			bin = "/bin/sh"
		}
		u.cmd = exec.Command(bin, a...)
		u.cmd.Dir = dir
		u.cmd.Env = append(os.Environ(), env...)
		u.cmd.Stderr = u.out
		u.cmd.Stdout = u.out
		u.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		r.must(u.cmd.Start())
		go func() { u.err = u.cmd.Wait(); close(u.ended) }()
		up := false
		for i := 0; i < stallTicks*10 && !up; i++ {
			select {
			case <-u.ended:
				i = stallTicks * 10
				continue
			default:
			}
			c, err := net.Dial(network, u.addr)
			if err == nil {
				c.Close()
				up = true
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if up {
			return u
		}
		u.kill()
		if try == 3 {
			r.fail("the ufs command (%v) does not serve %s: %v\n%s", args, u.addr, u.err, u.out)
		}
	}
}

// dial connects; the process has to be there.
func (u *ufsProc) dial() net.Conn {
	var err error
	for i := 0; i < 50; i++ {
		var c net.Conn
		c, err = net.Dial(u.network, u.addr)
		if err == nil {
			return c
		}
		u.alive("a connection was made")
		time.Sleep(20 * time.Millisecond)
	}
	u.r.fail("the ufs command does not accept connections any more: %v\n%s", err, u.out)
	return nil
}

// alive fails if the process has ended.
func (u *ufsProc) alive(when string) {
	select {
	case <-u.ended:
		s := u.out.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		u.r.fail("the ufs command ended (%v) when %s\n%s", u.err, when, s)
	default:
	}
}

func (u *ufsProc) kill() {
	u.cmd.Process.Kill()
	<-u.ended
}

// session negotiates on a new connection.
func (u *ufsProc) session(name string, msize uint32) *raw {
	x := newRaw(u.r, u.dial(), name)
	m, bad := x.rpc(Tversion, msize, "9P2000")
	if bad != "" {
		u.alive("it was asked for " + name)
		u.r.fail("ufs command: version negotiation: %s", bad)
	}
	if m.isErr() || m.F[1] != "9P2000" || m.F[0].(uint32) > msize {
		u.r.fail("ufs command: Tversion(%d) was answered %v", msize, m)
	}
	x.msize = m.F[0].(uint32)
	return x
}
