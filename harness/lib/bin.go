package lib

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// RunResult is the result of running a program
type RunResult struct {
	Code   int // exit status, -1 if killed by a signal
	Signal string
	Stdout []byte
	Stderr []byte
}

// Crashed tells if the program crashed with a stack trace
func (r RunResult) Crashed() bool {
	return strings.Contains(string(r.Stderr), "\ngoroutine ") || r.Code == 2 && strings.Contains(string(r.Stderr), "panic:")
}

// RunOpts are options for running a program
type RunOpts struct {
	Dir     string
	Stdout  *os.File // if not nil, do not capture standard output
	Timeout time.Duration
	Prefix  []string // prefix the command
	UID     uint32   // run as the given user and group
}

// RunProg runs a program (not capturing more than it writes), and returns an error if it did not finish in time.
func RunProg(o RunOpts, prog string, args ...string) (res RunResult, err error) {
	if o.Timeout == 0 {
		o.Timeout = 60 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), o.Timeout)
	defer cancel()
	argv := append(append([]string{}, o.Prefix...), prog)
	argv = append(argv, args...)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = o.Dir
	cmd.Env = append([]string{}, os.Environ()...)
	var out, errb bytes.Buffer
	if o.Stdout != nil {
		cmd.Stdout = o.Stdout
	} else {
		cmd.Stdout = &out
	}
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if o.UID != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: o.UID, Gid: o.UID}
	}
	cmd.WaitDelay = 5 * time.Second
	runErr := cmd.Run()
	res.Stdout, res.Stderr = out.Bytes(), errb.Bytes()
	if ctx.Err() != nil {
		return res, fmt.Errorf("%s %v did not finish within %v; stderr: %s", prog, args, o.Timeout, Trim(string(res.Stderr), 2000))
	}
	if runErr != nil {
		ee, ok := runErr.(*exec.ExitError)
		if !ok {
			Must(runErr)
		}
		res.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Signal = ws.Signal().String()
		}
	}
	return res, nil
}

// WriteWorld writes the files of a world
func WriteWorld(dir string, w World) (xml, nq string) {
	xml, nq = filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq")
	Must(os.WriteFile(xml, w.XML(), 0o644))
	Must(os.WriteFile(nq, w.NQ(), 0o644))
	return
}

// PredicateArgs are the arguments for the predicates of a world
func PredicateArgs(w World) []string {
	return []string{"-sameas", strings.Join(w.SameAs, ","), "-inverseof", strings.Join(w.Inverses, "\n")}
}

// Server is a running server
type Server struct {
	Addr   string
	cmd    *exec.Cmd
	stderr lockedBuffer
	exited chan struct{}
}

type lockedBuffer struct {
	m sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.m.Lock()
	defer l.m.Unlock()
	return l.b.String()
}

// StartServer starts a program that serves http at the address given with -addr, and waits until it accepts connections.
func StartServer(dir, prog string, args ...string) (*Server, error) {
	return StartServerAs(RunOpts{Dir: dir}, prog, args...)
}

// StartServerAs is like StartServer, with the prefix and user given
func StartServerAs(o RunOpts, prog string, args ...string) (*Server, error) {
	// an address of this process only, so that we never talk to the server of another one
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>16&0x3f, pid>>8&0xff, pid&0xff)
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		host = "127.0.0.1"
		l, err = net.Listen("tcp", host+":0")
	}
	Must(err)
	s := &Server{Addr: l.Addr().String(), exited: make(chan struct{})}
	Must(l.Close())
	argv := append(append([]string{}, o.Prefix...), prog, "-addr", s.Addr)
	argv = append(argv, args...)
	s.cmd = exec.Command(argv[0], argv[1:]...)
	s.cmd.Dir = o.Dir
	if o.UID != 0 {
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: o.UID, Gid: o.UID}}
	}
	s.cmd.Stderr, s.cmd.Stdout = &s.stderr, &s.stderr
	s.cmd.WaitDelay = 5 * time.Second
	Must(s.cmd.Start())
	go func() {
		s.cmd.Wait()
		close(s.exited)
	}()
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); {
		c, err := net.Dial("tcp", s.Addr)
		if err == nil {
			c.Close()
			return s, nil
		}
		select {
		case <-s.exited:
			return nil, fmt.Errorf("%s %v: exited: %s", prog, args, Trim(s.stderr.String(), 2000))
		case <-time.After(5 * time.Millisecond):
		}
	}
	s.Stop()
	return nil, fmt.Errorf("%s %v: does not listen: %s", prog, args, Trim(s.stderr.String(), 2000))
}

// Output is what the server has written so far
func (s *Server) Output() string { return s.stderr.String() }

// Running tells if the server did not exit
func (s *Server) Running() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

// Stop kills the server
func (s *Server) Stop() {
	s.cmd.Process.Kill()
	<-s.exited
}
