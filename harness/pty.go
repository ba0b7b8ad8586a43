// pty.go - terminals for commands that ask for passphrases
package main

import (
	"fmt"
	"os"
	"sync"
	"syscall"
	"unsafe"
)

// openPTY returns both ends of a new pseudo terminal.
func openPTY() (master, slave *os.File, err error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ctl := func(req uintptr, v *int32) error {
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), req, uintptr(unsafe.Pointer(v)))
		if e != 0 {
			return e
		}
		return nil
	}
	var n, zero int32
	if err = ctl(0x40045431, &zero); err == nil { // TIOCSPTLCK
		err = ctl(0x80045430, &n) // TIOCGPTN
	}
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, s, nil
}

var ptyOnce sync.Once
var ptyFine bool

func ptyOK() bool {
	ptyOnce.Do(func() {
		m, s, err := openPTY()
		if err == nil {
			m.Close()
			s.Close()
			ptyFine = true
		}
	})
	return ptyFine
}

// CLItty runs sigtool with a terminal as standard input, at which the given
// lines are typed. What the terminal shows is thrown away.
func (t *T) CLItty(r Run, lines ...string) *Ran {
	m, s, err := openPTY()
	must(err)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, l := range lines {
			m.Write([]byte(l + "\n"))
		}
		b := make([]byte, 4096)
		for {
			if _, err := m.Read(b); err != nil {
				return
			}
		}
	}()
	r.InFile = s
	defer func() {
		s.Close()
		m.Close()
		wg.Wait()
	}()
	t.Count("terminal_sessions", 1)
	return t.CLI(r)
}
