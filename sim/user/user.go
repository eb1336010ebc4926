// Package user holds the accesses that the library's surroundings make to memory
// they share with it: a user's to the bytes of frames, the kernel's to buffers.
// In the race build it is instrumented and the simulator itself is not.
package user

import (
	"io"
	"net"
	"time"
)

// Read copies what the library handed out.
//
//go:noinline
func Read(b []byte) []byte { return append([]byte(nil), b...) }

// Write overwrites it.
//
//go:noinline
func Write(b []byte, x byte) {
	for i := range b {
		b[i] = x
	}
}

// Fill puts data into a buffer of the library's.
//
//go:noinline
func Fill(p, data []byte) int { return copy(p, data) }

// Conn, Sock and Log stand between the library and the simulator, so that a race
// report tells the simulator's own accesses from the library's.
type Conn struct{ I io.ReadWriteCloser }

//go:noinline
func (c *Conn) Read(p []byte) (int, error) {
	n, err := c.I.Read(p)
	return n, err
}

//go:noinline
func (c *Conn) Write(p []byte) (int, error) {
	n, err := c.I.Write(p)
	return n, err
}

//go:noinline
func (c *Conn) Close() error {
	err := c.I.Close()
	return err
}

type Sock struct{ I net.SimUDPSock }

//go:noinline
func (s *Sock) SimReadFrom(p []byte) (int, net.IP, int, error) {
	n, ip, port, err := s.I.SimReadFrom(p)
	return n, ip, port, err
}

//go:noinline
func (s *Sock) SimWriteTo(p []byte, ip net.IP, port int) (int, error) {
	n, err := s.I.SimWriteTo(p, ip, port)
	return n, err
}

//go:noinline
func (s *Sock) SimClose() error {
	err := s.I.SimClose()
	return err
}

//go:noinline
func (s *Sock) SimSetDeadline(mode int, t time.Time) error {
	err := s.I.SimSetDeadline(mode, t)
	return err
}

type Log struct {
	I interface {
		LogRead([]byte) error
		LogWritten([]byte) error
	}
}

//go:noinline
func (l *Log) LogRead(b []byte) error {
	err := l.I.LogRead(b)
	return err
}

//go:noinline
func (l *Log) LogWritten(b []byte) error {
	err := l.I.LogWritten(b)
	return err
}

// Listen wraps what makes sockets.
func Listen(f func(string, *net.UDPAddr, *net.UDPAddr) (net.SimUDPSock, *net.UDPAddr, bool, error)) func(string, *net.UDPAddr, *net.UDPAddr) (net.SimUDPSock, *net.UDPAddr, bool, error) {
	return func(network string, l, r *net.UDPAddr) (net.SimUDPSock, *net.UDPAddr, bool, error) {
		s, a, v6, err := f(network, l, r)
		if err == nil {
			s = &Sock{s}
		}
		return s, a, v6, err
	}
}
