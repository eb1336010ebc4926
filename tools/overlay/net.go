package main

import (
	"os"
	"path/filepath"
)

func patchNet(goroot, here string) {
	f := func(sig, hook string) edit { return edit{sig + " {\n", sig + " {\n	if fd.sim != nil {\n		" + hook + "\n	}\n"} }
	patch(goroot, "net/fd_posix.go",
		edit{"	raddr       Addr\n}\n", "	raddr       Addr\n	sim         SimUDPSock\n	simPeer     *UDPAddr\n}\n"},
		f("func (fd *netFD) Close() error", "return fd.sim.SimClose()"),
		f("func (fd *netFD) Read(p []byte) (n int, err error)", "n, _, err = fd.simRead(p); return"),
		f("func (fd *netFD) readFrom(p []byte) (n int, sa syscall.Sockaddr, err error)", "return fd.simRead(p)"),
		f("func (fd *netFD) readFromInet4(p []byte, from *syscall.SockaddrInet4) (n int, err error)", "return fd.simRead4(p, from)"),
		f("func (fd *netFD) readFromInet6(p []byte, from *syscall.SockaddrInet6) (n int, err error)", "return fd.simRead6(p, from)"),
		f("func (fd *netFD) readMsg(p []byte, oob []byte, flags int) (n, oobn, retflags int, sa syscall.Sockaddr, err error)", "n, sa, err = fd.simRead(p); return"),
		f("func (fd *netFD) readMsgInet4(p []byte, oob []byte, flags int, sa *syscall.SockaddrInet4) (n, oobn, retflags int, err error)", "n, err = fd.simRead4(p, sa); return"),
		f("func (fd *netFD) readMsgInet6(p []byte, oob []byte, flags int, sa *syscall.SockaddrInet6) (n, oobn, retflags int, err error)", "n, err = fd.simRead6(p, sa); return"),
		f("func (fd *netFD) Write(p []byte) (nn int, err error)", "return fd.simWrite(p, nil)"),
		f("func (fd *netFD) writeTo(p []byte, sa syscall.Sockaddr) (n int, err error)", "return fd.simWrite(p, sa)"),
		f("func (fd *netFD) writeToInet4(p []byte, sa *syscall.SockaddrInet4) (n int, err error)", "return fd.simWrite(p, sa)"),
		f("func (fd *netFD) writeToInet6(p []byte, sa *syscall.SockaddrInet6) (n int, err error)", "return fd.simWrite(p, sa)"),
		f("func (fd *netFD) writeMsg(p []byte, oob []byte, sa syscall.Sockaddr) (n int, oobn int, err error)", "n, err = fd.simWrite(p, sa); return"),
		f("func (fd *netFD) writeMsgInet4(p []byte, oob []byte, sa *syscall.SockaddrInet4) (n int, oobn int, err error)", "if sa == nil { n, err = fd.simWrite(p, nil) } else { n, err = fd.simWrite(p, sa) }; return"),
		f("func (fd *netFD) writeMsgInet6(p []byte, oob []byte, sa *syscall.SockaddrInet6) (n int, oobn int, err error)", "if sa == nil { n, err = fd.simWrite(p, nil) } else { n, err = fd.simWrite(p, sa) }; return"),
		f("func (fd *netFD) SetDeadline(t time.Time) error", "return fd.sim.SimSetDeadline(3, t)"),
		f("func (fd *netFD) SetReadDeadline(t time.Time) error", "return fd.sim.SimSetDeadline(1, t)"),
		f("func (fd *netFD) SetWriteDeadline(t time.Time) error", "return fd.sim.SimSetDeadline(2, t)"),
	)
	patch(goroot, "net/udpsock_posix.go",
		edit{"func (sd *sysDialer) dialUDP(ctx context.Context, laddr, raddr *UDPAddr) (*UDPConn, error) {\n",
			"func (sd *sysDialer) dialUDP(ctx context.Context, laddr, raddr *UDPAddr) (*UDPConn, error) {\n	if SimListenUDP != nil {\n		return simNewUDP(sd.network, laddr, raddr)\n	}\n"},
		edit{"func (sl *sysListener) listenUDP(ctx context.Context, laddr *UDPAddr) (*UDPConn, error) {\n",
			"func (sl *sysListener) listenUDP(ctx context.Context, laddr *UDPAddr) (*UDPConn, error) {\n	if SimListenUDP != nil {\n		return simNewUDP(sl.network, laddr, nil)\n	}\n"},
	)
	patch(goroot, "net/sockopt_posix.go",
		f("func setReadBuffer(fd *netFD, bytes int) error", "return nil"),
		f("func setWriteBuffer(fd *netFD, bytes int) error", "return nil"),
	)
	z, err := os.ReadFile(filepath.Join(here, "znetsim.go.txt"))
	if err != nil {
		fatal("%v", err)
	}
	dst := filepath.Join(outDir, "goroot", "net", "zsim.go")
	writeIfChanged(dst, z)
	replace[filepath.Join(goroot, "src/net/zsim.go")] = dst
}
