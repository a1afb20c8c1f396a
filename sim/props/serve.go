package props

import (
	"net"
	"net/http"
	"os"
	"syscall"
)

// clients is what happens while the program serves HTTP; nil: the port is
// taken.
var clients func(h http.Handler)

// port is where the program listens.
type port struct{ addr string }

func (p port) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (p port) Close() error              { return nil }
func (p port) Addr() net.Addr            { return p }
func (p port) Network() string           { return "tcp" }
func (p port) String() string            { return p.addr }

func init() {
	net.SimListen = func(network, addr string) (net.Listener, error) {
		if clients == nil {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: port{addr}, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
		return port{addr}, nil
	}
	http.SimServe = func(h http.Handler, l net.Listener) error {
		if h == nil {
			h = http.DefaultServeMux
		}
		if c := clients; c != nil {
			c(h)
		}
		return http.ErrServerClosed
	}
}
