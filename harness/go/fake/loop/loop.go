// Package loop gives each fake server an address of its own in the loopback network,
// so that nothing else takes its port while it is stopped.
package loop

import (
	"encoding/binary"
	"hash/fnv"
	"net"
	"os"
	"sync/atomic"
	"time"
)

var (
	base = func() uint32 {
		h := fnv.New32a()
		_ = binary.Write(h, binary.LittleEndian, [2]int64{int64(os.Getpid()), time.Now().UnixNano()})
		return h.Sum32()
	}()
	count atomic.Uint32
)

// IP gives an address that no other server uses. The first half depends on the
// process, the second one on the server.
func IP() net.IP {
	n := count.Add(1)
	ip := net.IPv4(127, byte(1+base%200), byte(base>>8)+byte(n/250), byte(1+n%250))
	ln, err := net.Listen("tcp", net.JoinHostPort(ip.String(), "0"))
	if err != nil {
		return net.IPv4(127, 0, 0, 1)
	}
	ln.Close()
	return ip
}

// Any gives an address to listen to.
func Any() string { return net.JoinHostPort(IP().String(), "0") }
