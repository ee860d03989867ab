package harness

// Driver "link": data links, clients and peers on real sockets of the loopback network.
// Driver "addr": conversions of addresses.

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/datalink"
	ip2bytes "github.com/NubeDev/bacnet/helpers/ipbytes"
	"github.com/NubeDev/bacnet/network"
)

type linkOp struct {
	Op   string `json:"op"`
	L    int    `json:"l"`
	P    int    `json:"p"`
	How  string `json:"how"`
	Via  string `json:"via"`
	Cli  bool   `json:"cli"`
	Adr  Bytes  `json:"adr"`
	Pre  int    `json:"pre"`
	Port int    `json:"port"`
	Text string `json:"text"`
	Mode int    `json:"mode"`
	IP   Bytes  `json:"ip"`
	Mac  Bytes  `json:"mac"`
	B    Bytes  `json:"b"`
	Tok  Bytes  `json:"tok"`
	N    int    `json:"n"`
}

type linkWorld struct {
	mu    sync.Mutex
	port  map[int]int // symbol -> real
	sym   map[int]int // real -> symbol
	links map[int]*linkEnd
	peers map[int]*peerEnd
	got   int
	down  int // receive loops that ended
	close int // links that were closed while open
	over  bool
	fail  bool // something that was due did not come: the rest is left out
}

type linkEnd struct {
	op      linkOp
	dl      datalink.DataLink
	cli     bacnet.Client
	nw      *network.Network
	closed  bool
	fake    *fakeLink
	viaSeen string
	fport   int
}

type peerEnd struct {
	c   *net.UDPConn
	ask *linkEnd // the client that is asking
	tok Bytes
}

func (w *linkWorld) realPort(p int) int {
	if r, ok := w.port[p]; ok {
		return r
	}
	return p
}
func (w *linkWorld) symPort(p int) int {
	if s, ok := w.sym[p]; ok {
		return s
	}
	return p
}
func (w *linkWorld) symMac(a *btypes.Address) Bytes {
	if a == nil || len(a.Mac) != 6 || a.MacLen != 6 || a.Net != 0 || a.Len != 0 || len(a.Adr) != 0 {
		return Bytes{}
	}
	p := w.symPort(int(a.Mac[4])<<8 | int(a.Mac[5]))
	return cat(a.Mac[:4], []byte{byte(p >> 8), byte(p)})
}
func (w *linkWorld) realMac(m Bytes) Bytes {
	if len(m) != 6 {
		return m
	}
	p := w.realPort(int(m[4])<<8 | int(m[5]))
	return cat(m[:4], []byte{byte(p >> 8), byte(p)})
}
func (w *linkWorld) gotEv(to string, id int, ip []byte, port int, b []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.over {
		return
	}
	rec.ev("got", "to", []any{to, id}, "ip", Bytes(ip), "port", port, "b", Bytes(b))
	w.got++
}
func (w *linkWorld) downEv(l int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.over {
		return
	}
	rec.ev("down", "l", l)
	w.down++
}

// the answer to a read-property request: the same property, with a real value
func answerRP(b []byte, tok []byte) []byte {
	if len(b) < 10 || b[0] != 0x81 {
		return nil
	}
	i := 6
	if b[5]&0x20 != 0 { // destination network
		i += 3 + int(b[8]) + 1
	}
	if i+4 > len(b) || b[i]>>4 != 0 || b[i+3] != 12 {
		return nil
	}
	body := append([]byte{1, 0, 0x30, b[i+2], 12}, b[i+4:]...)
	body = append(body, 0x3e, 0x44)
	body = append(body, tok...)
	body = append(body, 0x3f)
	n := len(body) + 4
	return append([]byte{0x81, 0x0a, byte(n >> 8), byte(n)}, body...)
}

// a link that is given to a client; it answers requests itself
type fakeLink struct {
	w     *linkWorld
	end   *linkEnd
	l     int
	rx    chan []byte
	done  chan struct{}
	once  sync.Once
	mu    sync.Mutex
	tok   Bytes
	asked bool
}

func (f *fakeLink) GetMyAddress() *btypes.Address {
	return datalink.IPPortToAddress(net.IPv4(10, 9, 8, 7), 47808)
}
func (f *fakeLink) GetBroadcastAddress() *btypes.Address {
	return datalink.IPPortToAddress(net.IPv4(10, 9, 8, 255), 47808)
}
func (f *fakeLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	select {
	case <-f.done:
		return 0, net.ErrClosed
	default:
	}
	f.mu.Lock()
	tok := f.tok
	f.mu.Unlock()
	if a := answerRP(data, tok); a != nil && tok != nil {
		f.w.mu.Lock()
		f.end.viaSeen = "supplied"
		f.w.mu.Unlock()
		f.rx <- a
	} else if len(dest.Mac) == 6 {
		f.w.gotEv("s", f.l, dest.Mac[:4], int(dest.Mac[4])<<8|int(dest.Mac[5]), data)
	}
	return len(data), nil
}
func (f *fakeLink) Receive(b []byte) (*btypes.Address, int, error) {
	select {
	case <-f.done:
		return nil, 0, net.ErrClosed
	case m := <-f.rx:
		return datalink.IPPortToAddress(net.IPv4(10, 9, 8, 6), 47808), copy(b, m), nil
	}
}
func (f *fakeLink) Close() error {
	f.once.Do(func() { close(f.done) })
	return nil
}

// free ports, out of the range from which the system takes ports
func freePorts(n int) []int {
	base, _ := strconv.Atoi(os.Getenv("VSTART"))
	var res []int
	for try := 0; len(res) < n; try++ {
		p := 20000 + (base%16)*700 + (rec.c*7+try)%700
		c, err := net.ListenUDP("udp4", &net.UDPAddr{Port: p})
		if err != nil {
			continue
		}
		c.Close()
		res = append(res, p)
	}
	return res
}

func (w *linkWorld) open(op linkOp) {
	e := &linkEnd{op: op}
	port := w.realPort(op.Port)
	text := op.Text
	if len(op.Adr) == 4 {
		text = net.IP(op.Adr).String()
	}
	ifc := op.Text
	if len(op.Adr) == 4 {
		ifc = "lo"
	}
	cidr := fmt.Sprintf("%s/%d", text, op.Pre)
	var err error
	switch op.How {
	case "ip":
		e.dl, err = datalink.NewUDPDataLinkFromIP(text, op.Pre, port)
	case "cidr":
		e.dl, err = datalink.NewUDPDataLink(cidr, port)
	case "iface":
		e.dl, err = datalink.NewUDPDataLink(ifc, port)
	case "c.ip":
		e.cli, err = bacnet.NewClient(&bacnet.ClientBuilder{Ip: text, SubnetCIDR: op.Pre, Port: port})
	case "c.cidr":
		e.cli, err = bacnet.NewClient(&bacnet.ClientBuilder{Interface: cidr, Port: port})
	case "c.iface":
		e.cli, err = bacnet.NewClient(&bacnet.ClientBuilder{Interface: ifc, Port: port})
	case "c.link":
		e.fake = &fakeLink{w: w, l: op.L, end: e, rx: make(chan []byte, 16), done: make(chan struct{})}
		cb := &bacnet.ClientBuilder{DataLink: e.fake, Ip: text, SubnetCIDR: op.Pre, Port: port}
		if op.L%2 == 0 {
			cb.Interface = "lo"
		}
		e.cli, err = bacnet.NewClient(cb)
	case "c.udp":
		var dl datalink.DataLink
		dl, err = datalink.NewUDPDataLinkFromIP(text, op.Pre, port)
		if err == nil {
			e.cli, err = bacnet.NewClient(&bacnet.ClientBuilder{DataLink: dl, Ip: "127.0.0.1", SubnetCIDR: 8, Port: w.port[4]})
		}
	case "n.ip", "n.iface":
		n := &network.Network{Port: port, StoreID: "s" + strconv.Itoa(op.L)}
		if op.How == "n.ip" {
			n.Ip, n.SubnetCIDR = text, op.Pre
		} else {
			n.Interface = ifc
		}
		e.nw, err = network.New(n)
	}
	my, bc := Bytes{}, Bytes{}
	if err == nil && e.dl != nil {
		my, bc = w.symMac(e.dl.GetMyAddress()), w.symMac(e.dl.GetBroadcastAddress())
	}
	rec.ev("open", "l", op.L, "via", op.Via, "cli", op.Cli, "adr", op.Adr, "pre", op.Pre, "port", op.Port, "ok", err == nil, "my", my, "bc", bc)
	if err != nil {
		return
	}
	w.links[op.L] = e
	switch {
	case e.dl != nil:
		go func() {
			for {
				b := make([]byte, 4096)
				a, n, err := e.dl.Receive(b)
				if err != nil {
					break
				}
				if a == nil || len(a.Mac) != 6 || a.MacLen != 6 || a.Net != 0 || len(a.Adr) != 0 {
					w.gotEv("l", op.L, []byte{}, 0, b[:n])
					continue
				}
				w.gotEv("l", op.L, a.Mac[:4], w.symPort(int(a.Mac[4])<<8|int(a.Mac[5])), b[:n])
			}
			w.downEv(op.L)
		}()
	case e.cli != nil:
		go func() { e.cli.ClientRun(); w.downEv(op.L) }()
	default:
		go func() { e.nw.NetworkRun(); w.downEv(op.L) }()
	}
}

func (w *linkWorld) closeLink(op linkOp) {
	e := w.links[op.L]
	if e == nil {
		return
	}
	w.mu.Lock()
	if !e.closed {
		e.closed = true
		w.close++
	}
	rec.ev("close", "l", op.L)
	w.mu.Unlock()
	switch {
	case e.dl != nil:
		e.dl.Close()
	case e.cli != nil:
		if op.Mode == 2 {
			e.cli.Close()
		} else {
			e.cli.ClientClose(op.Mode == 1)
		}
	default:
		e.nw.NetworkClose(op.Mode == 1)
	}
}

func (w *linkWorld) peerOpen(op linkOp) {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP(op.IP), Port: w.realPort(op.Port)})
	rec.ev("popen", "p", op.P, "ip", op.IP, "port", op.Port, "ok", err == nil)
	if err != nil {
		return
	}
	p := &peerEnd{c: c}
	w.mu.Lock()
	w.peers[op.P] = p
	w.mu.Unlock()
	go func() {
		for {
			b := make([]byte, 4096)
			n, from, err := c.ReadFromUDP(b)
			if err != nil {
				return
			}
			w.mu.Lock()
			ask, tok := p.ask, p.tok
			w.mu.Unlock()
			if ask != nil {
				if a := answerRP(b[:n], tok); a != nil {
					w.mu.Lock()
					ask.viaSeen, ask.fport = "udp", w.symPort(from.Port)
					w.mu.Unlock()
					c.WriteToUDP(a, from)
					continue
				}
			}
			w.gotEv("p", op.P, from.IP.To4(), w.symPort(from.Port), b[:n])
		}
	}()
}

func valBytes(f float32) Bytes {
	b := math.Float32bits(f)
	return Bytes{byte(b >> 24), byte(b >> 16), byte(b >> 8), byte(b)}
}

func (w *linkWorld) ask(op linkOp) {
	e := w.links[op.L]
	if e == nil {
		return
	}
	w.mu.Lock()
	e.viaSeen, e.fport = "", 0
	p := w.peers[op.P]
	if p != nil {
		p.ask, p.tok = e, op.Tok
	}
	w.mu.Unlock()
	if e.fake != nil {
		e.fake.mu.Lock()
		e.fake.tok = op.Tok
		e.fake.mu.Unlock()
	}
	port := w.realPort(op.Port)
	var v Bytes
	ok := false
	if e.nw != nil {
		dev, err := network.NewDevice(e.nw, &network.Device{Ip: net.IP(op.IP).String(), Port: port, DeviceID: 5})
		if err == nil {
			f, err := dev.PointReadFloat32(&network.Point{ObjectID: 1, ObjectType: btypes.AnalogValue})
			ok, v = err == nil, valBytes(f)
		}
	} else {
		dev, err := btypes.NewDevice(&btypes.Device{Ip: net.IP(op.IP).String(), Port: port})
		if err == nil {
			dev.Addr.Adr = nil
			r, err := e.cli.ReadProperty(*dev, btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: btypes.AnalogValue, Instance: 1},
				Properties: []btypes.Property{{Type: btypes.PropPresentValue, ArrayIndex: btypes.ArrayAll}}}})
			if err == nil && len(r.Object.Properties) == 1 {
				if f, is := r.Object.Properties[0].Data.(float32); is {
					ok, v = true, valBytes(f)
				}
			}
		}
	}
	if e.fake != nil {
		e.fake.mu.Lock()
		e.fake.tok = nil
		e.fake.mu.Unlock()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if p != nil {
		p.ask = nil
	}
	w.fail = w.fail || (!ok && !e.closed)
	rec.ev("asked", "l", op.L, "p", op.P, "ok", ok, "v", v, "tok", op.Tok, "via", e.viaSeen, "fport", e.fport)
}

// everything that is due has arrived, and nothing else
func (w *linkWorld) sync(n int) {
	until := time.Now().Add(4 * time.Second)
	for {
		w.mu.Lock()
		done := w.got >= n && w.down >= w.close
		w.mu.Unlock()
		if done {
			break
		}
		if time.Now().After(until) {
			w.fail = true
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(4 * time.Millisecond)
	w.mu.Lock()
	defer w.mu.Unlock()
	rec.ev("sync")
}

func init() {
	drivers["link"] = func(t *testing.T, raw json.RawMessage) bool {
		var cs struct {
			Ops []linkOp `json:"ops"`
		}
		mustUnmarshal(raw, &cs)
		w := &linkWorld{port: map[int]int{}, sym: map[int]int{}, links: map[int]*linkEnd{}, peers: map[int]*peerEnd{}}
		for i, p := range freePorts(4) {
			w.port[i+1], w.sym[p] = p, i+1
		}
		for _, op := range cs.Ops {
			if w.fail {
				break
			}
			freshStderr()
			switch op.Op {
			case "open":
				w.open(op)
			case "close":
				w.closeLink(op)
			case "popen":
				w.peerOpen(op)
			case "pclose":
				if p := w.peers[op.P]; p != nil {
					w.mu.Lock()
					rec.ev("pclose", "p", op.P)
					w.mu.Unlock()
					p.c.Close()
				}
			case "send":
				if e := w.links[op.L]; e != nil && e.dl != nil {
					rec.ev("send", "l", op.L, "mac", op.Mac, "b", op.B)
					mac := w.realMac(op.Mac)
					_, err := e.dl.Send(op.B, nil, &btypes.Address{Mac: mac, MacLen: uint8(len(mac))})
					rec.ev("sent", "l", op.L, "mac", op.Mac, "ok", err == nil)
				}
			case "psend":
				if p := w.peers[op.P]; p != nil {
					rec.ev("psend", "p", op.P, "ip", op.IP, "port", op.Port, "b", op.B)
					p.c.WriteToUDP(op.B, &net.UDPAddr{IP: net.IP(op.IP), Port: w.realPort(op.Port)})
				}
			case "ask":
				w.ask(op)
			case "who":
				if e := w.links[op.L]; e != nil && e.dl == nil {
					rec.ev("who", "l", op.L)
					if e.cli != nil {
						go e.cli.WhoIs(&bacnet.WhoIsOpts{Low: 0, High: 10})
					} else {
						go e.nw.Whois(&bacnet.WhoIsOpts{Low: 0, High: 10})
					}
					time.Sleep(10 * time.Millisecond)
				}
			case "sync":
				w.sync(op.N)
			}
		}
		w.mu.Lock()
		rec.ev("end")
		w.over = true
		w.mu.Unlock()
		for _, e := range w.links {
			switch {
			case e.dl != nil:
				e.dl.Close()
			case e.cli != nil:
				e.cli.Close()
			default:
				e.nw.NetworkClose(false)
			}
		}
		for _, p := range w.peers {
			p.c.Close()
		}
		return false
	}
	drivers["addr"] = func(t *testing.T, raw json.RawMessage) bool {
		var cs struct {
			IP   Bytes `json:"ip"`
			Port int   `json:"port"`
		}
		mustUnmarshal(raw, &cs)
		ip4 := net.IP(cs.IP)
		ip16 := net.IPv4(cs.IP[0], cs.IP[1], cs.IP[2], cs.IP[3])
		all := func(a *btypes.Address) []any {
			return []any{Bytes(a.Mac), int(a.MacLen), int(a.Net), int(a.Len), Bytes(a.Adr)}
		}
		back := func(a *btypes.Address) []any {
			u, err := a.UDPAddr()
			if err != nil {
				return []any{}
			}
			return []any{Bytes(u.IP.To4()), u.Port}
		}
		a1, a2 := datalink.IPPortToAddress(ip4, cs.Port), datalink.IPPortToAddress(ip16, cs.Port)
		a3, a4 := datalink.UDPToAddress(&net.UDPAddr{IP: ip4, Port: cs.Port}), datalink.UDPToAddress(&net.UDPAddr{IP: ip16, Port: cs.Port})
		u, _ := a1.UDPAddr()
		a5 := datalink.UDPToAddress(&u)
		nb, err := ip2bytes.New(ip4.String(), uint16(cs.Port))
		if err != nil {
			nb = nil
		}
		a6 := &btypes.Address{}
		if d, err := btypes.NewDevice(&btypes.Device{Ip: ip4.String(), Port: cs.Port}); err == nil {
			a6 = &d.Addr
		}
		rec.ev("res", "addr", []any{all(a1), all(a2), all(a3), all(a4), all(a5)}, "back", []any{back(a1), back(a4), back(a5), back(a6)},
			"nb", Bytes(nb), "dev", Bytes(a6.Mac))
		return false
	}
}
