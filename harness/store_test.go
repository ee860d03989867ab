package harness

// Driver "store": networks and devices stored and looked up, with real sockets on the loopback
// network. Ports and addresses are numbers in the case (1, 2, ..), chosen freely when it runs.

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
)

// fakeDev answers every read-property with a text that tells what was asked and how
type fakeDev struct {
	conn *net.UDPConn
	ip   string
	port int
}

func newFakeDev(ip string) *fakeDev {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip)})
	if err != nil {
		panic(err)
	}
	f := &fakeDev{conn: c, ip: ip, port: c.LocalAddr().(*net.UDPAddr).Port}
	go func() {
		buf := make([]byte, 2000)
		for {
			n, from, err := c.ReadFromUDP(buf)
			if err != nil {
				return
			}
			b := buf[:n]
			p, ok := apduStart(b)
			if !ok || len(b) < p+9 || b[p] != 0 || b[p+3] != 12 {
				continue
			}
			var dnet int
			adr := []byte{}
			if b[5]&0x20 != 0 {
				dnet = int(b[6])<<8 | int(b[7])
				adr = b[9 : 9+int(b[8])]
			}
			ja, _ := json.Marshal(Bytes(adr))
			txt := fmt.Sprintf("%s %d %d %s %d", f.ip, f.port, dnet, ja, from.Port)
			body := append([]byte{0x30, b[p+2], 12}, b[p+4:]...)
			body = append(body, 0x3E, 0x75, byte(len(txt)+1), 0)
			body = append(append(body, txt...), 0x3F)
			npdu := []byte{1, 0}
			if dnet != 0 {
				npdu = append([]byte{1, 8, byte(dnet >> 8), byte(dnet), byte(len(adr))}, adr...)
			}
			out := append(npdu, body...)
			out = append([]byte{0x81, 0x0A, byte((len(out) + 4) >> 8), byte(len(out) + 4)}, out...)
			c.WriteToUDP(out, from)
		}
	}()
	return f
}

var lastPort int

// freePort is a UDP port nobody uses; below the ports the kernel hands out itself, and each
// worker has its own range
func freePort() int {
	if lastPort == 0 {
		start, _ := strconv.Atoi(os.Getenv("VSTART"))
		step, _ := strconv.Atoi(os.Getenv("VSTEP"))
		if step < 1 {
			step = 1
		}
		lastPort = 10000 + (start%step)*2500 + (os.Getpid()*37)%2000
	}
	for i := 0; ; i++ {
		lastPort++
		if lastPort%2500 == 2499 {
			lastPort -= 2498
		}
		c, err := net.ListenUDP("udp4", &net.UDPAddr{Port: lastPort})
		if err == nil {
			c.Close()
			return lastPort
		}
		if i > 2500 {
			panic(err)
		}
	}
}

var storeBroken int

type storeCase struct {
	Ops []struct {
		Op   string `json:"op"`
		S    int    `json:"s"` // store
		ID   string `json:"id"`
		Port int    `json:"port"` // of a network
		N    int    `json:"n"`    // handle of a network
		D    struct {
			At  int `json:"at"` // the fake device
			Net int `json:"net"`
			Mac int `json:"mac"`
			Dev int `json:"dev"`
			Max int `json:"max"`
			Seg int `json:"seg"`
		} `json:"d"`
	} `json:"ops"`
}

func init() {
	drivers["store"] = func(t *testing.T, raw json.RawMessage) bool {
		var cs storeCase
		mustUnmarshal(raw, &cs)
		if storeBroken >= 2 {
			rec.ev("skip")
			return false
		}
		fakes := []*fakeDev{newFakeDev("127.0.0.1"), newFakeDev("127.0.0.2"), newFakeDev("127.3.0.1")}
		ports := map[int]int{}
		back := map[int]int{}
		port := func(i int) int {
			for ports[i] == 0 {
				p := freePort()
				if back[p] == 0 && p != fakes[0].port && p != fakes[1].port && p != fakes[2].port {
					ports[i] = p
					back[p] = i
				}
			}
			return ports[i]
		}
		stores := []*network.Store{}
		snum := func(s *network.Store) int {
			for i, x := range stores {
				if x == s {
					return i + 1
				}
			}
			return 0
		}
		stores = append(stores, network.NewStore(), network.NewStore())
		handles := []*network.Network{}
		running := map[*network.Network]bool{}
		run := func(n *network.Network) {
			if !running[n] {
				running[n] = true
				go n.NetworkRun()
			}
		}
		closeAll := func() {
			for n := range running {
				n.NetworkClose(false)
			}
			for _, f := range fakes {
				f.conn.Close()
			}
		}
		defer closeAll()
		netObs := func(n *network.Network) []any {
			return []any{"port", back[n.Port], "ip", n.Ip, "sub", n.SubnetCIDR, "iface", n.Interface, "sid", n.StoreID, "store", snum(n.Store)}
		}
		devOf := func(i int) *network.Device {
			d := cs.Ops[i].D
			return &network.Device{Ip: fakes[d.At-1].ip, Port: fakes[d.At-1].port, NetworkNumber: d.Net, MacMSTP: d.Mac, DeviceID: d.Dev,
				MaxApdu: uint32(d.Max), Segmentation: uint32(d.Seg), StoreID: cs.Ops[i].ID}
		}
		for i, op := range cs.Ops {
			realProgress.Store(time.Now().UnixNano())
			switch op.Op {
			case "net":
				err := stores[op.S-1].NewNetwork(op.ID, "", "127.0.0.1", port(op.Port), 8)
				rec.ev("obs", "ok", err == nil)
			case "netif":
				err := stores[op.S-1].NewNetwork(op.ID, "127.0.0.1/8", "", port(op.Port), 0)
				rec.ev("obs", "ok", err == nil)
			case "netnew":
				nw := &network.Network{Ip: "127.0.0.1", Port: port(op.Port), SubnetCIDR: 8, StoreID: op.ID}
				if op.S > 0 {
					nw.Store = stores[op.S-1]
				}
				n, err := network.New(nw)
				if err != nil || n == nil {
					rec.ev("obs", "ok", false)
					break
				}
				if snum(n.Store) == 0 {
					stores = append(stores, n.Store)
				}
				run(n)
				handles = append(handles, n)
				rec.ev("obs", append([]any{"ok", true}, netObs(n)...)...)
			case "getnet":
				n, err := stores[op.S-1].GetNetwork(op.ID)
				if err != nil {
					rec.ev("obs", "ok", false)
					break
				}
				run(n)
				handles = append(handles, n)
				rec.ev("obs", append([]any{"ok", true}, netObs(n)...)...)
			case "dev":
				d, err := network.NewDevice(handles[op.N-1], devOf(i))
				rec.ev("obs", "ok", err == nil && d != nil)
			case "upd":
				err := stores[op.S-1].UpdateDevice(op.ID, handles[op.N-1], devOf(i))
				rec.ev("obs", "ok", err == nil)
			case "getdev":
				d, err := stores[op.S-1].GetDevice(op.ID)
				if err != nil {
					rec.ev("obs", "ok", false)
					break
				}
				at := 0
				for j, f := range fakes {
					if f.ip == d.Ip && f.port == d.Port {
						at = j + 1
					}
				}
				kv := []any{"ok", true, "at", at, "net", d.NetworkNumber, "mac", d.MacMSTP, "dev", d.DeviceID, "max", int(d.MaxApdu), "seg", int(d.Segmentation)}
				r, err := d.Read(&network.Object{ObjectID: 1, ObjectType: btypes.AnalogInput, Prop: btypes.PropObjectName, ArrayIndex: bacnet.ArrayAll})
				who, wnet, wsrc, wadr := 0, 0, 0, Bytes{}
				if err == nil && len(r.Object.Properties) == 1 {
					if s, ok := r.Object.Properties[0].Data.(string); ok {
						var ip, adr string
						var p, src int
						fmt.Sscanf(s, "%s %d %d %s %d", &ip, &p, &wnet, &adr, &src)
						for j, f := range fakes {
							if f.ip == ip && f.port == p {
								who = j + 1
							}
						}
						wsrc = back[src]
						json.Unmarshal([]byte(adr), &wadr)
					}
				}
				if err != nil {
					// each takes seconds: what comes after a read that fails is not worth its time
					storeBroken++
					rec.ev("obs", append(kv, "who", 0, "err", errStr(err))...)
					return false
				}
				rec.ev("obs", append(kv, "who", who, "wnet", wnet, "wadr", wadr, "wsrc", wsrc, "err", errStr(err))...)
			}
		}
		return false
	}
}
