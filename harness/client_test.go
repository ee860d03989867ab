package harness

// Driver "client": a scripted history of client calls and received datagrams, run
// against a real client on an in-memory data link in virtual time (testing/synctest).

import (
	"encoding/json"
	"errors"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
)

type AddrJ struct {
	Net int   `json:"net"`
	Mac Bytes `json:"mac"`
	Adr Bytes `json:"adr"`
	// MacLen/Len as the caller set them; -1 (absent) = length of Mac / 0
	MacLen *int `json:"maclen,omitempty"`
	Len    *int `json:"len,omitempty"`
}

func (a AddrJ) Go() btypes.Address {
	r := btypes.Address{Net: uint16(a.Net), Mac: append([]byte{}, a.Mac...), Adr: append([]byte{}, a.Adr...), MacLen: uint8(len(a.Mac))}
	if len(a.Adr) == 0 {
		r.Adr = nil
	}
	if a.MacLen != nil {
		r.MacLen = uint8(*a.MacLen)
	}
	if a.Len != nil {
		r.Len = uint8(*a.Len)
	}
	return r
}

func addrJSON(a btypes.Address) J {
	return J{"net": int(a.Net), "mac": Bytes(a.Mac), "adr": Bytes(a.Adr)}
}

type DevJ struct {
	Addr AddrJ `json:"addr"`
	Max  int   `json:"max"`
	ID   Bytes `json:"id"`
	Seg  int   `json:"seg"`
	Vend int   `json:"vend"`
}

func (d DevJ) Go() btypes.Device {
	return btypes.Device{
		ID:      btypes.ObjectID{Type: btypes.DeviceType, Instance: btypes.ObjectInstance(u32(d.ID))},
		MaxApdu: uint32(d.Max), Addr: d.Addr.Go(), Segmentation: btypes.Enumerated(d.Seg), Vendor: uint32(d.Vend),
	}
}

type SendJ struct {
	Ok  bool `json:"ok"`
	Dur int  `json:"dur"`
}

type Op struct {
	At   int64           `json:"at"`
	Op   string          `json:"op"`
	C    int             `json:"c"`
	Kind string          `json:"kind"`
	Dev  DevJ            `json:"dev"`
	Objs []Obj           `json:"objs"`
	Snd  []SendJ         `json:"snd"`
	B    Bytes           `json:"b"`
	Idp  int             `json:"idp"` // position of the invoke id in b, counted from 1; 0 = none
	K    int             `json:"k"`   // the call whose invoke id is patched in
	F    json.RawMessage `json:"f"`
	Src  Bytes           `json:"src"`
	Low  int             `json:"low"`
	High int             `json:"high"`
	Gb   bool            `json:"gb"`
	Net  int             `json:"net"`
	Iam  *IamJ           `json:"iam"`
	Logs bool            `json:"logs"`
	Bad  bool            `json:"bad"` // the request has to be refused
}

type IamJ struct {
	ID   Bytes `json:"id"`
	Max  Bytes `json:"max"`
	Seg  Bytes `json:"seg"`
	Vend Bytes `json:"vend"`
}

type ClientCase struct {
	Ops    []Op            `json:"ops"`
	MaxPDU int             `json:"maxpdu"`
	Sim    json.RawMessage `json:"sim"`
	Full   bool            `json:"full"` // record complete frames of everything sent
	Grace  int             `json:"grace"`
}

var errLinkDown = errors.New("link down")

type rxFrame struct {
	src *btypes.Address
	b   []byte
}

type memLink struct {
	rx     chan rxFrame
	closed chan struct{}
	once   sync.Once
	mu     sync.Mutex
	snd    map[int][]SendJ
	n      map[int]int
	lastID map[int]int
	last   int // id of the last confirmed request
	full   bool
	sim    *simDevice
	quiet  bool // what is sent is recorded by the simulated devices
	closes int
}

func newMemLink() *memLink {
	return &memLink{rx: make(chan rxFrame, 4096), closed: make(chan struct{}), snd: map[int][]SendJ{}, n: map[int]int{}, lastID: map[int]int{}}
}

var myMac = Bytes{10, 0, 0, 1, 0xBA, 0xC0}
var bcMac = Bytes{10, 0, 0, 255, 0xBA, 0xC0}

func (l *memLink) GetMyAddress() *btypes.Address {
	return &btypes.Address{Mac: append([]byte{}, myMac...), MacLen: 6}
}
func (l *memLink) GetBroadcastAddress() *btypes.Address {
	return &btypes.Address{Mac: append([]byte{}, bcMac...), MacLen: 6}
}

// keyOf: calls are told apart by the port of the device they talk to
func keyOf(dest *btypes.Address) int {
	if len(dest.Mac) != 6 {
		return -1
	}
	p := int(dest.Mac[4])<<8 | int(dest.Mac[5])
	if p >= 10000 && p < 20000 {
		return p - 10000
	}
	return 0
}

func (l *memLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	k := keyOf(dest)
	b := append([]byte{}, data...)
	l.mu.Lock()
	n := l.n[k]
	l.n[k]++
	s := SendJ{Ok: true}
	if n < len(l.snd[k]) {
		s = l.snd[k][n]
	}
	id := invokeID(b)
	l.lastID[k] = id
	if id >= 0 {
		l.last = id
	}
	l.mu.Unlock()
	kv := []any{"k", k, "id", id, "b", Bytes(b), "n", n}
	if l.full {
		kv = append(kv, "dst", addrJSON(*dest))
	}
	if l.quiet {
		if l.sim != nil {
			l.sim.handle(l, b, dest)
		}
		return len(b), nil
	}
	rec.ev("tx", kv...)
	if s.Dur > 0 {
		time.Sleep(time.Duration(s.Dur) * time.Millisecond)
	}
	var err error
	if !s.Ok {
		err = errLinkDown
	}
	rec.ev("txe", "k", k, "ok", s.Ok, "n", n)
	if err != nil {
		return 0, err
	}
	if l.sim != nil {
		l.sim.handle(l, b, dest)
	}
	return len(b), nil
}

func (l *memLink) Receive(data []byte) (*btypes.Address, int, error) {
	select {
	case <-l.closed:
		return nil, 0, errors.New("use of closed link")
	default:
	}
	select {
	case f := <-l.rx:
		n := copy(data, f.b)
		return f.src, n, nil
	case <-l.closed:
		return nil, 0, errors.New("use of closed link")
	}
}

func (l *memLink) Close() error {
	l.mu.Lock()
	l.closes++
	l.mu.Unlock()
	l.once.Do(func() { close(l.closed) })
	return nil
}

// invokeID of a confirmed request in a B/IP frame, -1 if there is none
func invokeID(b []byte) int {
	p, ok := apduStart(b)
	if !ok || len(b) < p+4 || b[p]&0xF0 != 0 {
		return -1
	}
	return int(b[p+2])
}

// apduStart is the position of the APDU in a B/IP frame
func apduStart(b []byte) (int, bool) {
	if len(b) < 6 || b[0] != 0x81 {
		return 0, false
	}
	p := 4
	if b[1] == 4 {
		p = 10
	}
	if len(b) < p+2 {
		return 0, false
	}
	ctl := b[p+1]
	if ctl&0x80 != 0 {
		return 0, false
	}
	p += 2
	if ctl&0x20 != 0 {
		if len(b) < p+3 {
			return 0, false
		}
		p += 3 + int(b[p+2])
	}
	if ctl&0x08 != 0 {
		if len(b) < p+3 {
			return 0, false
		}
		p += 3 + int(b[p+2])
	}
	if ctl&0x20 != 0 {
		p++
	}
	return p, p < len(b)
}

func defaultObjs(kind string, c int) []Obj {
	o := Obj{Ty: 2, In: b32(uint32(1000 + c)), Props: []Prop{{P: b32(85), Ix: b32(0xFFFFFFFF)}}}
	if kind == "wp" || kind == "wpm" {
		o.Props[0].V = &Val{T: "uint", B: b32(uint32(c))}
	}
	return []Obj{o}
}

func first(os []btypes.Object) btypes.Object {
	if len(os) == 0 {
		return btypes.Object{}
	}
	return os[0]
}

func devJSON(d btypes.Device) J {
	return J{"id": b32(uint32(d.ID.Instance)), "ty": int(d.ID.Type), "did": d.DeviceID, "max": b32(d.MaxApdu),
		"seg": b32(uint32(d.Segmentation)), "vend": b32(d.Vendor), "ip": d.Ip, "port": d.Port,
		"net": d.NetworkNumber, "mac": d.MacMSTP, "addr": addrJSON(d.Addr)}
}

func runCall(cli bacnet.Client, op Op, done func()) {
	defer done()
	switch op.Op {
	case "call":
		dev := op.Dev.Go()
		if len(op.Dev.Addr.Mac) == 0 {
			p := 10000 + op.C
			dev.Addr = btypes.Address{Mac: []byte{10, 0, 0, 2, byte(p >> 8), byte(p)}, MacLen: 6}
			dev.MaxApdu = 1476
		}
		objs := op.Objs
		if objs == nil {
			objs = defaultObjs(op.Kind, op.C)
		}
		gobjs := objsGo(objs)
		rec.ev("inv", "k", op.C, "kind", op.Kind, "bad", op.Bad)
		var err error
		var out []btypes.Object
		switch op.Kind {
		case "rp":
			var r btypes.PropertyData
			r, err = cli.ReadProperty(dev, btypes.PropertyData{Object: first(gobjs)})
			out = []btypes.Object{r.Object}
		case "rpm":
			var r btypes.MultiplePropertyData
			r, err = cli.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: gobjs})
			out = r.Objects
		case "wp":
			err = cli.WriteProperty(dev, btypes.PropertyData{Object: first(gobjs)})
		case "wpm":
			err = cli.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: gobjs})
		default:
			panic("kind " + op.Kind)
		}
		if err != nil {
			out = nil
		}
		ecl, eco := errNumbers(errStr(err))
		rec.ev("ret", "k", op.C, "ok", err == nil, "err", errStr(err), "cls", ecl, "code", eco, "objs", objsJSON(out))
	case "whois":
		rec.ev("inv", "k", op.C, "kind", "whois", "low", op.Low, "high", op.High, "gb", op.Gb, "net", op.Net)
		devs, err := cli.WhoIs(&bacnet.WhoIsOpts{Low: op.Low, High: op.High, GlobalBroadcast: op.Gb, NetworkNumber: uint16(op.Net)})
		res := make([]any, len(devs))
		for i, d := range devs {
			res[i] = devJSON(d)
		}
		rec.ev("ret", "k", op.C, "ok", err == nil, "err", errStr(err), "devs", res)
	case "router":
		rec.ev("inv", "k", op.C, "kind", "router")
		r := cli.WhoIsRouterToNetwork()
		nets := []int{}
		if r != nil {
			for _, a := range *r {
				nets = append(nets, int(a.Net))
			}
		}
		rec.ev("ret", "k", op.C, "nets", nets)
	case "netnum":
		rec.ev("inv", "k", op.C, "kind", "netnum")
		r := cli.WhatIsNetworkNumber()
		nets := []int{}
		for _, a := range r {
			nets = append(nets, int(a.Net))
		}
		rec.ev("ret", "k", op.C, "nets", nets)
	case "iam":
		rec.ev("inv", "k", op.C, "kind", "iam")
		err := cli.IAm(op.Dev.Addr.Go(), btypes.IAm{
			ID:           btypes.ObjectID{Type: btypes.DeviceType, Instance: btypes.ObjectInstance(u32(op.Iam.ID))},
			MaxApdu:      u32(op.Iam.Max),
			Segmentation: btypes.Enumerated(u32(op.Iam.Seg)),
			Vendor:       u32(op.Iam.Vend),
		})
		rec.ev("ret", "k", op.C, "ok", err == nil, "err", errStr(err))
	case "objects":
		dev := op.Dev.Go()
		rec.ev("inv", "k", op.C, "kind", "objects")
		d, err := cli.Objects(dev)
		list := []any{}
		if err == nil {
			for ty, m := range d.Objects {
				for in, o := range m {
					list = append(list, J{"mty": int(ty), "min": b32(uint32(in)), "ty": int(o.ID.Type), "in": b32(uint32(o.ID.Instance)),
						"name": Bytes(o.Name), "desc": Bytes(o.Description)})
				}
			}
		}
		rec.ev("ret", "k", op.C, "ok", err == nil, "err", errStr(err), "list", list)
	}
}

func init() {
	drivers["client"] = func(t *testing.T, raw json.RawMessage) (restart bool) {
		var cs ClientCase
		mustUnmarshal(raw, &cs)
		ops := cs.Ops
		synctest.Test(t, func(t *testing.T) {
			start := time.Now()
			rec.mu.Lock()
			rec.clock = func() int64 { return time.Since(start).Milliseconds() }
			rec.mu.Unlock()
			link := newMemLink()
			link.full = cs.Full
			if len(cs.Sim) > 0 {
				link.sim = newSim(cs.Sim)
			}
			cli, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: link, MaxPDU: uint16(cs.MaxPDU)})
			if err != nil {
				rec.ev("noclient", "err", errStr(err))
				return
			}
			running := make(chan struct{})
			go func() {
				cli.ClientRun()
				rec.ev("runend")
				close(running)
			}()
			var wg sync.WaitGroup
			for _, op := range ops {
				if d := time.Duration(op.At)*time.Millisecond - time.Since(start); d > 0 {
					time.Sleep(d)
				}
				switch op.Op {
				case "rx":
					b := append([]byte{}, op.B...)
					id := -1
					if op.Idp > 0 && op.Idp <= len(b) {
						id = int(b[op.Idp-1])
						if op.K < 0 {
							link.mu.Lock()
							id = link.last
							link.mu.Unlock()
							b[op.Idp-1] = byte(id)
						}
						if op.K > 0 {
							link.mu.Lock()
							if x, ok := link.lastID[op.K]; ok {
								id = x
							}
							link.mu.Unlock()
							b[op.Idp-1] = byte(id)
						}
					}
					src := op.Src
					if len(src) == 0 {
						src = Bytes{10, 0, 0, 2, 0xBA, 0xC0}
					}
					kv := []any{"k", op.K, "id", id}
					if len(op.F) > 0 {
						kv = append(kv, "f", op.F)
					}
					if cs.Full {
						kv = append(kv, "b", Bytes(b), "src", src)
					}
					rec.ev("rx", kv...)
					link.rx <- rxFrame{&btypes.Address{Mac: append([]byte{}, src...), MacLen: uint8(len(src))}, b}
				case "sync":
					synctest.Wait()
					rec.ev("sync")
				case "close":
					rec.ev("close", "logs", op.Logs)
					var err error
					if op.Logs {
						err = cli.ClientClose(true)
						freshStderr()
					} else {
						err = cli.ClientClose(false)
					}
					rec.ev("closed", "ok", err == nil)
				case "whois", "router", "netnum":
					// what was received before is done with
					synctest.Wait()
					link.mu.Lock()
					link.snd[0] = append(link.snd[0], append(op.Snd, SendJ{Ok: true})[0])
					link.mu.Unlock()
					wg.Add(1)
					go runCall(cli, op, wg.Done)
					synctest.Wait()
				default:
					link.mu.Lock()
					link.snd[op.C] = op.Snd
					link.mu.Unlock()
					wg.Add(1)
					go runCall(cli, op, wg.Done)
				}
			}
			// every call has to come back
			all := make(chan struct{})
			go func() { wg.Wait(); close(all) }()
			grace := cs.Grace
			if grace == 0 {
				grace = 300
			}
			select {
			case <-all:
				rec.ev("calls", "all", true)
			case <-time.After(time.Duration(grace) * time.Second):
				rec.ev("calls", "all", false)
				os.Exit(3)
			}
			time.Sleep(time.Second)
			cli.ClientClose(false)
			time.Sleep(time.Minute)
			synctest.Wait()
			select {
			case <-running:
			default:
				rec.ev("runleft")
			}
			lk := leaks()
			rec.ev("end", "leak", len(lk), "who", append([]string{}, lk...))
			if len(lk) > 0 {
				os.Exit(3)
			}
		})
		return false
	}
}
