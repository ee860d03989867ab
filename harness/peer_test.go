package harness

// Driver "peer": calls of the client and of the package network made one after another
// against simulated devices, in virtual time.

import (
	"encoding/json"
	"math"
	"net"
	"os"
	"reflect"
	"strconv"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
)

type PeerOp struct {
	Op   string `json:"op"`
	D    int    `json:"d"` // the device, from 1
	M    string `json:"m"`
	Ty   int    `json:"ty"`
	In   Bytes  `json:"in"`
	P    Bytes  `json:"p"`
	Ix   Bytes  `json:"ix"`
	V    *Val   `json:"v"`
	Pri  int    `json:"pri"`
	Null bool   `json:"null"`
	Objs []Obj  `json:"objs"`
	Max  int    `json:"max"`
	Chk  bool   `json:"chk"`
	Low  int    `json:"low"`
	High int    `json:"high"`
	Gb   bool   `json:"gb"`
	Net  int    `json:"net"`
}

type PeerDev struct {
	ID   Bytes  `json:"id"`
	Mac  Bytes  `json:"mac"`
	Net  int    `json:"net"`
	Adr  Bytes  `json:"adr"`
	Max  int    `json:"max"`
	Seg  int    `json:"seg"`
	Made string `json:"made"` // new, store
}

type PeerCase struct {
	Sim  json.RawMessage `json:"sim"`
	Devs []PeerDev       `json:"devs"`
	Ops  []PeerOp        `json:"ops"`
}

// inject sets the field of type bacnet.Client
func inject(n *network.Network, c bacnet.Client) bool {
	v := reflect.ValueOf(n).Elem()
	want := reflect.TypeOf((*bacnet.Client)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == want {
			reflect.NewAt(want, unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(c))
			return true
		}
	}
	return false
}

func f32b(f float32) Bytes { return b32(math.Float32bits(f)) }

func netDevJSON(d *network.Device) J {
	return J{"id": b32(uint32(d.DeviceID)), "ip": Bytes(net.ParseIP(d.Ip).To4()), "port": d.Port, "net": d.NetworkNumber,
		"max": b32(d.MaxApdu), "seg": b32(d.Segmentation), "name": Bytes(d.DeviceName), "vendor": Bytes(d.VendorName)}
}

func peerCall(cli bacnet.Client, nw *network.Network, devs []*network.Device, cs *PeerCase, op PeerOp) (kv []any, err error) {
	var nd *network.Device
	var pd PeerDev
	if op.D > 0 {
		nd, pd = devs[op.D-1], cs.Devs[op.D-1]
	}
	bd := btypes.Device{
		ID:      btypes.ObjectID{Type: btypes.DeviceType, Instance: btypes.ObjectInstance(u32(pd.ID))},
		MaxApdu: uint32(op.Max), Addr: AddrJ{Net: pd.Net, Mac: pd.Mac, Adr: pd.Adr}.Go(),
	}
	pnt := &network.Point{ObjectID: btypes.ObjectInstance(u32(op.In)), ObjectType: btypes.ObjectType(op.Ty), WritePriority: uint8(op.Pri)}
	obj := &network.Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(u32(op.P)), ArrayIndex: u32(op.Ix)}
	inst := btypes.ObjectInstance(u32(pd.ID))
	ids := func(l []btypes.ObjectID) []any {
		r := []any{}
		for _, o := range l {
			r = append(r, J{"ty": int(o.Type), "in": b32(uint32(o.Instance))})
		}
		return r
	}
	who := &bacnet.WhoIsOpts{Low: op.Low, High: op.High, GlobalBroadcast: op.Gb, NetworkNumber: uint16(op.Net)}
	switch op.Op {
	case "objects":
		var d btypes.Device
		d, err = cli.Objects(bd)
		list := []any{}
		for ty, m := range d.Objects {
			for in, o := range m {
				list = append(list, J{"mty": int(ty), "min": b32(uint32(in)), "ty": int(o.ID.Type), "in": b32(uint32(o.ID.Instance)),
					"name": Bytes(o.Name), "desc": Bytes(o.Description)})
			}
		}
		kv = []any{"list", list}
	case "rpm":
		var r btypes.MultiplePropertyData
		r, err = cli.ReadMultiProperty(bd, btypes.MultiplePropertyData{Objects: objsGo(op.Objs)})
		kv = []any{"objs", objsJSON(r.Objects)}
	case "wpm":
		err = cli.WriteMultiProperty(bd, btypes.MultiplePropertyData{Objects: objsGo(op.Objs)})
	case "pwr":
		switch op.M {
		case "real":
			err = nd.PointWriteAnalogue(pnt, math.Float32frombits(u32(op.V.B)))
		case "bool":
			err = nd.PointWriteBool(pnt, u32(op.V.B))
		case "ms":
			err = nd.PointWriteMultiState(pnt, u32(op.V.B))
		}
	case "prel":
		err = nd.PointReleasePriority(pnt, uint8(op.Pri))
	case "prd":
		var v Bytes
		switch op.M {
		case "real":
			var f float32
			f, err = nd.PointReadFloat32(pnt)
			v = f32b(f)
		case "bool":
			var n uint32
			n, err = nd.PointReadBool(pnt)
			v = b32(n)
		case "ms":
			var n uint32
			n, err = nd.PointReadMultiState(pnt)
			v = b32(n)
		}
		kv = []any{"v", v}
	case "ppri":
		p, e := nd.PointReadPriority(pnt)
		err = e
		pa, high := []any{}, any(nil)
		if e == nil {
			one := func(f *float32) any {
				if f == nil {
					return J{"set": false, "b": Bytes{}}
				}
				return J{"set": true, "b": f32b(*f)}
			}
			for _, f := range []*float32{p.P1, p.P2, p.P3, p.P4, p.P5, p.P6, p.P7, p.P8, p.P9, p.P10, p.P11, p.P12, p.P13, p.P14, p.P15, p.P16} {
				pa = append(pa, one(f))
			}
			high = one(p.HighestFloat32())
		}
		kv = []any{"pa", pa, "high", high}
	case "rname":
		var s string
		s, err = nd.ReadPointName(pnt)
		kv = []any{"s", Bytes(s)}
	case "wname":
		err = nd.WritePointName(pnt, string(op.V.B))
	case "rdname":
		var s string
		s, err = nd.ReadDeviceName(inst)
		kv = []any{"s", Bytes(s)}
	case "wdname":
		err = nd.WriteDeviceName(inst, string(op.V.B))
	case "rstr":
		var s string
		s, err = nd.ReadString(obj)
		kv = []any{"s", Bytes(s)}
	case "rgen":
		var r btypes.PropertyData
		r, err = nd.Read(obj)
		kv = []any{"objs", objsJSON([]btypes.Object{r.Object})}
	case "wgen":
		w := &network.Write{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(u32(op.P)), WriteNull: op.Null, WritePriority: uint8(op.Pri)}
		if op.V != nil {
			w.WriteValue = op.V.Go()
		}
		err = nd.Write(w)
	case "pdet":
		var p *network.PointDetails
		p, err = nd.PointDetails(pnt)
		kv = []any{"det", detJSON(p)}
	case "devobjs":
		var l []btypes.ObjectID
		l, err = nd.DeviceObjects(inst, op.Chk)
		kv = []any{"list", ids(l)}
	case "devpts":
		var l []*network.PointDetails
		l, err = nd.GetDevicePoints(inst)
		r := []any{}
		for _, p := range l {
			r = append(r, detJSON(p))
		}
		kv = []any{"list", r}
	case "ddet":
		var r *network.DeviceDetails
		r, err = nd.GetDeviceDetails(inst)
		if r != nil {
			kv = []any{"name", Bytes(r.Name), "vendor", Bytes(r.VendorName), "max", b32(r.MaxApdu), "seg", b32(r.Segmentation)}
		}
	case "ddisc":
		var l []*network.Device
		l, err = nd.DeviceDiscover(who)
		r := []any{}
		for _, d := range l {
			r = append(r, netDevJSON(d))
		}
		kv = []any{"devs", r}
	case "ndisc", "nwhois", "dwhois":
		var l []btypes.Device
		switch op.Op {
		case "ndisc":
			l, err = nw.NetworkDiscover(who)
		case "nwhois":
			l, err = nw.Whois(who)
		default:
			l, err = nd.Whois(who)
		}
		r := []any{}
		for _, d := range l {
			r = append(r, J{"id": b32(uint32(d.DeviceID)), "oid": b32(uint32(d.ID.Instance)), "ip": Bytes(net.ParseIP(d.Ip).To4()), "port": d.Port, "net": d.NetworkNumber,
				"mac": d.MacMSTP, "max": b32(d.MaxApdu), "seg": b32(uint32(d.Segmentation)), "vend": b32(d.Vendor),
				"name": Bytes(d.DeviceName), "vendor": Bytes(d.VendorName), "addr": addrJSON(d.Addr)})
		}
		kv = []any{"devs", r}
	default:
		panic("op " + op.Op)
	}
	return kv, err
}

func detJSON(p *network.PointDetails) J {
	if p == nil {
		return J{"nil": true}
	}
	return J{"name": Bytes(p.Name), "unit": b32(p.Unit), "ty": int(p.ObjectType), "in": b32(uint32(p.ObjectID)), "us": p.UnitString, "pt": p.PointType}
}

func init() {
	drivers["peer"] = func(t *testing.T, raw json.RawMessage) (restart bool) {
		var cs PeerCase
		mustUnmarshal(raw, &cs)
		st := network.NewStore() // has a goroutine of its own
		synctest.Test(t, func(t *testing.T) {
			start := time.Now()
			rec.mu.Lock()
			rec.clock = func() int64 { return time.Since(start).Milliseconds() }
			rec.mu.Unlock()
			link := newMemLink()
			link.quiet = true
			link.sim = newSim(cs.Sim)
			cli, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: link})
			if err != nil {
				rec.ev("noclient", "err", errStr(err))
				return
			}
			nw := &network.Network{Store: st, StoreID: "net"}
			if !inject(nw, cli) {
				rec.ev("noinject")
				return
			}
			go cli.ClientRun()
			devs := []*network.Device{}
			for i, d := range cs.Devs {
				mac := 0
				if len(d.Adr) > 0 {
					mac = int(d.Adr[0])
				}
				nd := &network.Device{Ip: net.IP(d.Mac[:4]).String(), Port: int(d.Mac[4])<<8 | int(d.Mac[5]), DeviceID: int(u32(d.ID)),
					NetworkNumber: d.Net, MacMSTP: mac, MaxApdu: uint32(d.Max), Segmentation: uint32(d.Seg), StoreID: "dev" + strconv.Itoa(i)}
				if d.Made == "store" {
					if err = st.UpdateDevice(nd.StoreID, nw, nd); err == nil {
						nd, err = st.GetDevice(nd.StoreID)
					}
				} else {
					nd, err = network.NewDevice(nw, nd)
				}
				if err != nil {
					rec.ev("nodev", "err", errStr(err))
					return
				}
				devs = append(devs, nd)
			}
			for i, op := range cs.Ops {
				rec.ev("inv", "k", i+1)
				done := make(chan struct{})
				go func() {
					kv, err := peerCall(cli, nw, devs, &cs, op)
					rec.ev("ret", append([]any{"k", i + 1, "ok", err == nil, "err", errStr(err)}, kv...)...)
					close(done)
				}()
				select {
				case <-done:
				case <-time.After(time.Hour):
					rec.ev("stuck")
					os.Exit(3)
				}
				// late replies
				time.Sleep(8 * time.Second)
			}
			cli.ClientClose(false)
			time.Sleep(time.Minute)
			synctest.Wait()
			lk := leaks()
			rec.ev("end", "leak", len(lk), "who", append([]string{}, lk...))
			if len(lk) > 0 {
				os.Exit(3)
			}
		})
		return false
	}
}
