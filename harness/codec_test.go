package harness

// Driver "codec": one encoding and/or decoding per case, one event "res" with the result.

import (
	"encoding/json"
	"testing"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/encoding"
)

type nAddr struct {
	Net int   `json:"net"`
	Adr Bytes `json:"adr"`
}

type npduJ struct {
	Ver  int   `json:"ver"`
	Net  bool  `json:"net"`
	Der  bool  `json:"der"`
	Pri  int   `json:"pri"`
	Dst  nAddr `json:"dst"`
	Src  nAddr `json:"src"`
	Hop  int   `json:"hop"`
	Msg  int   `json:"msg"`
	Vend int   `json:"vend"`
}

type apduJ struct {
	Ty   int  `json:"ty"`
	Seg  bool `json:"seg"`
	More bool `json:"more"`
	Sa   bool `json:"sa"`
	Segs int  `json:"segs"`
	Max  int  `json:"max"`
	Inv  int  `json:"inv"`
	Seq  int  `json:"seq"`
	Win  int  `json:"win"`
	Svc  int  `json:"svc"`
	Cls  int  `json:"cls"`
	Code int  `json:"code"`
}

type codecCase struct {
	K    string  `json:"k"`
	ID   int     `json:"id"`
	V    Val     `json:"v"`
	B    Bytes   `json:"b"`
	Tail Bytes   `json:"tail"`
	Objs []Obj   `json:"objs"`
	Low  int     `json:"low"`
	High int     `json:"high"`
	Iam  *IamJ   `json:"iam"`
	N    *npduJ  `json:"n"`
	A    *apduJ  `json:"a"`
	Type int     `json:"type"`
	Func int     `json:"func"`
	Cuts []int   `json:"cuts"`
	Bs   []Bytes `json:"bs"`
	Dec  string  `json:"dec"`
	Per  int     `json:"per"`
}

func (a nAddr) Go() *btypes.Address {
	if a.Net == 0 && len(a.Adr) == 0 {
		return nil
	}
	return &btypes.Address{Net: uint16(a.Net), Adr: append([]byte{}, a.Adr...), Len: uint8(len(a.Adr))}
}

func nAddrJSON(a *btypes.Address) J {
	if a == nil {
		return J{"net": 0, "adr": Bytes{}}
	}
	return J{"net": int(a.Net), "adr": Bytes(a.Adr), "len": int(a.Len)}
}

func apduJSON(a btypes.APDU) J {
	return J{"ty": int(a.DataType), "seg": a.SegmentedMessage, "more": a.MoreFollows, "sa": a.SegmentedResponseAccepted,
		"segs": int(a.MaxSegs), "max": int(a.MaxApdu), "inv": int(a.InvokeId), "seq": int(a.Sequence), "win": int(a.WindowNumber),
		"svc": int(a.Service), "usvc": int(a.UnconfirmedService), "cls": int(a.Error.Class), "code": int(a.Error.Code),
		"raw": Bytes(a.RawData)}
}

func cat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

func codec(c codecCase) []any {
	e := encoding.NewEncoder()
	var err error
	var objs []btypes.Object
	if c.K != "rpackdec" && c.K != "rpmackdec" {
		objs = objsGo(c.Objs)
	}
	id := uint8(c.ID)
	enc := func() []any {
		// an error counts whether it is returned or kept by the encoder
		ok := err == nil && e.Error() == nil
		return []any{"ok", ok, "b", Bytes(e.Bytes())}
	}
	switch c.K {
	case "sweep":
		return sweep(c)
	case "any":
		switch c.Dec {
		case "rpack":
			var p btypes.PropertyData
			derr := encoding.NewDecoder(c.B).ReadProperty(&p)
			return []any{"ok", derr == nil, "objs", objsJSON([]btypes.Object{p.Object})}
		case "rpmack":
			var p btypes.MultiplePropertyData
			derr := encoding.NewDecoder(c.B).ReadMultiplePropertyAck(&p)
			return []any{"ok", derr == nil, "objs", objsJSON(p.Objects)}
		case "iam":
			var m btypes.IAm
			derr := encoding.NewDecoder(c.B).IAm(&m)
			return []any{"ok", derr == nil, "ty", int(m.ID.Type), "id", b32(uint32(m.ID.Instance)), "max", b32(m.MaxApdu),
				"seg", b32(uint32(m.Segmentation)), "vend", b32(m.Vendor)}
		}
	case "appenc":
		err = e.AppData(c.V.Go(), false)
		r := enc()
		d := encoding.NewDecoder(cat(e.Bytes(), c.Tail))
		v, derr := d.AppData()
		return append(r, "dok", derr == nil && d.Error() == nil, "v", valJSON(v), "rest", Bytes(d.Bytes()))
	case "appdec":
		d := encoding.NewDecoder(cat(c.B, c.Tail))
		v, derr := d.AppData()
		return []any{"ok", derr == nil && d.Error() == nil, "v", valJSON(v), "rest", Bytes(d.Bytes())}
	case "rp":
		err = e.ReadProperty(id, btypes.PropertyData{Object: first(objs)})
		return enc()
	case "wp":
		err = e.WriteProperty(id, btypes.PropertyData{Object: first(objs)})
		return enc()
	case "rpm":
		err = e.ReadMultipleProperty(id, btypes.MultiplePropertyData{Objects: objs})
		return enc()
	case "wpm":
		err = e.WriteMultiProperty(id, btypes.MultiplePropertyData{Objects: objs})
		return enc()
	case "rpack":
		err = e.ReadPropertyAck(id, btypes.PropertyData{Object: first(objs)})
		return enc()
	case "rpmack":
		err = e.ReadMultiplePropertyAck(id, btypes.MultiplePropertyData{Objects: objs})
		return enc()
	case "whois":
		err = e.WhoIs(int32(c.Low), int32(c.High))
		r := enc()
		var lo, hi int32
		derr := encoding.NewDecoder(e.Bytes()[2:]).WhoIs(&lo, &hi)
		return append(r, "dok", derr == nil, "low", lo, "high", hi)
	case "iam":
		in := btypes.IAm{
			ID:           btypes.ObjectID{Type: btypes.DeviceType, Instance: btypes.ObjectInstance(u32(c.Iam.ID))},
			MaxApdu:      u32(c.Iam.Max),
			Segmentation: btypes.Enumerated(u32(c.Iam.Seg)),
			Vendor:       u32(c.Iam.Vend),
		}
		err = e.IAm(in)
		return enc()
	case "iamdec":
		d := encoding.NewDecoder(c.B)
		var m btypes.IAm
		derr := d.IAm(&m)
		return []any{"ok", derr == nil, "ty", int(m.ID.Type), "id", b32(uint32(m.ID.Instance)), "max", b32(m.MaxApdu),
			"seg", b32(uint32(m.Segmentation)), "vend", b32(m.Vendor)}
	case "rpackdec":
		d := encoding.NewDecoder(c.B)
		var p btypes.PropertyData
		derr := d.ReadProperty(&p)
		return []any{"ok", derr == nil, "objs", objsJSON([]btypes.Object{p.Object})}
	case "rpmackdec":
		d := encoding.NewDecoder(c.B)
		var p btypes.MultiplePropertyData
		derr := d.ReadMultiplePropertyAck(&p)
		return []any{"ok", derr == nil, "objs", objsJSON(p.Objects)}
	case "npdu":
		n := btypes.NPDU{Version: uint8(c.N.Ver), Destination: c.N.Dst.Go(), Source: c.N.Src.Go(), VendorId: uint16(c.N.Vend),
			IsNetworkLayerMessage: c.N.Net, NetworkLayerMessageType: ndpu.NetworkMessageType(c.N.Msg),
			ExpectingReply: c.N.Der, Priority: btypes.NPDUPriority(c.N.Pri), HopCount: uint8(c.N.Hop)}
		e.NPDU(&n)
		r := enc()
		d := encoding.NewDecoder(cat(e.Bytes(), c.Tail))
		var m btypes.NPDU
		nets, derr := d.NPDU(&m)
		ns := []int{}
		for _, a := range nets {
			ns = append(ns, int(a.Net))
		}
		return append(r, "dok", derr == nil, "n", J{"ver": int(m.Version), "net": m.IsNetworkLayerMessage, "der": m.ExpectingReply,
			"pri": int(m.Priority), "dst": nAddrJSON(m.Destination), "src": nAddrJSON(m.Source), "hop": int(m.HopCount),
			"msg": int(m.NetworkLayerMessageType), "vend": int(m.VendorId)}, "nets", ns, "rest", Bytes(d.Bytes()))
	case "bvlc":
		err = e.BVLC(btypes.BVLC{Type: 0x81, Function: btypes.BacFunc(c.Func), Length: uint16(4 + len(c.B)), Data: c.B})
		r := enc()
		d := encoding.NewDecoder(e.Bytes())
		var m btypes.BVLC
		derr := d.BVLC(&m)
		return append(r, "dok", derr == nil, "type", int(m.Type), "func", int(m.Function), "len", int(m.Length), "rest", Bytes(d.Bytes()))
	case "apdu", "apdudec":
		if c.K == "apdu" {
			a := btypes.APDU{DataType: btypes.PDUType(c.A.Ty), SegmentedMessage: c.A.Seg, MoreFollows: c.A.More,
				SegmentedResponseAccepted: c.A.Sa, MaxSegs: uint(c.A.Segs), MaxApdu: uint(c.A.Max), InvokeId: uint8(c.A.Inv),
				Sequence: uint8(c.A.Seq), WindowNumber: uint8(c.A.Win), Service: btypes.ServiceConfirmed(c.A.Svc),
				UnconfirmedService: btypes.ServiceUnconfirmed(c.A.Svc)}
			a.Error.Class, a.Error.Code = bacerr.ErrorClass(c.A.Cls), bacerr.ErrorCode(c.A.Code)
			err = e.APDU(a)
		}
		r := enc()
		b := e.Bytes()
		if c.K == "apdudec" {
			b = c.B
		}
		d := encoding.NewDecoder(cat(b, c.Tail))
		var m btypes.APDU
		derr := d.APDU(&m)
		return append(r, "dok", derr == nil, "a", apduJSON(m), "rest", Bytes(d.Bytes()))
	}
	panic("kind " + c.K)
}

func init() {
	drivers["codec"] = func(t *testing.T, raw json.RawMessage) bool {
		var c codecCase
		mustUnmarshal(raw, &c)
		rec.ev("res", codec(c)...)
		return false
	}
}
