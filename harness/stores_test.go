package harness

// Drivers "bits" (bit strings) and "omap" (object maps): scripted operations, and what is
// observed after each of them.

import (
	"encoding/json"
	"math"
	"testing"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

type bitsOp struct {
	Op   string          `json:"op"`
	N    int             `json:"n"`
	I    int             `json:"i"`
	V    json.RawMessage `json:"v"`
	Bits []int           `json:"bits"`
}

// wireBits is the application encoding of a bit string
func wireBits(bits []int) []byte {
	n := (len(bits) + 7) / 8
	c := make([]byte, n+1)
	c[0] = byte(8*n - len(bits))
	for i, b := range bits {
		if b == 1 {
			c[1+i/8] |= 0x80 >> (i % 8)
		}
	}
	if len(c) <= 4 {
		return append([]byte{byte(0x80 | len(c))}, c...)
	}
	return append([]byte{0x85, byte(len(c))}, c...)
}

func bitsObs(b *btypes.BitString, last string) []any {
	on := []int{}
	for i := 0; i < 256; i++ {
		if b.Bit(uint8(i)) {
			on = append(on, i)
		}
	}
	oct := []int{}
	for i := 0; i < 18; i++ {
		oct = append(oct, int(b.Byte(uint8(i))))
	}
	str := []bool{}
	if err := json.Unmarshal([]byte(b.String()), &str); err != nil {
		str = []bool{true}
	}
	return []any{"used", int(b.GetBitUsed()), "bytes", int(b.BytesUsed()), "cap", int(b.BitsCapacity()), "on", on,
		"oct", oct, "list", append([]bool{}, b.GetValue()...), "str", append([]bool{}, str...), "ok", last}
}

// ---------------------------------------------------------------- object maps

type omapObj struct {
	Ty    int      `json:"ty"`
	In    Bytes    `json:"in"`
	IDTy  int      `json:"idty"`
	IDIn  Bytes    `json:"idin"`
	Name  Bytes    `json:"name"`
	Desc  Bytes    `json:"desc"`
	Props []omProp `json:"props"`
}
type omProp struct {
	P   Bytes `json:"p"`
	Ix  Bytes `json:"ix"`
	Pri int   `json:"pri"`
	V   omVal `json:"v"`
}

// data that JSON has a type for
type omVal struct {
	T string `json:"t"` // nil bool str num
	B Bytes  `json:"b"` // text; or the 8 octets of a float64; or <<0/1>>
}

func (v omVal) Go() interface{} {
	switch v.T {
	case "bool":
		return v.B[0] == 1
	case "str":
		return string(v.B)
	case "num":
		return float64(u32(v.B))/8 - 1000
	}
	return nil
}

func omValJSON(x interface{}) J {
	switch v := x.(type) {
	case nil:
		return J{"t": "nil", "b": Bytes{}}
	case bool:
		if v {
			return J{"t": "bool", "b": Bytes{1}}
		}
		return J{"t": "bool", "b": Bytes{0}}
	case string:
		return J{"t": "str", "b": Bytes(v)}
	case float64:
		n := (v + 1000) * 8
		if n == math.Trunc(n) && n >= 0 && n <= math.MaxUint32 {
			return J{"t": "num", "b": b32(uint32(n))}
		}
	}
	return J{"t": "other", "b": Bytes{}}
}

func omapJSON(m btypes.ObjectMap) []any {
	res := []any{}
	for ty, sub := range m {
		for in, o := range sub {
			props := []any{}
			for _, p := range o.Properties {
				props = append(props, J{"p": b32(uint32(p.Type)), "ix": b32(p.ArrayIndex), "pri": int(p.Priority), "v": omValJSON(p.Data)})
			}
			res = append(res, J{"ty": int(ty), "in": b32(uint32(in)), "idty": int(o.ID.Type), "idin": b32(uint32(o.ID.Instance)),
				"name": Bytes(o.Name), "desc": Bytes(o.Description), "props": props})
		}
	}
	return res
}

func init() {
	drivers["bits"] = func(t *testing.T, raw json.RawMessage) bool {
		var cs struct {
			Ops []bitsOp `json:"ops"`
		}
		mustUnmarshal(raw, &cs)
		var b *btypes.BitString
		for _, op := range cs.Ops {
			last := "none"
			yes := func(v bool) {
				last = "no"
				if v {
					last = "yes"
				}
			}
			switch op.Op {
			case "new":
				b = btypes.NewBitString(op.N)
			case "recv":
				v, err := encoding.NewDecoder(wireBits(op.Bits)).AppData()
				var ok bool
				if b, ok = v.(*btypes.BitString); !ok || err != nil || b == nil {
					rec.ev("bad", "msg", errStr(err))
					return false
				}
			case "bit":
				var v bool
				mustUnmarshal(op.V, &v)
				b.SetBit(uint8(op.I), v)
			case "byte":
				yes(b.SetByte(uint8(op.I), byte(op.N)))
			case "used":
				yes(b.SetBitsUsed(uint8(op.I), uint8(op.N)))
			}
			rec.ev("obs", bitsObs(b, last)...)
		}
		return false
	}
	drivers["omap"] = func(t *testing.T, raw json.RawMessage) bool {
		var cs struct {
			Ops []struct {
				Op string  `json:"op"`
				O  omapObj `json:"o"`
			} `json:"ops"`
		}
		mustUnmarshal(raw, &cs)
		m := btypes.ObjectMap{}
		for _, op := range cs.Ops {
			ty, in := btypes.ObjectType(op.O.Ty), btypes.ObjectInstance(u32(op.O.In))
			switch op.Op {
			case "put":
				o := btypes.Object{Name: string(op.O.Name), Description: string(op.O.Desc),
					ID: btypes.ObjectID{Type: btypes.ObjectType(op.O.IDTy), Instance: btypes.ObjectInstance(u32(op.O.IDIn))}}
				for _, p := range op.O.Props {
					o.Properties = append(o.Properties, btypes.Property{Type: btypes.PropertyType(u32(p.P)), ArrayIndex: u32(p.Ix),
						Priority: btypes.NPDUPriority(p.Pri), Data: p.V.Go()})
				}
				if m[ty] == nil {
					m[ty] = map[btypes.ObjectInstance]btypes.Object{}
				}
				m[ty][in] = o
			case "del":
				delete(m[ty], in)
				if len(m[ty]) == 0 {
					delete(m, ty)
				}
			case "round", "roundp":
				var b []byte
				var err error
				if op.Op == "round" {
					b, err = json.Marshal(m)
				} else {
					b, err = json.Marshal(&m)
				}
				var back btypes.ObjectMap
				if err == nil {
					err = json.Unmarshal(b, &back)
				}
				if err != nil {
					rec.ev("bad", "msg", errStr(err))
					return false
				}
				m = back
				if m == nil {
					m = btypes.ObjectMap{}
				}
			}
			rec.ev("obs", "n", m.Len(), "om", omapJSON(m))
		}
		return false
	}
}
