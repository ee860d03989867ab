package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
)

// Bytes are lists of numbers in JSON (TLC reads them as sequences), never base64
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return json.Marshal(r)
}

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var r []int
	if err := json.Unmarshal(data, &r); err != nil {
		return err
	}
	*b = make([]byte, len(r))
	for i, x := range r {
		(*b)[i] = byte(x)
	}
	return nil
}

func u32(b Bytes) uint32 {
	var v uint32
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return v
}

func b32(v uint32) Bytes { return binary.BigEndian.AppendUint32(nil, v) }
func b64(v uint64) Bytes { return binary.BigEndian.AppendUint64(nil, v) }

// Val is an application value:
//
//	null | bool v | uint/enum/int b(4) | real b(4) | double b(8) | str b | oct b |
//	bits v(list of 0/1) | date y,m,d,w | time h,m,s,ms | oid ty,in(b4) | list v | dt v | nil | other s
type Val struct {
	T  string          `json:"t"`
	B  Bytes           `json:"b,omitempty"`
	V  json.RawMessage `json:"v,omitempty"`
	Y  int             `json:"y,omitempty"`
	M  int             `json:"m,omitempty"`
	D  int             `json:"d,omitempty"`
	W  int             `json:"w,omitempty"`
	H  int             `json:"h,omitempty"`
	Mi int             `json:"mi,omitempty"`
	S  int             `json:"s,omitempty"`
	Ms int             `json:"ms,omitempty"`
	Ty int             `json:"ty,omitempty"`
	In Bytes           `json:"in,omitempty"`
}

func (v Val) Go() interface{} {
	switch v.T {
	case "null":
		return null.Null{}
	case "bool":
		var b bool
		mustUnmarshal(v.V, &b)
		return b
	case "uint":
		return u32(v.B)
	case "enum":
		return btypes.Enumerated(u32(v.B))
	case "int":
		return int32(u32(v.B))
	case "real":
		return math.Float32frombits(u32(v.B))
	case "double":
		return math.Float64frombits(binary.BigEndian.Uint64(v.B))
	case "str":
		return string(v.B)
	case "oid":
		return btypes.ObjectID{Type: btypes.ObjectType(v.Ty), Instance: btypes.ObjectInstance(u32(v.In))}
	case "date":
		return btypes.Date{Year: v.Y, Month: v.M, Day: v.D, DayOfWeek: btypes.DayOfWeek(v.W)}
	case "time":
		return btypes.Time{Hour: v.H, Minute: v.Mi, Second: v.S, Millisecond: v.Ms}
	// values that can't be encoded
	case "nil":
		return nil
	case "goint":
		return 5
	case "uint8":
		return uint8(5)
	case "uint16":
		return uint16(5)
	case "uint64":
		return uint64(5)
	case "int64":
		return int64(5)
	case "int16":
		return int16(5)
	case "bytes":
		return []byte{1, 2}
	case "ilist":
		return []interface{}{uint32(1)}
	case "struct":
		return struct{ A int }{1}
	case "ptr":
		x := uint32(1)
		return &x
	}
	panic("unknown value " + v.T)
}

// valJSON is the observation of a decoded value. All fields are always present, so
// that records of one type are comparable in TLA+.
func valJSON(x interface{}) J {
	switch v := x.(type) {
	case nil:
		return J{"t": "nil"}
	case null.Null:
		return J{"t": "null"}
	case bool:
		return J{"t": "bool", "v": v}
	case uint32:
		return J{"t": "uint", "b": b32(v)}
	case btypes.Enumerated:
		return J{"t": "enum", "b": b32(uint32(v))}
	case int32:
		return J{"t": "int", "b": b32(uint32(v))}
	case float32:
		return J{"t": "real", "b": b32(math.Float32bits(v))}
	case float64:
		return J{"t": "double", "b": b64(math.Float64bits(v))}
	case string:
		return J{"t": "str", "b": Bytes(v)}
	case []byte:
		return J{"t": "oct", "b": Bytes(v)}
	case *btypes.BitString:
		if v == nil {
			return J{"t": "nil"}
		}
		bits := make([]int, v.GetBitUsed())
		for i := range bits {
			if v.Bit(uint8(i)) {
				bits[i] = 1
			}
		}
		return J{"t": "bits", "v": bits}
	case btypes.Date:
		return J{"t": "date", "y": v.Year, "m": v.Month, "d": v.Day, "w": int(v.DayOfWeek)}
	case btypes.Time:
		return J{"t": "time", "h": v.Hour, "mi": v.Minute, "s": v.Second, "ms": v.Millisecond}
	case *btypes.DataTime:
		if v == nil {
			return J{"t": "nil"}
		}
		return J{"t": "dt", "v": []any{valJSON(v.Date), valJSON(v.Time)}}
	case btypes.ObjectID:
		return J{"t": "oid", "ty": int(v.Type), "in": b32(uint32(v.Instance))}
	case []interface{}:
		l := make([]any, len(v))
		for i, e := range v {
			l[i] = valJSON(e)
		}
		return J{"t": "list", "v": l}
	default:
		return J{"t": "other", "s": fmt.Sprintf("%T", x)}
	}
}

type Prop struct {
	P   Bytes `json:"p"`
	Ix  Bytes `json:"ix"`
	Pri int   `json:"pri"`
	V   *Val  `json:"v,omitempty"`
}

type Obj struct {
	Ty    int    `json:"ty"`
	In    Bytes  `json:"in"`
	Props []Prop `json:"props"`
}

func (o Obj) Go() btypes.Object {
	obj := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(o.Ty), Instance: btypes.ObjectInstance(u32(o.In))}}
	for _, p := range o.Props {
		pr := btypes.Property{Type: btypes.PropertyType(u32(p.P)), ArrayIndex: u32(p.Ix), Priority: btypes.NPDUPriority(p.Pri)}
		if p.V != nil {
			pr.Data = p.V.Go()
		}
		obj.Properties = append(obj.Properties, pr)
	}
	return obj
}

func objsGo(os []Obj) []btypes.Object {
	var res []btypes.Object
	for _, o := range os {
		res = append(res, o.Go())
	}
	return res
}

func objJSON(o btypes.Object) J {
	props := make([]any, len(o.Properties))
	for i, p := range o.Properties {
		props[i] = J{"p": b32(uint32(p.Type)), "ix": b32(p.ArrayIndex), "v": valJSON(p.Data)}
	}
	return J{"ty": int(o.ID.Type), "in": b32(uint32(o.ID.Instance)), "props": props}
}

func objsJSON(os []btypes.Object) []any {
	res := make([]any, len(os))
	for i, o := range os {
		res[i] = objJSON(o)
	}
	return res
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
