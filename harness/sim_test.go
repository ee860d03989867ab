package harness

// The simulated devices that answer a client on the in-memory link. They do what
// spec/Peer.tla says; the answers are recorded and checked against it.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"sync"
	"time"

	"github.com/NubeDev/bacnet/btypes"
)

type SimEntry struct {
	K     string  `json:"k"` // v value, a array, e error, c commandable present value, r its priority array
	B     Bytes   `json:"b"`
	L     []Bytes `json:"l"`
	Whole string  `json:"whole"` // how an array is answered when it is asked for as a whole: ok abort error drop
	C     int     `json:"c"`
	D     int     `json:"d"`
	W     bool    `json:"w"` // value can be written
	Vt    int     `json:"vt"`
	Pa    []Bytes `json:"pa"`
	Def   Bytes   `json:"def"`
	Of    string  `json:"of"`
}

type SimIam struct {
	At  int   `json:"at"`
	B   Bytes `json:"b"`
	Src Bytes `json:"src"`
}

type SimDev struct {
	Mac    Bytes     `json:"mac"`
	Net    int       `json:"net"`
	Adr    Bytes     `json:"adr"`
	Tab    simTab    `json:"tab"`
	Faults simFaults `json:"faults"`
	Iam    []SimIam  `json:"iam"`
	Delay  int       `json:"delay"`
	n      int
}

type simDevice struct {
	mu   sync.Mutex
	Devs []*SimDev `json:"devs"`
}

func newSim(raw json.RawMessage) *simDevice {
	s := &simDevice{}
	mustUnmarshal(raw, s)
	return s
}

// functions with an empty domain come out as empty lists
type simTab map[string]*SimEntry
type simFaults map[string]string

func (t *simTab) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string]*SimEntry)(t))
}
func (t *simFaults) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string]string)(t))
}

func simKey(ty int, in, p uint32) string {
	return strconv.Itoa(ty) + "_" + strconv.Itoa(int(in)) + "_" + strconv.Itoa(int(p))
}

type simProp struct {
	P   Bytes `json:"p"`
	Ix  Bytes `json:"ix"`
	Pri int   `json:"pri"`
	Raw Bytes `json:"raw"`
	out Bytes // value or error, with its tags
}
type simObj struct {
	Ty    int        `json:"ty"`
	In    Bytes      `json:"in"`
	Props []*simProp `json:"props"`
}

// ---------------------------------------------------------------- reading requests

type simReader struct {
	b   []byte
	err bool
}

type simTag struct {
	num, n      int
	ctx         bool
	open, close bool
}

func (r *simReader) peek() (t simTag, size int) {
	b := r.b
	if len(b) == 0 {
		r.err = true
		return
	}
	t.num, size = int(b[0]>>4), 1
	t.ctx = b[0]&8 != 0
	at := func(i int) int {
		if i >= len(b) {
			r.err = true
			return 0
		}
		return int(b[i])
	}
	if t.num == 15 {
		t.num = at(size)
		size++
	}
	l := int(b[0] & 7)
	if t.ctx && l == 6 {
		t.open = true
		return
	}
	if t.ctx && l == 7 {
		t.close = true
		return
	}
	if l == 5 {
		l = at(size)
		size++
		if l == 254 {
			l = at(size)<<8 | at(size+1)
			size += 2
		} else if l == 255 {
			r.err = true
			return
		}
	} else if !t.ctx && t.num == 1 {
		l = 0
	}
	t.n = l
	if size+l > len(b) {
		r.err = true
	}
	return
}

func (r *simReader) is(num int, kind byte) bool {
	if r.err || len(r.b) == 0 {
		return false
	}
	t, _ := r.peek()
	if r.err || t.num != num || !t.ctx {
		return false
	}
	switch kind {
	case '(':
		return t.open
	case ')':
		return t.close
	}
	return !t.open && !t.close
}

func (r *simReader) brace(num int, kind byte) {
	if !r.is(num, kind) {
		r.err = true
		return
	}
	_, n := r.peek()
	r.b = r.b[n:]
}

func (r *simReader) ctx(num int) uint32 {
	if !r.is(num, 'v') {
		r.err = true
		return 0
	}
	t, n := r.peek()
	v := u32(Bytes(r.b[n : n+t.n]))
	if t.n > 4 || t.n == 0 {
		r.err = true
	}
	r.b = r.b[n+t.n:]
	return v
}

// raw: application values up to the closing tag
func (r *simReader) raw(num int) Bytes {
	start := r.b
	for !r.err && !r.is(num, ')') {
		t, n := r.peek()
		if r.err || t.ctx {
			r.err = true
			break
		}
		r.b = r.b[n+t.n:]
	}
	if r.err {
		return nil
	}
	v := append(Bytes{}, start[:len(start)-len(r.b)]...)
	r.brace(num, ')')
	return v
}

func (r *simReader) prop(a, b int) *simProp {
	p := &simProp{P: b32(r.ctx(a)), Ix: b32(0xFFFFFFFF), Raw: Bytes{}}
	if r.is(b, 'v') {
		p.Ix = b32(r.ctx(b))
	}
	return p
}

func (r *simReader) obj() *simObj {
	v := r.ctx(0)
	return &simObj{Ty: int(v >> 22), In: b32(v & 0x3FFFFF)}
}

func simParse(svc int, b []byte) ([]*simObj, bool) {
	r := &simReader{b: b}
	var os []*simObj
	switch svc {
	case 12, 15:
		o := r.obj()
		p := r.prop(1, 2)
		if svc == 15 {
			r.brace(3, '(')
			p.Raw = r.raw(3)
			if r.is(4, 'v') {
				p.Pri = int(r.ctx(4))
			}
		}
		o.Props = []*simProp{p}
		os = append(os, o)
	case 14, 16:
		for !r.err && len(r.b) > 0 {
			o := r.obj()
			r.brace(1, '(')
			for !r.err && !r.is(1, ')') {
				p := r.prop(0, 1)
				if svc == 16 {
					r.brace(2, '(')
					p.Raw = r.raw(2)
					if r.is(3, 'v') {
						p.Pri = int(r.ctx(3))
					}
				}
				o.Props = append(o.Props, p)
			}
			r.brace(1, ')')
			os = append(os, o)
		}
	default:
		return nil, false
	}
	return os, !r.err && len(r.b) == 0
}

// ---------------------------------------------------------------- writing answers

func simTagged(num int, v uint32) Bytes {
	c := b32(v)
	for len(c) > 1 && c[0] == 0 {
		c = c[1:]
	}
	return append(Bytes{byte(num<<4 | 8 | len(c))}, c...)
}
func simApp(num int, v uint32) Bytes {
	b := simTagged(num, v)
	b[0] &^= 8
	return b
}
func simOid(num, ty int, in Bytes) Bytes {
	return append(Bytes{byte(num<<4 | 12)}, b32(uint32(ty)<<22|u32(in))...)
}
func joinB(bs ...Bytes) Bytes {
	var r Bytes
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func (p *simProp) ref(a, b int) Bytes {
	r := simTagged(a, u32(p.P))
	if u32(p.Ix) != 0xFFFFFFFF {
		r = joinB(r, simTagged(b, u32(p.Ix)))
	}
	return r
}

func isNull(b Bytes) bool { return len(b) == 1 && b[0] == 0 }

// value of a property: bytes, or an error (cls, code), or what else happens (abort, drop)
func (d *SimDev) value(o *simObj, p *simProp) (b Bytes, cls, code int, else_ string) {
	e := d.Tab[simKey(o.Ty, u32(o.In), u32(p.P))]
	if e == nil {
		return nil, 2, 32, ""
	}
	all := u32(p.Ix) == 0xFFFFFFFF
	list, whole := e.L, e.Whole
	switch e.K {
	case "e":
		return nil, e.C, e.D, ""
	case "v", "c":
		if !all {
			return nil, 2, 50, ""
		}
		if e.K == "v" {
			return e.B, 0, 0, ""
		}
		for _, v := range e.Pa {
			if !isNull(v) {
				return v, 0, 0, ""
			}
		}
		return e.Def, 0, 0, ""
	case "r":
		list, whole = d.Tab[e.Of].Pa, "ok"
	}
	if all {
		switch whole {
		case "ok":
			return joinB(list...), 0, 0, ""
		case "error":
			return nil, 2, 31, ""
		}
		return nil, 0, 0, whole
	}
	i := u32(p.Ix)
	if i == 0 {
		return simApp(2, uint32(len(list))), 0, 0, ""
	}
	if int64(i) > int64(len(list)) {
		return nil, 2, 42, ""
	}
	if len(list[i-1]) == 0 {
		return nil, 2, 32, ""
	}
	return list[i-1], 0, 0, ""
}

// write: error or 0, 0
func (d *SimDev) write(o *simObj, p *simProp) (cls, code int) {
	e := d.Tab[simKey(o.Ty, u32(o.In), u32(p.P))]
	if e == nil {
		return 2, 32
	}
	if u32(p.Ix) != 0xFFFFFFFF {
		return 2, 50
	}
	switch {
	case e.K == "c":
		if !isNull(p.Raw) && (len(p.Raw) == 0 || int(p.Raw[0]>>4) != e.Vt) {
			return 2, 9
		}
		slot := p.Pri
		if slot == 0 {
			slot = 16
		}
		e.Pa[slot-1] = p.Raw
	case e.K == "v" && e.W:
		e.B = p.Raw
	default:
		return 2, 40
	}
	return 0, 0
}

func simErr(id byte, svc, cls, code int) Bytes {
	return joinB(Bytes{80, id, byte(svc)}, simApp(9, uint32(cls)), simApp(9, uint32(code)))
}

func (d *SimDev) serve(id byte, svc int, os []*simObj, fault string) Bytes {
	switch fault {
	case "drop":
		return nil
	case "error":
		return simErr(id, svc, 2, 31)
	case "abort":
		return Bytes{113, id, 4}
	}
	switch svc {
	case 12:
		b, cls, code, x := d.value(os[0], os[0].Props[0])
		switch {
		case x == "drop":
			return nil
		case x == "abort":
			return Bytes{113, id, 4}
		case cls != 0:
			return simErr(id, svc, cls, code)
		}
		return joinB(Bytes{48, id, 12}, simOid(0, os[0].Ty, os[0].In), os[0].Props[0].ref(1, 2), Bytes{0x3E}, b, Bytes{0x3F})
	case 14:
		for _, o := range os {
			for _, p := range o.Props {
				b, cls, code, x := d.value(o, p)
				switch {
				case x == "drop":
					return nil
				case x == "abort":
					return Bytes{113, id, 4}
				case cls != 0:
					p.out = joinB(Bytes{0x5E}, simApp(9, uint32(cls)), simApp(9, uint32(code)), Bytes{0x5F})
				default:
					p.out = joinB(Bytes{0x4E}, b, Bytes{0x4F})
				}
			}
		}
		os = simMangle(os, fault)
		r := Bytes{48, id, 14}
		for _, o := range os {
			r = joinB(r, simOid(0, o.Ty, o.In), Bytes{0x1E})
			for _, p := range o.Props {
				r = joinB(r, p.ref(2, 3), p.out)
			}
			r = joinB(r, Bytes{0x1F})
		}
		return r
	case 15:
		if cls, code := d.write(os[0], os[0].Props[0]); cls != 0 {
			return simErr(id, svc, cls, code)
		}
		return Bytes{32, id, 15}
	case 16:
		for _, o := range os {
			for _, p := range o.Props {
				if cls, code := d.write(o, p); cls != 0 {
					return simErr(id, svc, cls, code)
				}
			}
		}
		return Bytes{32, id, 16}
	}
	return nil
}

// simMangle: answers of a device that does not do what it should
func simMangle(os []*simObj, fault string) []*simObj {
	if len(os) == 0 {
		return os
	}
	cp := make([]*simObj, len(os))
	for i, o := range os {
		c := *o
		c.Props = append([]*simProp{}, o.Props...)
		cp[i] = &c
	}
	last := cp[len(cp)-1]
	n := len(last.Props)
	switch fault {
	case "dropprop":
		last.Props = last.Props[:max(n-1, 0)]
	case "dropobj":
		cp = cp[:len(cp)-1]
	case "revobj":
		for i, j := 0, len(cp)-1; i < j; i, j = i+1, j-1 {
			cp[i], cp[j] = cp[j], cp[i]
		}
	case "swapid":
		// the values of one object under the name of another
		if len(cp) > 1 {
			cp[0].Ty, last.Ty = last.Ty, cp[0].Ty
			cp[0].In, last.In = last.In, cp[0].In
		} else {
			last.In = b32(u32(last.In) ^ 1)
		}
	case "revprop":
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			last.Props[i], last.Props[j] = last.Props[j], last.Props[i]
		}
	case "dupprop":
		if n > 1 {
			last.Props[n-1] = last.Props[0]
		} else {
			last.Props = append(last.Props, last.Props[0])
		}
	case "dupobj":
		if len(cp) > 1 {
			cp[len(cp)-1] = cp[0]
		} else {
			cp = append(cp, cp[0])
		}
	case "extra":
		last.Props = append(last.Props, &simProp{P: b32(77), Ix: b32(0xFFFFFFFF), out: Bytes{0x4E, 0x75, 2, 0, 65, 0x4F}})
	case "empty":
		last.Props = nil
	case "none":
		cp = nil
	}
	return cp
}

// ---------------------------------------------------------------------- the link

func simRoute(b []byte) (net int, adr Bytes, apdu int, ok bool) {
	p, ok := apduStart(b)
	if !ok {
		return
	}
	q := 4
	if b[5]&0x20 != 0 {
		net = int(b[6])<<8 | int(b[7])
		q = int(b[8])
		adr = append(Bytes{}, b[9:9+q]...)
	}
	return net, adr, p, true
}

func (s *simDevice) frame(d *SimDev, apdu Bytes) Bytes {
	npdu := Bytes{1, 0}
	if d.Net != 0 {
		npdu = joinB(Bytes{1, 8, byte(d.Net >> 8), byte(d.Net), byte(len(d.Adr))}, d.Adr)
	}
	n := 4 + len(npdu) + len(apdu)
	return joinB(Bytes{129, 10, byte(n >> 8), byte(n)}, npdu, apdu)
}

func (s *simDevice) handle(l *memLink, b []byte, dest *btypes.Address) {
	net, adr, p, ok := simRoute(b)
	if !ok {
		rec.ev("lost", "why", "no frame", "b", Bytes(b))
		return
	}
	put := func(src Bytes, f Bytes, delay int) {
		go func() {
			time.Sleep(time.Duration(delay) * time.Millisecond)
			l.rx <- rxFrame{&btypes.Address{Mac: append([]byte{}, src...), MacLen: 6}, append([]byte{}, f...)}
		}()
	}
	if b[1] == 11 {
		if b[p] == 16 && b[p+1] == 8 {
			lo, hi := uint32(0), uint32(4194303)
			if len(b) > p+2 {
				r := &simReader{b: b[p+2:]}
				lo, hi = r.ctx(0), r.ctx(1)
			}
			rec.ev("who", "low", int(lo), "high", int(hi), "net", net, "dst", Bytes(dest.Mac))
			for i, d := range s.Devs {
				for _, m := range d.Iam {
					_ = i
					put(m.Src, m.B, m.At)
				}
			}
		}
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, d := range s.Devs {
		if string(d.Mac) != string(dest.Mac) || d.Net != net || string(d.Adr) != string(adr) {
			continue
		}
		if b[p]&0xF0 != 0 || len(b) < p+4 {
			rec.ev("lost", "why", "no request", "b", Bytes(b))
			return
		}
		id, svc := b[p+2], int(b[p+3])
		os, ok := simParse(svc, b[p+4:])
		if !ok {
			rec.ev("lost", "why", "not understood", "b", Bytes(b))
			return
		}
		d.n++
		fault := d.Faults[fmt.Sprint(d.n)]
		if f := d.Faults["*"]; f != "" {
			fault = f
		}
		kv := []any{"d", i + 1, "id", int(id), "svc", svc, "objs", os, "b", Bytes(b), "fault", fault}
		rep := d.serve(id, svc, os, fault)
		if rep == nil {
			rep = Bytes{}
		}
		rec.ev("srv", append(kv, "rep", rep)...)
		if len(rep) == 0 || fault == "lost" {
			return
		}
		f := s.frame(d, rep)
		if len(f) > 1497 {
			rec.ev("lost", "why", "too long", "b", Bytes{})
			return
		}
		delay := d.Delay
		if fault == "late" {
			delay = 6000
		}
		put(d.Mac, f, delay)
		if fault == "twice" {
			put(d.Mac, f, delay+1)
		}
		return
	}
	rec.ev("lost", "why", "nobody there", "b", Bytes(b))
}
