package harness

// Driver "echo": many goroutines share one real client and call it as fast as they can.  The
// device behind the in-memory link answers each request with data that follows from the request,
// at once or in bursts, in any order.  Every call is a record of its own: what was asked, what
// went out for it, and what came back.

import (
	"encoding/json"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
)

type EchoCase struct {
	Workers int      `json:"workers"`
	Calls   int      `json:"calls"`
	Prompt  int      `json:"prompt"` // percentage of requests that are answered at once
	Kinds   []string `json:"kinds"`
	Seed    int64    `json:"seed"`
}

type echoReq struct {
	id   byte
	body Bytes
}
type echoLink struct {
	*memLink
	mu      sync.Mutex
	rnd     *rand.Rand
	prompt  int
	pending []echoReq
	busy    map[byte]bool
	max     int
	sent    map[int][]J // call -> what went out
}

// EchoVal: what the device answers for a property
func echoVal(in, p uint32, m int) Bytes {
	b := make(Bytes, 1+int((in+31*p)%uint32(m)))
	for i := range b {
		b[i] = byte((in%65521 + in/65536*5 + 3*p + uint32(i+1)*(1+in%7)) % 256)
	}
	return b
}

func echoOct(v Bytes) Bytes {
	switch {
	case len(v) <= 4:
		return joinB(Bytes{byte(6<<4 | len(v))}, v)
	case len(v) <= 253:
		return joinB(Bytes{6<<4 | 5, byte(len(v))}, v)
	}
	return joinB(Bytes{6<<4 | 5, 254, byte(len(v) >> 8), byte(len(v))}, v)
}

func echoAnswer(id byte, svc int, body Bytes) Bytes {
	os, ok := simParse(svc, body)
	if !ok || len(os) == 0 {
		return Bytes{96, id, 1}
	}
	for _, o := range os {
		in := u32(o.In)
		if in%16 == 0 {
			cls, code := int(1+in/16%6), int(in/128%50)
			if svc == 16 {
				return joinB(Bytes{80, id, 16, 0x0E}, simApp(9, uint32(cls)), simApp(9, uint32(code)), Bytes{0x0F})
			}
			return simErr(id, svc, cls, code)
		}
	}
	switch svc {
	case 12:
		p := os[0].Props[0]
		return joinB(Bytes{48, id, 12}, simOid(0, os[0].Ty, os[0].In), p.ref(1, 2), Bytes{0x3E},
			echoOct(echoVal(u32(os[0].In), u32(p.P), 900)), Bytes{0x3F})
	case 14:
		r := Bytes{48, id, 14}
		for _, o := range os {
			r = joinB(r, simOid(0, o.Ty, o.In), Bytes{0x1E})
			for _, p := range o.Props {
				r = joinB(r, p.ref(2, 3), Bytes{0x4E}, echoOct(echoVal(u32(o.In), u32(p.P), 40)), Bytes{0x4F})
			}
			r = joinB(r, Bytes{0x1F})
		}
		return r
	}
	return Bytes{32, id, byte(svc)}
}

func (l *echoLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	b := append(Bytes{}, data...)
	p, ok := apduStart(b)
	if !ok || len(b) < p+4 || b[p]&0xF0 != 0 || len(dest.Mac) != 6 {
		return len(b), nil
	}
	k := int(dest.Mac[2])<<16 | int(dest.Mac[3])<<8 | int(dest.Mac[5])
	id := b[p+2]
	l.mu.Lock()
	l.sent[k] = append(l.sent[k], J{"id": int(id), "b": b[p:], "clash": l.busy[id]})
	l.busy[id] = true
	if len(l.busy) > l.max {
		l.max = len(l.busy)
	}
	r := echoReq{id, b[p:]}
	now := l.rnd.Intn(100) < l.prompt
	if !now {
		l.pending = append(l.pending, r)
	}
	l.mu.Unlock()
	if now {
		l.answer(r)
	}
	return len(b), nil
}

func (l *echoLink) answer(r echoReq) {
	a := joinB(Bytes{0x81, 10, 0, 0, 1, 0}, echoAnswer(r.id, int(r.body[3]), r.body[4:]))
	a[2], a[3] = byte(len(a)>>8), byte(len(a))
	l.mu.Lock()
	delete(l.busy, r.id)
	l.mu.Unlock()
	l.rx <- rxFrame{&btypes.Address{Mac: []byte{10, 0, 0, 2, 0xBA, 0xC0}, MacLen: 6}, a}
}

// flush answers what is pending, in any order
func (l *echoLink) flush(stop chan struct{}) {
	for {
		l.mu.Lock()
		ps := l.pending
		l.pending = nil
		l.rnd.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		d := time.Duration(1+l.rnd.Intn(3)) * time.Millisecond
		l.mu.Unlock()
		for _, r := range ps {
			l.answer(r)
		}
		select {
		case <-stop:
			return
		case <-time.After(d):
		}
	}
}

func echoObjs(r *rand.Rand, kind string) []Obj {
	// small and large numbers, and errors now and then
	in := func() uint32 {
		n := uint32(r.Intn(1 << uint(4+r.Intn(19))))
		if n%16 == 0 && r.Intn(4) > 0 {
			n++
		}
		return n
	}
	no, np := 1, 1
	if kind == "rpm" || kind == "wpm" {
		no = 1 + r.Intn(4)
	}
	os := make([]Obj, no)
	for i := range os {
		os[i] = Obj{Ty: r.Intn(60), In: b32(in())}
		if kind == "rpm" {
			np = 1 + r.Intn(3)
		}
		for j := 0; j < np; j++ {
			p := Prop{P: b32(uint32(r.Intn(300))), Ix: b32(0xFFFFFFFF)}
			if kind == "wp" || kind == "wpm" {
				if (os[i].Ty == 4 || os[i].Ty == 5) && u32(p.P) == 85 {
					p.P = b32(86) // takes an enumeration only
				}
				p.V = &Val{T: "str", B: Bytes("x" + string(rune('a'+r.Intn(26))) + time.Duration(r.Intn(1<<30)).String())}
			}
			os[i].Props = append(os[i].Props, p)
		}
	}
	return os
}

func init() {
	drivers["echo"] = func(t *testing.T, raw json.RawMessage) bool {
		var cs EchoCase
		mustUnmarshal(raw, &cs)
		synctest.Test(t, func(t *testing.T) {
			link := &echoLink{memLink: newMemLink(), rnd: rand.New(rand.NewSource(cs.Seed)), prompt: cs.Prompt,
				busy: map[byte]bool{}, sent: map[int][]J{}}
			cli, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: link})
			if err != nil {
				rec.ev("noclient", "err", errStr(err))
				return
			}
			go cli.ClientRun()
			stop := make(chan struct{})
			go link.flush(stop)
			type result struct {
				kind      string
				objs      []Obj
				ok        bool
				cls, code int
				got       []any
			}
			res := make([][]result, cs.Workers)
			var wg sync.WaitGroup
			for w := range res {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(cs.Seed*1000 + int64(w)))
					for n := 0; n < cs.Calls; n++ {
						k := w*cs.Calls + n
						dev := btypes.Device{MaxApdu: 1476, Addr: btypes.Address{MacLen: 6,
							Mac: []byte{10, 7, byte(k >> 16), byte(k >> 8), 0xBA, byte(k)}}}
						kind := cs.Kinds[r.Intn(len(cs.Kinds))]
						objs := echoObjs(r, kind)
						gobjs := objsGo(objs)
						var err error
						var out []btypes.Object
						switch kind {
						case "rp":
							var d btypes.PropertyData
							d, err = cli.ReadProperty(dev, btypes.PropertyData{Object: gobjs[0]})
							out = []btypes.Object{d.Object}
						case "rpm":
							var d btypes.MultiplePropertyData
							d, err = cli.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: gobjs})
							out = d.Objects
						case "wp":
							err = cli.WriteProperty(dev, btypes.PropertyData{Object: gobjs[0]})
						case "wpm":
							err = cli.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: gobjs})
						}
						if err != nil {
							out = nil
						}
						c, d := errNumbers(errStr(err))
						res[w] = append(res[w], result{kind, objs, err == nil, c, d, objsJSON(out)})
					}
				}()
			}
			all := make(chan struct{})
			go func() { wg.Wait(); close(all) }()
			select {
			case <-all:
			case <-time.After(24 * time.Hour):
				rec.ev("stuck")
				os.Exit(3)
			}
			close(stop)
			cli.ClientClose(false)
			time.Sleep(time.Minute)
			for w := range res {
				for n, r := range res[w] {
					sent := link.sent[w*cs.Calls+n]
					if sent == nil {
						sent = []J{}
					}
					rec.ev("echo", "kind", r.kind, "objs", r.objs, "sent", sent, "ok", r.ok, "cls", r.cls, "code", r.code, "got", r.got)
				}
			}
			rec.ev("end", "leak", len(leaks()), "max", link.max)
			if len(leaks()) > 0 {
				os.Exit(3)
			}
		})
		return false
	}
}
