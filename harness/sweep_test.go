package harness

// Case "sweep" of driver "codec": one decoder is given a byte string, all of its prefixes, and it
// with single bytes replaced, with bytes inserted, and with bytes removed. Reported: how many of
// them there were, the first that made the decoder panic, and the one that made it allocate most
// in relation to its length.

import (
	"runtime"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

func decodeAs(dec string, b []byte) (err error) {
	d := encoding.NewDecoder(b)
	switch dec {
	case "bvlc":
		var m btypes.BVLC
		err = d.BVLC(&m)
	case "npdu":
		var m btypes.NPDU
		_, err = d.NPDU(&m)
	case "apdu":
		var m btypes.APDU
		err = d.APDU(&m)
	case "rpack":
		var p btypes.PropertyData
		err = d.ReadProperty(&p)
	case "rpmack":
		var p btypes.MultiplePropertyData
		err = d.ReadMultiplePropertyAck(&p)
	case "iam":
		var m btypes.IAm
		err = d.IAm(&m)
	case "whois":
		var lo, hi int32
		err = d.WhoIs(&lo, &hi)
	case "app":
		_, err = d.AppData()
	default:
		panic("decoder " + dec)
	}
	if err == nil {
		err = d.Error()
	}
	return err
}

var sweepBytes = []byte{0, 1, 2, 4, 5, 7, 8, 9, 0x0c, 0x0e, 0x0f, 0x10, 0x15, 0x1e, 0x1f, 0x21, 0x25, 0x29, 0x2a, 0x2e, 0x2f, 0x35, 0x3e, 0x3f,
	0x45, 0x4e, 0x4f, 0x55, 0x5e, 0x5f, 0x65, 0x75, 0x7f, 0x80, 0x81, 0x85, 0x8d, 0x95, 0xa4, 0xa5, 0xb4, 0xb5, 0xc4, 0xc5, 0xd5, 0xe5, 0xf0,
	0xf5, 0xfd, 0xfe, 0xff}

var sweepInserts = [][]byte{{5}, {0xfd}, {0xfe, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0x7f, 0xff, 0xff, 0xff}, {0xff, 0x80, 0, 0, 0},
	{0xff, 0, 0xff, 0xff, 0xff}, {0x65, 0xff, 0x10, 0, 0, 0}, {0x75, 0xff, 0x7f, 0xff, 0xff, 0xff}, {0x85, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0x85, 0}, {0x80}, {0x81}, {0x2e}, {0x2f}, {0x4e}, {0x4f}, {0x1e}, {0x1f}, {0xfe}, {0xf8, 5}, {0x25, 0xff, 0xff, 0xff, 0xff, 0xff}}

func sweep(c codecCase) []any {
	n, oks := 0, 0
	var panicked, worst []byte
	var worstAlloc, worstScore uint64
	panics := 0
	var ms runtime.MemStats
	try := func(b []byte) {
		n++
		defer func() {
			if x := recover(); x != nil {
				if panics == 0 {
					panicked = append([]byte{}, b...)
				}
				panics++
			}
		}()
		runtime.ReadMemStats(&ms)
		before := ms.TotalAlloc
		err := decodeAs(c.Dec, b)
		runtime.ReadMemStats(&ms)
		if a := ms.TotalAlloc - before; a > uint64(c.Per*len(b))+worstScore {
			worstScore = a - uint64(c.Per*len(b))
			worstAlloc = a
			worst = append([]byte{}, b...)
		}
		if err == nil {
			oks++
		}
	}
	b := c.B
	for i := 0; i <= len(b); i++ {
		try(b[:i:i])
	}
	for i := range b {
		for _, x := range sweepBytes {
			m := append([]byte{}, b...)
			m[i] = x
			try(m)
		}
		try(cat(b[:i], b[i+1:]))
	}
	for i := 0; i <= len(b); i++ {
		for _, x := range sweepInserts {
			try(cat(cat(b[:i], x), b[i:]))
			// and nothing behind it
			try(cat(b[:i], x))
		}
	}
	return []any{"n", n, "oks", oks, "panics", panics, "at", Bytes(panicked), "worst", Bytes(worst), "alloc", int(worstAlloc)}
}
