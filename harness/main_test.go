package harness

// Worker: runs the cases of one kind (one JSON object per line in $VCASES) against
// the code under test and writes the events observed to $VOUT, one JSON object per
// line. Every event is written immediately, so that a crash leaves a journal.
//
//	VKIND   which driver runs the cases
//	VSTART  index (0-based) of the first case to run
//	VSTEP   distance between two cases of this worker
//
// Exit status: 0 all cases done; 3 the process has to be restarted at the next case
// (goroutines of a finished case are still there); anything else: the last case crashed.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
)

type J = map[string]any

type recorder struct {
	mu    sync.Mutex
	f     *os.File
	c     int
	n     int
	clock func() int64 // milliseconds
	done  bool
}

var rec = &recorder{}

// ev records one event. The order of the records is the order of the calls of ev.
func (r *recorder) ev(e string, kv ...any) {
	r.evf(e, nil, kv...)
}

// evf is ev with an action done under the recorder's lock, before the event is written
func (r *recorder) evf(e string, act func(), kv ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done {
		return
	}
	if act != nil {
		act()
	}
	m := J{"c": r.c, "i": r.n, "e": e}
	if r.clock != nil {
		m["t"] = r.clock()
	}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	r.f.Write(append(b, '\n'))
	r.n++
}

type driver func(t *testing.T, raw json.RawMessage) (restart bool)

var drivers = map[string]driver{}

var realProgress atomic.Int64

func TestWorker(t *testing.T) {
	kind := os.Getenv("VKIND")
	if kind == "" {
		t.Skip("driven by check.py")
	}
	d := drivers[kind]
	if d == nil {
		t.Fatalf("no driver %q", kind)
	}
	cases := readLines(t, os.Getenv("VCASES"))
	start, _ := strconv.Atoi(os.Getenv("VSTART"))
	step, _ := strconv.Atoi(os.Getenv("VSTEP"))
	if step < 1 {
		step = 1
	}
	limit, _ := strconv.Atoi(os.Getenv("VLIMIT")) // seconds of real time per case
	if limit < 1 {
		limit = 30
	}
	out, err := os.OpenFile(os.Getenv("VOUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	rec.f = out
	quiet()
	realProgress.Store(time.Now().UnixNano())
	go watchdog(out, time.Duration(limit)*time.Second)
	for i := start; i < len(cases); i += step {
		rec.mu.Lock()
		rec.c, rec.n, rec.clock, rec.done = i, 0, nil, false
		rec.mu.Unlock()
		realProgress.Store(time.Now().UnixNano())
		fmt.Fprintf(out, "{\"c\":%d,\"e\":\"#start\"}\n", i)
		restart := d(t, cases[i])
		rec.mu.Lock()
		rec.done = true
		rec.mu.Unlock()
		fmt.Fprintf(out, "{\"c\":%d,\"e\":\"#done\"}\n", i)
		if restart {
			os.Exit(3)
		}
	}
}

// watchdog ends the process when a case makes no progress in real time: a busy loop or a
// lock that is never released. (Ordinary waiting costs no real time in a synctest bubble.)
func watchdog(out *os.File, limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		if time.Now().UnixNano()-realProgress.Load() > int64(limit) {
			fmt.Fprintf(out, "{\"c\":%d,\"e\":\"#hang\"}\n", rec.c)
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			if f := os.Getenv("VSTACK"); f != "" {
				os.WriteFile(f, buf[:n], 0o644)
			}
			os.Exit(4)
		}
	}
}

func quiet() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stderr = null
	os.Stdout = null
	logrus.SetOutput(io.Discard)
	stdlog.SetOutput(io.Discard)
}

// freshStderr: closing a client with ClientClose(true) closes os.Stderr
func freshStderr() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stderr = null
}

func readLines(t *testing.T, name string) []json.RawMessage {
	f, err := os.Open(name)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var res []json.RawMessage
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if s := strings.TrimSpace(line); s != "" {
			res = append(res, json.RawMessage(s))
		}
		if err != nil {
			break
		}
	}
	return res
}

func mustUnmarshal(raw json.RawMessage, v any) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(fmt.Sprintf("bad case: %v: %s", err, raw))
	}
}

// leaks returns the goroutines that run code of the library under test
func leaks() []string {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	var res []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if !strings.Contains(g, "NubeDev/bacnet") {
			continue
		}
		lines := strings.Split(g, "\n")
		name := ""
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "github.com/NubeDev/bacnet") {
				name = l
				break
			}
		}
		if i := strings.LastIndex(name, "("); i > 0 {
			name = name[:i]
		}
		if name == "" {
			continue
		}
		res = append(res, name)
	}
	return res
}
