package harness

// Driver "utsm": scripted subscriptions and publications on a real manager, in virtual time.

import (
	"encoding/json"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet/utsm"
)

type utsmCase struct {
	T   []int64 `json:"T"`
	Ops []struct {
		Op string `json:"op"`
		At int64  `json:"at"`
		S  int    `json:"s"`
		P  int    `json:"p"`
		Lo int    `json:"lo"`
		Hi int    `json:"hi"`
		ID int    `json:"id"`
		// the subscription's own timeouts, -1: those of the manager
		Own []int64 `json:"own"`
	} `json:"ops"`
}

// subOption is the named option of a subscription, nil if there is none.  The options are methods
// of the subscription itself, so one is built when the subscription is handed over.
func subOption(name string, d time.Duration) utsm.SubscriberOption {
	ft := reflect.TypeOf(utsm.SubscriberOption(nil))
	if ft.NumIn() != 1 {
		return nil
	}
	mt, ok := ft.In(0).MethodByName(name)
	if !ok || mt.Type.NumIn() != 2 || mt.Type.In(1) != reflect.TypeOf(d) || mt.Type.NumOut() != 1 || mt.Type.Out(0) != ft {
		return nil
	}
	f := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		return args[0].MethodByName(name).Call([]reflect.Value{reflect.ValueOf(d)})[0].Call(args)
	})
	return f.Interface().(utsm.SubscriberOption)
}

func init() {
	drivers["utsm"] = func(t *testing.T, raw json.RawMessage) bool {
		var cs utsmCase
		mustUnmarshal(raw, &cs)
		synctest.Test(t, func(t *testing.T) {
			start := time.Now()
			rec.mu.Lock()
			rec.clock = func() int64 { return time.Since(start).Milliseconds() }
			rec.mu.Unlock()
			m := utsm.NewManager(utsm.DefaultSubscriberTimeout(time.Duration(cs.T[0])*time.Millisecond),
				utsm.DefaultSubscriberLastReceivedTimeout(time.Duration(cs.T[1])*time.Millisecond))
			var wg sync.WaitGroup
			for _, op := range cs.Ops {
				if d := time.Duration(op.At)*time.Millisecond - time.Since(start); d > 0 {
					time.Sleep(d)
				}
				switch op.Op {
				case "sub":
					wg.Add(1)
					go func() {
						defer wg.Done()
						T := []int64{cs.T[0], cs.T[1]}
						var opts []utsm.SubscriberOption
						for i, name := range []string{"Timeout", "LastReceivedTimeout"} {
							if len(op.Own) == 2 && op.Own[i] >= 0 {
								if o := subOption(name, time.Duration(op.Own[i])*time.Millisecond); o != nil {
									opts, T[i] = append(opts, o), op.Own[i]
								}
							}
						}
						rec.ev("sub", "s", op.S, "lo", op.Lo, "hi", op.Hi, "T", T)
						res, err := m.Subscribe(op.Lo, op.Hi, opts...)
						got := make([]int, len(res))
						for i, r := range res {
							got[i], _ = r.(int)
						}
						rec.ev("subret", "s", op.S, "got", got, "ok", err == nil)
					}()
				case "pub":
					wg.Add(1)
					go func() {
						defer wg.Done()
						rec.ev("pub", "p", op.P, "id", op.ID)
						m.Publish(op.ID, op.P)
						rec.ev("pubret", "p", op.P)
					}()
				case "sync":
					synctest.Wait()
					rec.ev("sync")
				}
			}
			all := make(chan struct{})
			go func() { wg.Wait(); close(all) }()
			select {
			case <-all:
			case <-time.After(time.Minute):
				rec.ev("stuck")
				os.Exit(3)
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			lk := leaks()
			rec.ev("end", "leak", len(lk), "who", append([]string{}, lk...))
			if len(lk) > 0 {
				os.Exit(3)
			}
		})
		return false
	}
}
