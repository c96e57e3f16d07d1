package fdosim

import (
	"fmt"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C08"] = scenC08 }

// C08: many devices onboard at once through one server process under network
// faults and crashes; then the faults stop and every genuine device must get
// through in one fresh attempt, with a bounded number of messages. A share of
// the runs is fault-free from the start and covers the suites.
func scenC08(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	nDev := 1 + w.Choose("ndev", 4)
	var devs []*Dev
	for i := 0; i < nDev; i++ {
		d := w.distinctDevice(fmt.Sprintf("d%d", i), 10, used)
		devs = append(devs, d)
		w.storeVoucher(st, d)
	}
	split := w.Choose("split", 2) == 1
	var srv, rv *Node
	if split {
		srv = w.AddNode("owner", "owner", st, serve(cfg, "d"))
		rv = w.AddNode("rv", "rv", w.NewStorage("rvstore"), serve(cfg, "r"))
	} else {
		srv = w.AddNode("srv", "rv", st, serve(cfg, "dra"))
		w.nodes["owner"] = srv
		rv = srv
	}
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 200)
	mode := w.Choose("mode", 3)
	if mode > 0 {
		w.drawNetFaults(120)
		if mode == 2 {
			for _, n := range []*Node{srv, rv} {
				n.Store.CrashNum, n.Store.CrashDen = 1, 150
				n.Store.ErrNum, n.Store.ErrDen, n.Store.ErrOps = w.Choose("dberr", 3), 100, "get set commit"
			}
			w.autoRestart(srv, rv)
		}
		for _, d := range devs {
			d := d
			w.Go(nil, d.Name+".faulty", func() {
				for k := 0; k < 1+w.Choose("attempts", 2); k++ {
					r0 := RunTo0(*cfg, "http://rv", d)
					r1 := RunTo1("http://rv", d)
					r2 := RunTo2("http://owner", d, w.chosenOpt(d))
					w.Logf("%s faulty attempt: to0=%v to1=%v to2=%v %v", d.Name, r0.Err, r1.Err, r2.Stage, r2.Err)
					w.Count("faulty_attempts")
					if r2.Err == nil {
						w.Count("faulty_attempts_completed")
					}
				}
			})
		}
		w.Run()
		w.heal()
		w.Advance(time.Duration(1+w.Choose("settle", 120)) * time.Second)
		for _, n := range []*Node{srv, rv} {
			n.Store.CrashNum, n.Store.ErrNum = 0, 0
			if !n.up {
				w.Restart(n)
			}
		}
	}
	// every environment that delivers: a fresh attempt succeeds
	for _, d := range devs {
		d := d
		opt := w.chosenOpt(d)
		w.Go(nil, d.Name, func() {
			suite := fmt.Sprintf("%s/%s/%s/%d/chain%d", sgName(d.DevSg), sgName(d.OwnerSg), opt.Kex, opt.Cipher, d.Chain)
			before := w.msgSeq
			r0 := RunTo0(*cfg, "http://rv", d)
			w.Eval("to0 " + sgName(d.OwnerSg) + fmt.Sprint(d.Chain))
			if r0.Err != nil {
				w.Violate("register-fails", "%s: fault-free registration failed: %v", d.Desc(), r0.Err)
				return
			}
			r1 := RunTo1("http://rv", d)
			w.Eval("to1 " + sgName(d.DevSg) + sgName(d.OwnerSg))
			if r1.Err != nil {
				w.Violate("lookup-fails", "%s: fault-free lookup failed: %v", d.Desc(), r1.Err)
				return
			}
			if len(r1.Addr) == 0 || r1.Addr[0].RVDNS == nil || *r1.Addr[0].RVDNS != "owner.example" || r1.Addr[0].RVPort != 8043 {
				w.Violate("lookup-wrong-address", "%s: the lookup did not return the registered address: %v", d.Desc(), r1.Addr)
			}
			m := w.msgSeq
			r2 := RunTo2("http://owner", d, opt)
			w.Eval("to2 " + suite)
			if r2.Err != nil {
				w.Violate("transfer-fails", "%s %s: fault-free ownership transfer failed: %v", d.Desc(), suite, r2.Err)
				return
			}
			_ = m
			_ = before
			w.Count("onboarded")
		})
	}
	w.Run()
	if w.endErr != "" {
		w.Violate("no-progress", "fault-free onboarding did not end: %s", w.endErr)
	}
}

// drawNetFaults enables a random subset of network faults (swarm style).
func (w *World) drawNetFaults(max int) {
	pick := func(l string) int {
		if w.Choose("net."+l, 2) == 0 {
			return 0
		}
		return 5 + w.Choose("net."+l+".p", max)
	}
	w.Net.DropReq = pick("dropreq")
	w.Net.DropResp = pick("dropresp")
	w.Net.Dup = pick("dup")
	w.Net.Reset = pick("reset")
	w.Net.Corrupt = pick("corrupt")
	w.Net.CorruptResp = pick("corruptresp")
	w.Net.Truncate = pick("trunc")
	w.Net.LongDelay = pick("longdelay")
}

func (w *World) heal() {
	w.Net.Healed = true
	for h := range w.Net.Down {
		delete(w.Net.Down, h)
	}
	w.Logf("faults stop")
}

// autoRestart brings crashed processes back after a while.
func (w *World) autoRestart(ns ...*Node) {
	pending := map[*Node]bool{}
	w.onStep = append(w.onStep, func() {
		for _, n := range ns {
			n := n
			if !n.up && !pending[n] {
				pending[n] = true
				w.At(time.Duration(10+w.Choose("restart.after", 5000))*time.Millisecond, "restart", func() {
					pending[n] = false
					if !n.up {
						w.Restart(n)
						w.Count("fault.restart")
					}
				})
			}
		}
	})
}
