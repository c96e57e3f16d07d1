package fdosim

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C07"] = scenC07 }

// tokSess is one session of one protocol that is taken forward step by step.
type tokSess struct {
	proto string // "22", "32" or "to2"
	token string
	used  int64 // when the token was issued or its session last stepped on (after), ms
	used0 int64 // the same, before
	body  func() (cmd string, body []byte)
	after func(cmd string, r rawReply) bool // advance the model, false: session is over
	desc  string
	dead  bool
}

// C07: sessions of the three protocols are taken forward with waits in between
// that end close to ten minutes, by right and wrong tokens, across restarts.
func scenC07(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	var devs []*Dev
	for i := 0; i < 2; i++ {
		devs = append(devs, w.distinctDevice(fmt.Sprintf("d%d", i), 4, used))
		w.storeVoucher(st, devs[i])
	}
	var srv, own *Node
	if w.Choose("split", 3) == 2 {
		rst := w.NewStorage("rv")
		srv = w.AddNode("rv", "rv", rst, serve(cfg, "r"))
		own = w.AddNode("owner", "owner", st, serve(cfg, "da"))
	} else {
		srv = w.AddNode("srv", "rv", st, serve(cfg, "dra"))
		w.nodes["owner"] = srv
		own = srv
	}
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 20)
	w.monitorRv("rv")
	apiTok := ""
	w.Go(nil, "setup", func() {
		for _, d := range devs {
			if r, _ := w.register("http://rv", d, regOpt{Wait: 1 << 20}); !r.ok() {
				w.Violate("registration-refused", "%s: %s", d.Desc(), r)
			}
		}
		r := w.rawSend("http://owner/api/user/login/onprem", rawReq{Method: "POST", CT: "application/json"}, []byte("{}"))
		for _, c := range (&http.Response{Header: r.Head}).Cookies() {
			apiTok = c.Value
			w.Count("api_tokens")
		}
	})
	w.Run()
	if w.endErr != "" || len(w.violations) > 0 {
		return
	}
	urlOf := map[string]string{"22": "http://rv", "32": "http://rv", "to2": "http://owner"}
	var all []*tokSess
	mark := func(s *tokSess, t0 int64) { s.used0, s.used = t0, w.NowMS() }
	start := func() *tokSess {
		d := devs[w.Choose("dev", 2)]
		t0 := w.NowMS()
		s := &tokSess{}
		switch w.Choose("proto", 4) {
		case 0:
			h, r := w.hello20("http://rv")
			if !r.ok() {
				w.Violate("hello-refused", "20: %s", r)
				return nil
			}
			s.proto, s.token, s.desc = "22", h.Token, "registration"
			s.body = func() (string, []byte) { return "22", w.ownerSign(d, h.Nonce, regOpt{Wait: 1 << 20}) }
			s.after = func(string, rawReply) bool { return true } // the session is not stepped on
		case 1:
			h, r := w.hello30("http://rv", d.Guid(), d.Cred.DCSigInfo)
			if !r.ok() {
				w.Violate("hello-refused", "30: %s", r)
				return nil
			}
			s.proto, s.token, s.desc = "32", h.Token, "lookup"
			s.body = func() (string, []byte) { return "32", w.proof32(d, h.Nonce, nil, 0) }
			s.after = func(string, rawReply) bool { return true }
		default:
			x := w.newRawSess("http://owner", d, w.chosenOpt(d))
			r := x.hello()
			if !r.ok() {
				w.Violate("hello-refused", "60: %s", r)
				return nil
			}
			s.proto, s.token, s.desc = "to2", x.Token, "ownership transfer"
			stage, next, more := 62, 0, w.Choose("more68", 3)
			s.body = func() (string, []byte) {
				switch stage {
				case 62:
					return "62", x.body62(next)
				case 64:
					return "64", x.body64()
				case 66:
					return "66", x.body66()
				case 68:
					if more > 0 {
						return "68", x.body68(true, nil)
					}
					return "68", x.body68(false, deviceSims())
				}
				return "70", x.body70()
			}
			s.after = func(cmd string, r rawReply) bool {
				switch stage {
				case 62:
					next++
					if next == x.Entries {
						stage = 64
					}
				case 64:
					stage = 66
				case 66:
					stage = 68
				case 68:
					if more > 0 {
						more--
					} else if o, err := x.open69(r); err == nil && o.IsDone {
						stage = 70
					}
				case 70:
					return false
				}
				return true
			}
		}
		mark(s, t0)
		if len(strings.TrimPrefix(s.token, "Bearer ")) < 8 || !strings.HasPrefix(s.token, "Bearer ") {
			w.Violate("no-token", "%s: the server issued no session token: %q", s.desc, s.token)
		}
		return s
	}
	badToken := func(s *tokSess) (string, string) {
		t := s.token
		body := strings.TrimPrefix(t, "Bearer ")
		forms := [][2]string{{"missing", ""}, {"empty", "Bearer "}, {"word", "Bearer"}, {"bare", body}, {"lower", "bearer " + body}, {"basic", "Basic " + body},
			{"longer", t + "0"}, {"shorter", t[:len(t)-1]}, {"twice", t + " " + body}, {"random", "Bearer 3b1f52a2-77b5-4d3e-9a5e-0d4f0b6e8b11"}, {"record", "Bearer session-" + body},
			{"spaces", "Bearer  " + body}, {"altered", t[:len(t)-1] + string("0123456789abcdef"[(strings.IndexByte("0123456789abcdef", t[len(t)-1])+1+w.Choose("tok.alt", 15))%16])},
			{"upper", "Bearer " + strings.ToUpper(body)}, {"api", "Bearer " + apiTok}}
		var foreign [][2]string
		for _, o := range all {
			if o.proto != s.proto {
				foreign = append(foreign, [2]string{"of " + o.desc, o.token})
			}
		}
		if len(foreign) > 0 && w.Choose("tok.foreign", 2) == 1 {
			f := foreign[w.Choose("tok.which", len(foreign))]
			return f[0], f[1]
		}
		f := forms[w.Choose("tok.form", len(forms))]
		if f[1] == t {
			return "missing", ""
		}
		return f[0], f[1]
	}
	attempt := func(s *tokSess) {
		cmd, body := s.body()
		url := urlOf[s.proto]
		if w.Choose("wrong.first", 2) == 1 {
			for k := 0; k <= w.Choose("wrong.n", 3); k++ {
				kind, t := badToken(s)
				r := w.rawPost(url, cmd, t, body)
				w.checkRefusal(cmd, "token is "+kind, r)
				w.Eval("token " + cmd + " " + kind)
			}
		}
		if s.proto == "to2" && w.Choose("refused.first", 4) == 3 {
			// a message out of order is refused and does not prolong the session
			c := []string{"62", "64", "70", "68", "66"}[w.Choose("refused.cmd", 5)]
			if c != cmd {
				b := []byte{0x81, 0x18, 0xff}
				r := w.rawPost(url, c, s.token, b)
				w.checkRefusal(c, "message is garbage", r)
			}
		}
		t0 := w.NowMS()
		r := w.rawPost(url, cmd, s.token, body)
		ageMin, ageMax := t0-s.used, w.NowMS()-s.used0
		w.Eval(fmt.Sprintf("age %s %v %d", cmd, ageMax < 599_000, bitLen(uint32(ageMin/1000))))
		switch {
		case ageMax < 599_000 && !r.ok():
			w.Violate("refused-early "+s.desc, "%s: the token was used %d ms ago, message %s was refused: %s", s.desc, ageMax, cmd, r)
			s.dead = true
		case ageMin >= 600_000:
			w.checkRefusal(cmd, fmt.Sprintf("token expired, %d ms since its last use", ageMin), r)
			w.Count("expired_tokens_tried")
			if w.Choose("dead.stays", 3) == 2 {
				if r := w.rawPost(url, cmd, s.token, body); r.ok() {
					w.Violate("accepted "+cmd+" token", "an expired token was honoured at the second attempt")
				}
			}
			s.dead = true
		case r.ok():
			if s.proto == "to2" && cmd != "70" {
				mark(s, t0)
			}
			if !s.after(cmd, r) {
				s.dead = true
				w.Count("sessions_completed")
			}
		default:
			s.dead = true
		}
	}
	n := 4 + w.Choose("rounds", 10)
	for k := 0; k < n && len(w.violations) == 0; k++ {
		var live []*tokSess
		for _, s := range all {
			if !s.dead {
				live = append(live, s)
			}
		}
		var s *tokSess
		w.Go(nil, "step", func() {
			if len(live) == 0 || w.Choose("new", 3) == 2 {
				if s = start(); s != nil {
					all = append(all, s)
				}
				return
			}
			s = live[w.Choose("which", len(live))]
			attempt(s)
		})
		w.Run()
		if w.endErr != "" {
			w.Violate("no-progress", "%s", w.endErr)
			return
		}
		var adv int64
		live = live[:0]
		for _, x := range all {
			if !x.dead {
				live = append(live, x)
			}
		}
		switch w.Choose("advance", 5) {
		case 0:
			adv = int64(w.Choose("adv.ms", 3000))
		case 1:
			adv = int64(w.Choose("adv.s", 700)) * 1000
		case 2, 3:
			if len(live) > 0 {
				x := live[w.Choose("adv.which", len(live))]
				adv = x.used + 600_000 - w.NowMS() + []int64{-3000, -1500, -60_000, -300_000, 0, 300, 1000, 100_000}[w.Choose("adv.near", 8)]
			}
		}
		if adv > 0 {
			w.Advance(time.Duration(adv) * time.Millisecond)
			w.CountN("advanced_s", adv/1000)
		}
		if w.Choose("crash", 5) == 4 {
			nd := []*Node{srv, own}[w.Choose("crash.which", 2)]
			w.Crash(nd)
			w.Restart(nd)
			w.Count("fault.restart")
		}
	}
}

// deviceSims is a complete set of the mandatory entries.
func deviceSims() []fs.ServiceInfoKV { return fs.GetDeviceOSSims() }
