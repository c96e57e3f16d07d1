package fdosim

// The simulated network: the only http.RoundTripper in the process.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"strings"
	"time"
)

// NetProfile is the fault mix of one run; each probability is num/1000 per message.
type NetProfile struct {
	DropReq, DropResp, Dup, Reset, Corrupt, Truncate, LongDelay int
	MaxDelayMS                                                  int
	CorruptResp                                                 int
	Down                                                        map[string]bool // host -> unreachable
	Slow                                                        map[string]time.Duration
	Healed                                                      bool
}

type Msg struct {
	ID         int
	Host, Path string
	Method     string
	Header     http.Header
	Body       []byte
	From       *Task
	FromName   string
	to         *Node
	answered   bool
	respCh     chan netResult
	w          *World
	dupOf      int

	// filled when the reply is produced
	Status     int
	RespHeader http.Header
	RespBody   []byte
	Panic      string
	Replied    bool

	// set by interceptors
	DropRequest bool
	DropReply   bool
	Tampered    string
}

type netResult struct {
	resp *http.Response
	err  error
}

var errReset = errors.New("connection reset by peer")
var errRefused = errors.New("connect: connection refused")
var errEOF = io.EOF

type simTransport struct{ w *World }

func (m *Msg) Cmd() string {
	i := strings.LastIndex(m.Path, "/msg/")
	if i < 0 {
		return m.Path
	}
	return m.Path[i+5:]
}

func (m *Msg) finish(resp *http.Response, err error) {
	if m.respCh == nil {
		return
	}
	select {
	case m.respCh <- netResult{resp, err}:
	default:
	}
}

func filterOpen(ms []*Msg) []*Msg {
	var out []*Msg
	for _, m := range ms {
		if !m.answered {
			out = append(out, m)
		}
	}
	return out
}

func (tr simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	w := tr.w
	t := w.task()
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		req.Body.Close()
		body = b
	}
	w.msgSeq++
	m := &Msg{ID: w.msgSeq, Host: req.URL.Host, Path: req.URL.RequestURI(), Method: req.Method, Header: req.Header.Clone(),
		Body: body, From: t, FromName: t.name, respCh: make(chan netResult, 1), w: w}
	w.inflight++
	defer func() { w.inflight-- }()
	w.park(t, "net.send")
	w.Logf("%s -> %s %s %s len=%d", t.name, m.Host, m.Method, m.Path, len(body))
	if w.OnMsg != nil {
		w.OnMsg(m)
	}
	w.send(m)
	ctx := req.Context()
	var res netResult
	select {
	case res = <-m.respCh:
	case <-ctx.Done():
		res = netResult{nil, ctx.Err()}
	}
	m.respCh = nil
	w.park(t, "net.recv")
	if res.err != nil {
		w.Logf("%s <- %s %s error %v", t.name, m.Host, m.Path, res.err)
		return nil, res.err
	}
	res.resp.Request = req
	if res.resp.Header.Get("X-Sim-Stall") != "" {
		res.resp.Body = io.NopCloser(&stallBody{w: w, t: t, rest: res.resp.Body, done: ctx.Done()})
		res.resp.ContentLength = -1
	}
	return res.resp, nil
}

func (w *World) delay(lo int) time.Duration {
	p := w.Net
	d := lo
	if p.MaxDelayMS > lo {
		d += w.Choose("delay", p.MaxDelayMS-lo)
	}
	if w.faultyNet() && p.LongDelay > 0 && w.Rare("longdelay", p.LongDelay, 1000, 2) == 1 {
		w.Count("fault.net_long_delay")
		d += 2000 + 1000*w.Choose("longdelay.s", 40)
	}
	return time.Duration(d) * time.Millisecond
}

func (w *World) faultyNet() bool { return !w.Net.Healed }

func (w *World) send(m *Msg) {
	if w.Intercept != nil {
		w.Intercept(m)
	}
	if m.DropRequest {
		w.Count("fault.net_drop_request")
		return // the client times out
	}
	p := &w.Net
	faulty := w.faultyNet() && !m.From.noFault
	if p.Down[m.Host] {
		w.Count("fault.net_partition_hit")
		w.Logf("unreachable %s", m.Host)
		if w.Choose("down.mode", 2) == 0 {
			w.At(time.Millisecond, "refused", func() { m.finish(nil, errRefused) })
		}
		return
	}
	n := w.nodes[m.Host]
	if n == nil || !n.up {
		w.At(time.Millisecond, "refused", func() { m.finish(nil, errRefused) })
		return
	}
	if faulty {
		if p.DropReq > 0 && w.Bool("drop", p.DropReq, 1000) {
			w.Count("fault.net_drop_request")
			w.mix("drop")
			w.Logf("drop request %d", m.ID)
			return
		}
		if p.Reset > 0 && w.Bool("reset", p.Reset, 1000) {
			w.Count("fault.net_reset")
			w.mix("reset")
			w.At(w.delay(1), "reset", func() { m.finish(nil, errReset) })
			return
		}
		if p.Dup > 0 && w.Bool("dup", p.Dup, 1000) {
			w.Count("fault.net_duplicate")
			w.mix("dup")
			d := &Msg{ID: m.ID, Host: m.Host, Path: m.Path, Method: m.Method, Header: m.Header.Clone(), Body: append([]byte{}, m.Body...), From: m.From, FromName: m.FromName, w: w, dupOf: m.ID}
			w.Logf("duplicate request %d", m.ID)
			if w.OnDup != nil {
				w.OnDup(m, d)
			}
			w.At(w.delay(1), "deliver-dup "+m.Cmd(), func() { w.deliver(d) })
		}
		if p.Corrupt > 0 && len(m.Body) > 0 && w.Bool("corrupt", p.Corrupt, 1000) {
			w.Count("fault.net_corrupt_request")
			w.mix("corrupt")
			m.Body = w.corrupt(m.Body)
			m.Tampered = "corrupt"
			w.Logf("corrupt request %d", m.ID)
		}
		if p.Truncate > 0 && len(m.Body) > 0 && w.Bool("trunc", p.Truncate, 1000) {
			w.Count("fault.net_truncate_request")
			m.Body = m.Body[:w.Choose("trunc.at", len(m.Body))]
			m.Tampered = "truncate"
			w.Logf("truncate request %d", m.ID)
		}
	}
	w.At(w.delay(1), "deliver "+m.Cmd(), func() { w.deliver(m) })
}

func (w *World) corrupt(b []byte) []byte {
	c := append([]byte{}, b...)
	k := 1 + w.Choose("corrupt.n", 3)
	for i := 0; i < k; i++ {
		p := w.Choose("corrupt.pos", len(c))
		c[p] ^= 1 << w.Choose("corrupt.bit", 8)
	}
	return c
}

// stallBody gives what it has and then nothing more until the reader gives up.
type stallBody struct {
	w    *World
	t    *Task
	rest io.Reader
	done <-chan struct{}
}

func (b *stallBody) Read(p []byte) (int, error) {
	n, err := b.rest.Read(p)
	if n > 0 || err == nil {
		return n, nil
	}
	b.w.Count("fault.net_stalled_reply")
	<-b.done
	b.w.park(b.t, "net.stall")
	return 0, context.DeadlineExceeded
}

type failingBody struct{ err error }

func (f failingBody) Read([]byte) (int, error) { return 0, f.err }

// deliver starts the server's handler for m as a task of the server process.
func (w *World) deliver(m *Msg) {
	n := w.nodes[m.Host]
	if n == nil || !n.up {
		m.finish(nil, errRefused)
		return
	}
	m.to = n
	w.openMsgs = append(w.openMsgs, m)
	h := n.handler
	w.inflight++
	t := w.Go(n, n.Name+"/"+m.Cmd(), func() {
		if d := w.Net.Slow[m.Host]; d > 0 && !w.Net.Healed {
			w.Count("fault.slow_node")
			w.Sleep(d)
		}
		var rd io.Reader = bytes.NewReader(m.Body)
		if m.Tampered == "bodyerr" {
			rd = io.MultiReader(bytes.NewReader(m.Body[:len(m.Body)/2]), failingBody{io.ErrUnexpectedEOF})
		}
		req := httptest.NewRequest(m.Method, "http://"+m.Host+m.Path, rd)
		for k, v := range m.Header {
			req.Header[k] = append([]string{}, v...)
		}
		req.ContentLength = int64(len(m.Body))
		rec := httptest.NewRecorder()
		pan := ""
		crashed := true
		func() {
			defer func() {
				if e := recover(); e != nil {
					pan = fmt.Sprint(e)
					if pan == "<nil>" {
						pan = "nil panic"
					}
					m.Panic = pan + "\n" + panicSite(debug.Stack())
					crashed = false
				}
			}()
			h.ServeHTTP(rec, req)
			crashed = false
		}()
		if crashed {
			return
		}
		m.answered = true
		w.openMsgs = filterOpen(w.openMsgs)
		res := rec.Result()
		m.Status = res.StatusCode
		m.RespHeader = res.Header
		m.RespBody = rec.Body.Bytes()
		m.Replied = m.Panic == ""
		if m.Panic != "" {
			w.Logf("PANIC in %s handling %s: %s", n.Name, m.Path, m.Panic)
		} else {
			w.Logf("%s replies to %s: %d type=%s len=%d", n.Name, m.Cmd(), m.Status, m.RespHeader.Get("Message-Type"), len(m.RespBody))
		}
		w.reply(m)
	})
	t.onExit = func() { w.inflight-- }
	t.noFault = m.From != nil && m.From.noFault
	if m.From != nil {
		t.Tag = m.From.Tag
	}
}

func panicSite(stack []byte) string {
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.Contains(l, "iot-fdo-conformance-tools") && strings.HasPrefix(l, "github.com") || strings.HasPrefix(l, "fdosim/fdomain.") && !strings.Contains(l, "fdomain.Sim") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l[strings.LastIndex(l, "/")+1:]
		}
	}
	return "unknown"
}

func (w *World) reply(m *Msg) {
	if w.OnReply != nil {
		w.OnReply(m)
	}
	if m.respCh == nil {
		return
	}
	if m.Panic != "" {
		w.At(w.delay(1), "eof", func() { m.finish(nil, errEOF) })
		return
	}
	if m.DropReply {
		w.Count("fault.net_drop_reply")
		return
	}
	p := &w.Net
	body := append([]byte{}, m.RespBody...)
	if w.InterceptReply != nil {
		body = w.InterceptReply(m, body)
		if body == nil && m.DropReply {
			return
		}
	}
	if w.faultyNet() && !m.From.noFault {
		if p.DropResp > 0 && w.Bool("dropresp", p.DropResp, 1000) {
			w.Count("fault.net_drop_reply")
			w.mix("dropresp")
			w.Logf("drop reply to %d", m.ID)
			return
		}
		if p.CorruptResp > 0 && len(body) > 0 && w.Bool("corruptresp", p.CorruptResp, 1000) {
			w.Count("fault.net_corrupt_reply")
			w.mix("corruptresp")
			body = w.corrupt(body)
			w.Logf("corrupt reply to %d", m.ID)
		}
	}
	resp := &http.Response{Status: http.StatusText(m.Status), StatusCode: m.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: m.RespHeader.Clone(), Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}
	w.At(w.delay(1), "reply "+m.Cmd(), func() { m.finish(resp, nil) })
}
