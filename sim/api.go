package fdosim

// A client of the test management interface, written from its routes.

import (
	"archive/zip"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	fdodev "github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
)

const onpremUser = "tester@fido.local"

type apiReply struct{ rawReply }

// refused: an answer that says no.
func (r apiReply) refused() bool { return r.Err == nil && r.Status >= 400 }

func (r apiReply) String() string {
	if r.Err != nil {
		return "no reply: " + r.Err.Error()
	}
	b := string(r.Body)
	if len(b) > 120 {
		b = b[:120] + "..."
	}
	return fmt.Sprintf("%d %s", r.Status, b)
}

type apiCall struct {
	Method, Path, CT string
	Body             []byte
}

func (c apiCall) String() string { return c.Method + " " + c.Path }

func jsonBody(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func apiPost(path string, v interface{}) apiCall {
	return apiCall{Method: "POST", Path: path, CT: "application/json", Body: jsonBody(v)}
}
func apiGet(path string) apiCall { return apiCall{Method: "GET", Path: path, CT: "-"} }
func apiDel(path string) apiCall { return apiCall{Method: "DELETE", Path: path, CT: "-"} }

func (w *World) api(base, cookie string, c apiCall) apiReply {
	q := rawReq{Method: c.Method, CT: c.CT, Patience: 5 * time.Minute}
	if strings.HasSuffix(c.Path, "/execute") {
		q.Patience = 3 * time.Hour // a whole run
	}
	if cookie != "" {
		q.Head = map[string]string{"Cookie": cookie}
	}
	r := apiReply{w.rawSend(base+c.Path, q, c.Body)}
	w.Count("api." + c.Method + " " + apiKind(c.Path))
	return r
}

// apiKind is the route of a path.
func apiKind(p string) string {
	f := strings.Split(strings.Trim(p, "/"), "/")
	if len(f) > 3 {
		f = f[:3]
	}
	return strings.Join(f, "/")
}

// cookieOf takes the session out of a login reply.
func (r apiReply) session() string {
	for _, c := range r.Head.Values("Set-Cookie") {
		if strings.HasPrefix(c, "session=") {
			return strings.SplitN(strings.TrimPrefix(c, "session="), ";", 2)[0]
		}
	}
	return ""
}

// ------------------------------------------------------------ lists

type apiRun struct {
	Uuid      string          `json:"uuid"`
	Timestamp int64           `json:"timestamp"`
	Tests     json.RawMessage `json:"tests"`
	Protocol  int             `json:"protocol"`
	Completed bool            `json:"completed"`
}

type apiInst struct {
	Id         string   `json:"id"`
	Runs       []apiRun `json:"runs"`
	InProgress bool     `json:"inprogress"`
	Protocol   int      `json:"protocol"`
}

type apiEntry struct {
	Kind string
	Id   string
	Name string // URL or name
	Guid string
	Inst map[int]*apiInst // protocol -> runs
}

func (e *apiEntry) text() string {
	s := fmt.Sprintf("%s %s %q %s", e.Kind, e.Id, e.Name, e.Guid)
	for p := 0; p < 3; p++ {
		if i := e.Inst[p]; i != nil {
			s += fmt.Sprintf(" TO%d %s[", p, i.Id)
			for _, r := range i.Runs {
				s += r.Uuid + " "
			}
			s += "]"
		}
	}
	return s
}

var apiKinds = []string{"rvt", "dot", "device"}

// parseList reads the reply of a list call.
func parseList(kind string, r apiReply) ([]*apiEntry, error) {
	if !r.ok() {
		return nil, fmt.Errorf("%s", r)
	}
	var raw struct {
		Status  string `json:"status"`
		Entries []struct {
			Id   string          `json:"id"`
			Url  string          `json:"url"`
			Name string          `json:"name"`
			Guid string          `json:"guid"`
			To0  json.RawMessage `json:"to0"`
			To1  json.RawMessage `json:"to1"`
			To2  json.RawMessage `json:"to2"`
		} `json:"entries"`
	}
	if err := json.Unmarshal(r.Body, &raw); err != nil {
		return nil, fmt.Errorf("list does not decode: %w", err)
	}
	if raw.Status != "ok" {
		return nil, fmt.Errorf("list status %q", raw.Status)
	}
	var out []*apiEntry
	for _, x := range raw.Entries {
		e := &apiEntry{Kind: kind, Id: x.Id, Name: x.Url, Guid: x.Guid, Inst: map[int]*apiInst{}}
		if kind == "device" {
			e.Name = x.Name
		}
		for p, j := range []json.RawMessage{x.To0, x.To1, x.To2} {
			if len(j) == 0 {
				continue
			}
			i := &apiInst{}
			var err error
			if kind == "device" {
				i.Id, i.Protocol = x.Id, p
				err = json.Unmarshal(j, &i.Runs)
			} else {
				err = json.Unmarshal(j, i)
			}
			if err != nil {
				return nil, fmt.Errorf("list entry does not decode: %w", err)
			}
			e.Inst[p] = i
		}
		out = append(out, e)
	}
	return out, nil
}

func (w *World) list(base, cookie, kind string) ([]*apiEntry, apiReply, error) {
	r := w.api(base, cookie, apiGet("/api/"+kind+"/testruns"))
	l, err := parseList(kind, r)
	return l, r, err
}

// zipVouchers reads a voucher download.
func zipVouchers(r apiReply) (map[string]string, error) {
	z, err := zip.NewReader(bytes.NewReader(r.Body), int64(len(r.Body)))
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, f := range z.File {
		rd, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(rd)
		if err != nil {
			return nil, err
		}
		out[f.Name] = string(b)
	}
	return out, nil
}

func voucherPem(d *Dev) string {
	b, err := fdodev.MarshalVoucherAndPrivateKey(d.VDB)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// ------------------------------------------------------------ database

// seedTools makes a database that looks seeded, with per credentials of each device key type.
func (w *World) seedTools(st *Storage, per int) fs.FdoSeedIDs {
	ids := fs.FdoSeedIDs{}
	recs := map[string]string{}
	for i := 0; len(ids[devSgs[0]]) < per || len(ids[devSgs[1]]) < per; i++ {
		c := cloneCred(pool.Creds[i%len(pool.Creds)])
		sg := c.DCSigInfo.SgType
		if len(ids[sg]) >= per {
			continue
		}
		if i >= len(pool.Creds) {
			copy(c.DCGuid[:], fs.NewRandomBuffer(16))
		}
		ids[sg] = append(ids[sg], c.DCGuid)
		recs["devbasecreds-"+string(c.DCGuid[:])] = string(mustCbor(c))
	}
	recs["config-main"] = string(mustCbor(dbs.MainConfig{SeededGuids: ids}))
	st.Put(recs)
	return ids
}

// userRecord reads a user's record without disturbing the run.
func userRecord(st *Storage, email string) (*dbs.UserTestDBEntry, bool) {
	rec, ok := st.Dump()["usere-"+strings.ToLower(email)]
	if !ok {
		return nil, false
	}
	var u dbs.UserTestDBEntry
	if err := fs.CborCust.Unmarshal([]byte(rec), &u); err != nil {
		return nil, false
	}
	return &u, true
}

// dumpDiff names the first record that differs; keys with one of the prefixes may differ.
func dumpDiff(a, b map[string]string, free ...string) string {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		skip := false
		for _, f := range free {
			if strings.HasPrefix(k, f) {
				skip = true
			}
		}
		if skip || a[k] == b[k] {
			continue
		}
		name := k
		for _, p := range []string{"rvte-", "lstdb-guid-map-", "lstdb-", "voucher-", "devbasecreds-"} {
			if strings.HasPrefix(k, p) {
				name = p + hex.EncodeToString([]byte(k[len(p):]))
				break
			}
		}
		_, ina := a[k]
		_, inb := b[k]
		switch {
		case !ina:
			return name + " appeared"
		case !inb:
			return name + " disappeared"
		}
		return name + " changed"
	}
	return ""
}
