package fdosim

// An independent CBOR reader/writer used to alter messages structurally, and
// a recorder of traffic for replays and splices.

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

type cnode struct {
	major  byte
	val    uint64 // ints, simple values, tag number
	data   []byte // byte and text strings
	kids   []*cnode
	inner  *cnode // decoded content of a byte string that is itself CBOR
	raw    []byte // floats and simple values, verbatim
	parent *cnode
	path   string
}

func parseCbor(b []byte) (*cnode, []byte, bool) { return parseCborD(b, 0) }

func parseCborD(b []byte, depth int) (*cnode, []byte, bool) {
	if len(b) == 0 || depth > 24 {
		return nil, nil, false
	}
	n := &cnode{major: b[0] >> 5}
	ai := b[0] & 31
	head := 1
	switch {
	case ai < 24:
		n.val = uint64(ai)
	case ai == 24 && len(b) >= 2:
		n.val, head = uint64(b[1]), 2
	case ai == 25 && len(b) >= 3:
		n.val, head = uint64(binary.BigEndian.Uint16(b[1:])), 3
	case ai == 26 && len(b) >= 5:
		n.val, head = uint64(binary.BigEndian.Uint32(b[1:])), 5
	case ai == 27 && len(b) >= 9:
		n.val, head = binary.BigEndian.Uint64(b[1:]), 9
	default:
		return nil, nil, false
	}
	rest := b[head:]
	switch n.major {
	case 0, 1:
	case 2, 3:
		if uint64(len(rest)) < n.val {
			return nil, nil, false
		}
		n.data = append([]byte{}, rest[:n.val]...)
		rest = rest[n.val:]
		if n.major == 2 && len(n.data) > 1 {
			if in, left, ok := parseCborD(n.data, depth+1); ok && len(left) == 0 && (in.major >= 4 && in.major <= 6) {
				n.inner = in
				in.parent = n
			}
		}
	case 4, 5, 6:
		cnt := n.val
		if n.major == 5 {
			cnt *= 2
		}
		if n.major == 6 {
			cnt = 1
		}
		if cnt > uint64(len(rest)) {
			return nil, nil, false
		}
		for i := uint64(0); i < cnt; i++ {
			k, r, ok := parseCborD(rest, depth+1)
			if !ok {
				return nil, nil, false
			}
			k.parent = n
			n.kids = append(n.kids, k)
			rest = r
		}
	case 7:
		n.raw = append([]byte{}, b[:head]...)
	}
	return n, rest, true
}

func cborHead(major byte, v uint64) []byte {
	m := major << 5
	switch {
	case v < 24:
		return []byte{m | byte(v)}
	case v < 1<<8:
		return []byte{m | 24, byte(v)}
	case v < 1<<16:
		return binary.BigEndian.AppendUint16([]byte{m | 25}, uint16(v))
	case v < 1<<32:
		return binary.BigEndian.AppendUint32([]byte{m | 26}, uint32(v))
	}
	return binary.BigEndian.AppendUint64([]byte{m | 27}, v)
}

func (n *cnode) enc() []byte {
	switch n.major {
	case 0, 1:
		return cborHead(n.major, n.val)
	case 2, 3:
		d := n.data
		if n.inner != nil {
			d = n.inner.enc()
		}
		return append(cborHead(n.major, uint64(len(d))), d...)
	case 4, 5:
		c := uint64(len(n.kids))
		if n.major == 5 {
			c /= 2
		}
		o := cborHead(n.major, c)
		for _, k := range n.kids {
			o = append(o, k.enc()...)
		}
		return o
	case 6:
		return append(cborHead(6, n.val), n.kids[0].enc()...)
	}
	return n.raw
}

func (n *cnode) label(path string, out *[]*cnode) {
	n.path = path
	*out = append(*out, n)
	if n.inner != nil {
		n.inner.label(path+"<>", out)
	}
	for i, k := range n.kids {
		p := fmt.Sprintf("%s.%d", path, i)
		if n.major == 5 {
			if i%2 == 0 {
				p = fmt.Sprintf("%s.k%d", path, i/2)
			} else {
				p = fmt.Sprintf("%s.v%d", path, i/2)
			}
		}
		k.label(p, out)
	}
}

func (n *cnode) all() []*cnode {
	var o []*cnode
	n.label("$", &o)
	return o
}

// at follows a path of child indexes; -1 enters an embedded byte string.
func (n *cnode) at(ix ...int) *cnode {
	for _, i := range ix {
		if n == nil {
			return nil
		}
		if i == -1 {
			n = n.inner
			continue
		}
		if n.major == 6 {
			n = n.kids[0]
		}
		if i >= len(n.kids) {
			return nil
		}
		n = n.kids[i]
	}
	return n
}

// mutateNode alters one node in place; returns what was done.
func (w *World) mutateNode(n *cnode) string {
	k := w.Choose("mut.kind", 6)
	desc := ""
	switch n.major {
	case 0, 1:
		switch k {
		case 0:
			n.val++
			desc = "int+1"
		case 1:
			n.major ^= 1
			desc = "negate"
		case 2:
			n.val ^= 1 << w.Choose("mut.bit", 40)
			desc = "intbit"
		case 3:
			*n = cnode{major: 7, raw: []byte{0xf6}}
			desc = "null"
		case 4:
			*n = cnode{major: 2, data: []byte{1, 2, 3}}
			desc = "int->bytes"
		default:
			n.val = n.val*256 + 255
			desc = "intbig"
		}
	case 2, 3:
		if n.inner != nil {
			n.data = n.inner.enc()
			n.inner = nil
		}
		switch {
		case k == 0 && len(n.data) > 0:
			n.data[w.Choose("mut.pos", len(n.data))] ^= 1 << w.Choose("mut.bit", 8)
			desc = "bit"
		case k == 1 && len(n.data) > 0:
			n.data = n.data[:len(n.data)-1]
			desc = "shorter"
		case k == 2:
			n.data = append(n.data, byte(w.Choose("mut.byte", 256)))
			desc = "longer"
		case k == 3 && len(n.data) > 0:
			n.data = nil
			desc = "empty"
		case k == 4 && len(n.data) > 0:
			for i := range n.data {
				n.data[i] = byte(w.Choose("mut.fill", 256))
			}
			n.data[0] ^= 0x5a
			desc = "refill"
		default:
			*n = cnode{major: 7, raw: []byte{0xf6}}
			desc = "null"
		}
	case 4, 5:
		switch {
		case k == 0 && len(n.kids) > 0:
			i := w.Choose("mut.elem", len(n.kids))
			if n.major == 5 {
				i &^= 1
				n.kids = append(append([]*cnode{}, n.kids[:i]...), n.kids[i+2:]...)
			} else {
				n.kids = append(append([]*cnode{}, n.kids[:i]...), n.kids[i+1:]...)
			}
			desc = "drop-elem"
		case k == 1 && len(n.kids) > 1 && n.major == 4:
			i := w.Choose("mut.elem", len(n.kids)-1)
			if bytes.Equal(n.kids[i].enc(), n.kids[i+1].enc()) {
				n.kids = n.kids[:i]
				desc = "cut"
			} else {
				n.kids[i], n.kids[i+1] = n.kids[i+1], n.kids[i]
				desc = "swap"
			}
		case k == 2 && len(n.kids) > 0 && n.major == 4:
			n.kids = append(n.kids, n.kids[w.Choose("mut.elem", len(n.kids))])
			desc = "dup-elem"
		case k == 3 && len(n.kids) > 0:
			n.kids = nil
			desc = "clear"
		default:
			*n = cnode{major: 7, raw: []byte{0xf6}}
			desc = "null"
		}
	case 6:
		n.val++
		desc = "tag"
	default:
		*n = cnode{major: 0, val: uint64(w.Choose("mut.int", 300))}
		desc = "simple->int"
	}
	return desc
}

// mutateCbor alters one node of b, chosen among those keep admits.
func (w *World) mutateCbor(b []byte, keep func(n *cnode) bool) ([]byte, string) {
	root, rest, ok := parseCbor(b)
	if !ok || len(rest) != 0 {
		if len(b) == 0 {
			return []byte{0}, "empty->byte"
		}
		c := append([]byte{}, b...)
		c[w.Choose("mut.pos", len(c))] ^= 1 << w.Choose("mut.bit", 8)
		return c, "rawbit"
	}
	var cands []*cnode
	for _, n := range root.all() {
		if n.parent == nil && n.major == 6 {
			continue // the COSE tag itself carries nothing
		}
		if keep == nil || keep(n) {
			cands = append(cands, n)
		}
	}
	if len(cands) == 0 {
		return append([]byte{}, b...), "none"
	}
	n := cands[w.Choose("mut.node", len(cands))]
	path := n.path
	d := w.mutateNode(n)
	out := root.enc()
	return out, path + " " + d
}

// ------------------------------------------------------------ traffic record

type recMsg struct {
	From, Cmd string
	Host      string
	Req       []byte
	Reply     []byte
	Status    int
	Auth      string // token sent
	NewAuth   string // token issued
	AtMS      int64
	ID        int
	Seq       int
}

type Recorder struct {
	Msgs []*recMsg
}

// Record keeps every exchange that got a reply.
func (w *World) Record() *Recorder {
	r := &Recorder{}
	prev := w.OnReply
	w.OnReply = func(m *Msg) {
		if m.Replied {
			r.Msgs = append(r.Msgs, &recMsg{From: m.FromName, Cmd: m.Cmd(), Host: m.Host, Req: m.Body, Reply: append([]byte{}, m.RespBody...),
				Status: m.Status, Auth: m.Header.Get("Authorization"), NewAuth: m.RespHeader.Get("Authorization"), AtMS: w.NowMS(), ID: m.ID, Seq: len(r.Msgs)})
		}
		if prev != nil {
			prev(m)
		}
	}
	return r
}

func (r *Recorder) find(cmd string, ok func(*recMsg) bool) []*recMsg {
	var o []*recMsg
	for _, m := range r.Msgs {
		if m.Cmd == cmd && (ok == nil || ok(m)) {
			o = append(o, m)
		}
	}
	return o
}

func hx(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}
