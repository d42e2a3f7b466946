package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"thrift"
	"time"
)

func init() {
	checks["C32"] = checkDef{"model_checking", runC32}
}

// ---- the model: what a transport reads from and writes to

type byteQ struct {
	b   []byte
	tok *int // the buffered reader that reads it
}

type modelT interface {
	write(b []byte) bool
	flush() bool
	take(n int) ([]byte, bool) // n bytes or failure
}

type mQueue struct{ q *byteQ }

func (m mQueue) write(b []byte) bool { m.q.b = append(m.q.b, b...); return true }
func (m mQueue) flush() bool         { return true }
func (m mQueue) take(n int) ([]byte, bool) {
	if len(m.q.b) < n {
		m.q.b = nil
		return nil, false
	}
	r := m.q.b[:n]
	m.q.b = m.q.b[n:]
	return r, true
}

// mStream reads from one queue and writes to another through a buffer that
// every transport over the same writer shares.
type mStream struct {
	in, out *byteQ
	pend    *byteQ // nil: not buffered
	tok     *int   // identity of the read buffer, nil: not buffered
}

// unspecified ends a sequence whose outcome nothing prescribes.
type unspecified struct{}

func (m mStream) write(b []byte) bool {
	if m.out == nil {
		return false
	}
	if m.pend == nil {
		m.out.b = append(m.out.b, b...)
	} else {
		m.pend.b = append(m.pend.b, b...)
	}
	return true
}
func (m mStream) flush() bool {
	if m.out == nil {
		return false
	}
	if m.pend != nil {
		m.out.b = append(m.out.b, m.pend.b...)
		m.pend.b = nil
	}
	return true
}
func (m mStream) take(n int) ([]byte, bool) {
	if m.in == nil {
		return nil, false
	}
	if m.tok != nil {
		// two read buffers over one reader: who gets what depends on their size
		if m.in.tok == nil {
			m.in.tok = m.tok
		} else if m.in.tok != m.tok {
			panic(unspecified{})
		}
	}
	return mQueue{m.in}.take(n)
}

type mFramed struct {
	in        modelT
	pend, got *byteQ
}

func (m mFramed) write(b []byte) bool { m.pend.b = append(m.pend.b, b...); return true }
func (m mFramed) flush() bool {
	f := frame(m.pend.b)
	m.pend.b = nil
	return m.in.write(f) && m.in.flush()
}
func (m mFramed) take(n int) ([]byte, bool) {
	var r []byte
	for len(r) < n {
		for len(m.got.b) == 0 {
			h, ok := m.in.take(4)
			if !ok {
				return nil, false
			}
			sz := int(h[0])<<24 | int(h[1])<<16 | int(h[2])<<8 | int(h[3])
			if sz < 0 || sz > 1<<20 {
				return nil, false
			}
			b, ok := m.in.take(sz)
			if !ok {
				return nil, false
			}
			m.got.b = append([]byte(nil), b...)
		}
		k := min(n-len(r), len(m.got.b))
		r = append(r, m.got.b[:k]...)
		m.got.b = m.got.b[k:]
	}
	return r, true
}

// ---- real ends

// qio is a reader and writer over one queue.
type qio struct {
	q *byteQ
}

func (x *qio) Read(b []byte) (int, error) {
	if len(x.q.b) == 0 {
		return 0, io.EOF
	}
	n := copy(b, x.q.b)
	x.q.b = x.q.b[n:]
	return n, nil
}
func (x *qio) Write(b []byte) (int, error) {
	x.q.b = append(x.q.b, b...)
	return len(b), nil
}

type rOnly struct{ x *qio }

func (r rOnly) Read(b []byte) (int, error) { return r.x.Read(b) }

type wOnly struct{ x *qio }

func (w wOnly) Write(b []byte) (int, error) { return w.x.Write(b) }

// world holds the real queues and, in step with them, the model's.
type world struct {
	real, mod []*byteQ
}

func (w *world) queue() (*byteQ, *byteQ) {
	a, b := &byteQ{}, &byteQ{}
	w.real, w.mod = append(w.real, a), append(w.mod, b)
	return a, b
}

// dual is a real transport with its model.
type dual struct {
	t     thrift.TTransport
	m     modelT
	kind  string // x, memory, stream, framed
	in    *byteQ // model queues of a stream
	out   *byteQ
	pend  *byteQ
	tok   *int
	rw    bool
	ended bool // its streams are gone
}

type baseKind struct {
	name string
	mk   func(w *world) *dual
}

func xBase(w *world) *dual {
	q, m := w.queue()
	return &dual{t: &queueT{q: q}, m: mQueue{m}, kind: "x"}
}

// queueT is a transport of a kind the library does not know.
type queueT struct{ q *byteQ }

func (x *queueT) IsOpen() bool { return true }
func (x *queueT) Open() error  { return nil }
func (x *queueT) Close() error { return nil }
func (x *queueT) Peek() bool   { return true }
func (x *queueT) Flush() error { return nil }
func (x *queueT) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	return (&qio{x.q}).Read(b)
}
func (x *queueT) ReadAll(b []byte) (int, error) { return io.ReadFull(x, b) }
func (x *queueT) Write(b []byte) (int, error)   { return (&qio{x.q}).Write(b) }

func streamDual(w *world, r, wr, rw, closed bool) *dual {
	d := &dual{kind: "stream", rw: rw}
	var t *thrift.TIOStreamTransport
	switch {
	case rw:
		q, m := w.queue()
		t = thrift.NewTIOStreamTransportRW(&qio{q})
		d.in, d.out = m, m
	case r && wr:
		q, m := w.queue()
		q2, m2 := w.queue()
		t = thrift.NewTIOStreamTransportRAndW(rOnly{&qio{q}}, wOnly{&qio{q2}})
		d.in, d.out, d.pend = m, m2, &byteQ{}
	case r:
		q, m := w.queue()
		t = thrift.NewTIOStreamTransportR(rOnly{&qio{q}})
		d.in = m
	case wr:
		q, m := w.queue()
		t = thrift.NewTIOStreamTransportW(wOnly{&qio{q}})
		d.out, d.pend = m, &byteQ{}
	default:
		t = thrift.NewTIOStreamTransportDefault()
	}
	if !rw {
		d.tok = new(int)
	}
	if closed {
		t.Close()
		d.in, d.out, d.pend = nil, nil, nil
	}
	d.t, d.m = t, mStream{d.in, d.out, d.pend, d.tok}
	return d
}

var baseKinds = []baseKind{
	{"nil", func(w *world) *dual { return nil }},
	{"x", xBase},
	{"memory", func(w *world) *dual {
		_, m := w.queue()
		return &dual{t: thrift.NewTMemoryBuffer(), m: mQueue{m}, kind: "memory"}
	}},
	{"memory-8", func(w *world) *dual {
		_, m := w.queue()
		return &dual{t: thrift.NewTMemoryBufferLen(8), m: mQueue{m}, kind: "memory"}
	}},
	{"memory-made", func(w *world) *dual {
		_, m := w.queue()
		return &dual{t: thrift.NewTMemoryBufferTransportFactory(3).GetTransport(nil), m: mQueue{m}, kind: "memory"}
	}},
	{"stream-none", func(w *world) *dual { return streamDual(w, false, false, false, false) }},
	{"stream-r", func(w *world) *dual { return streamDual(w, true, false, false, false) }},
	{"stream-w", func(w *world) *dual { return streamDual(w, false, true, false, false) }},
	{"stream-randw", func(w *world) *dual { return streamDual(w, true, true, false, false) }},
	{"stream-rw", func(w *world) *dual { return streamDual(w, false, false, true, false) }},
	{"stream-randw-closed", func(w *world) *dual { return streamDual(w, true, true, false, true) }},
	{"stream-rw-closed", func(w *world) *dual { return streamDual(w, false, false, true, true) }},
	{"framed", func(w *world) *dual {
		x := xBase(w)
		return &dual{t: thrift.NewTFramedTransport(x.t), m: mFramed{x.m, &byteQ{}, &byteQ{}}, kind: "framed"}
	}},
}

// facKind is a factory with its model: what it makes of a base.
type facKind struct {
	name string
	mk   func(w *world) (thrift.TTransportFactory, func(base *dual) *dual)
}

func plainFac(w *world) (thrift.TTransportFactory, func(base *dual) *dual) {
	return thrift.NewTTransportFactory(), func(base *dual) *dual { return base }
}

func memFac(n int) func(w *world) (thrift.TTransportFactory, func(base *dual) *dual) {
	return func(w *world) (thrift.TTransportFactory, func(base *dual) *dual) {
		return thrift.NewTMemoryBufferTransportFactory(n), func(base *dual) *dual {
			return &dual{m: mQueue{&byteQ{}}, kind: "memory"}
		}
	}
}

func streamFac(r, wr, rw bool) func(w *world) (thrift.TTransportFactory, func(base *dual) *dual) {
	return func(w *world) (thrift.TTransportFactory, func(base *dual) *dual) {
		var rd io.Reader
		var wt io.Writer
		d := dual{kind: "stream", rw: rw}
		if rw {
			q, m := w.queue()
			x := &qio{q}
			rd, wt = x, x
			d.in, d.out = m, m
		} else {
			if r {
				q, m := w.queue()
				rd, d.in = rOnly{&qio{q}}, m
			}
			if wr {
				q, m := w.queue()
				wt, d.out = wOnly{&qio{q}}, m
			}
		}
		return thrift.NewTIOStreamTransportFactory(rd, wt, rw), func(base *dual) *dual {
			if base != nil && base.kind == "stream" {
				n := *base
				n.m = mStream{n.in, n.out, n.pend, n.tok}
				return &n
			}
			n := d
			if n.out != nil && !rw {
				n.pend = &byteQ{}
			}
			if !rw {
				n.tok = new(int)
			}
			n.m = mStream{n.in, n.out, n.pend, n.tok}
			return &n
		}
	}
}

// askedFac is a factory of the user that notes what it is asked for.
type askedFac struct {
	inner thrift.TTransportFactory
	asked []thrift.TTransport
	gave  []thrift.TTransport
}

func (a *askedFac) GetTransport(t thrift.TTransport) thrift.TTransport {
	r := a.inner.GetTransport(t)
	a.asked, a.gave = append(a.asked, t), append(a.gave, r)
	return r
}

func framedFac(inner func(w *world) (thrift.TTransportFactory, func(base *dual) *dual)) func(w *world) (thrift.TTransportFactory, func(base *dual) *dual) {
	return func(w *world) (thrift.TTransportFactory, func(base *dual) *dual) {
		f, g := inner(w)
		a := &askedFac{inner: f}
		return thrift.NewTFramedTransportFactory(a), func(base *dual) *dual {
			var bt thrift.TTransport
			if base != nil {
				bt = base.t
			}
			mustTrue(len(a.asked) == 1 && a.asked[0] == bt, "asked", "the framed factory asked its factory %d times, not once with the base", len(a.asked))
			a.asked = nil
			in := g(base)
			if in == nil {
				return nil
			}
			return &dual{m: mFramed{in.m, &byteQ{}, &byteQ{}}, kind: "framed"}
		}
	}
}

var facKinds = []facKind{
	{"plain", plainFac},
	{"memory-0", memFac(0)},
	{"memory-5", memFac(5)},
	{"stream-none", streamFac(false, false, false)},
	{"stream-r", streamFac(true, false, false)},
	{"stream-w", streamFac(false, true, false)},
	{"stream-randw", streamFac(true, true, false)},
	{"stream-rw", streamFac(false, false, true)},
	{"framed-plain", framedFac(plainFac)},
	{"framed-memory", framedFac(memFac(5))},
	{"framed-rw", framedFac(streamFac(false, false, true))},
	{"framed-framed", framedFac(framedFac(plainFac))},
}

func runC32(c *Ctx) {
	c.Rule("transport factories: every factory, and every factory over what another made, for every base, then every sequence up to the depth of write, flush and read on the base and on two transports made, in lockstep with a model of byte queues, buffers and frames")
	c.Rule("protocol factories: every factory, strictness and transport, every order of two exchanges on two protocols made")
	c.Rule("servers: every constructor of both servers, the factories asked and the accessors compared; socket factories with every base over real sockets")
	opNames := []string{"write0", "flush0", "read0", "write1", "flush1", "read1", "write2", "flush2", "read2"}
	nf, nb := len(facKinds), len(baseKinds)
	type combo struct{ f1, f2, b int }
	var combos []combo
	for b := 0; b < nb; b++ {
		for f := 0; f < nf; f++ {
			combos = append(combos, combo{f, -1, b})
			for g := 0; g < nf; g++ {
				combos = append(combos, combo{f, g, b})
			}
		}
	}
	depth := c.Pick(4, 5)
	c.Par("transports", len(combos), func(i int) string {
		k := combos[i]
		s := baseKinds[k.b].name + " " + facKinds[k.f1].name
		if k.f2 >= 0 {
			s += " " + facKinds[k.f2].name
		}
		return s
	}, func(t *T, i int) {
		k := combos[i]
		seq := make([]int, depth)
		bad := 0
		d := depth
		if k.f2 >= 0 {
			d = depth - 1
		}
		for {
			n := len(opNames)
			t.Try(fmt.Sprint(seqNames(opNames, seq[:d])), func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unspecified); ok {
							return
						}
						bad++
						panic(r)
					}
				}()
				facSeq(t, k.b, k.f1, k.f2, seq[:d])
			})
			t.Trace()
			t.Ops(d)
			if bad > 10 {
				break
			}
			j := d - 1
			for j >= 0 && seq[j] == n-1 {
				seq[j] = 0
				j--
			}
			if j < 0 {
				break
			}
			seq[j]++
		}
	})
	facProtocols(c)
	facServers(c)
	facSockets(c)
}

func seqNames(names []string, seq []int) []string {
	var s []string
	for _, o := range seq {
		s = append(s, names[o])
	}
	return s
}

// facSeq makes two transports of a base by a factory (the second, where there
// are two factories, by the second one from the first transport) and runs the
// operations on the three.
func facSeq(t *T, b, f1, f2 int, seq []int) {
	w := &world{}
	base := baseKinds[b].mk(w)
	var bt thrift.TTransport
	if base != nil {
		bt = base.t
	}
	made := [3]*dual{base, nil, nil}
	fac, model := facKinds[f1].mk(w)
	get := func(f thrift.TTransportFactory, model func(*dual) *dual, from *dual) *dual {
		var ft thrift.TTransport
		if from != nil {
			ft = from.t
		}
		r := f.GetTransport(ft)
		m := model(from)
		if m == nil {
			return nil
		}
		if m == from {
			mustTrue(r == ft, "plain", "the plain factory gave %T, not the transport it was given", r)
			return from
		}
		mustTrue(r != nil, "nil", "the factory gave no transport")
		n := *m
		n.t = r
		return &n
	}
	made[1] = get(fac, model, base)
	if f2 < 0 {
		made[2] = get(fac, model, base)
	} else {
		fac2, model2 := facKinds[f2].mk(w)
		made[2] = get(fac2, model2, made[1])
	}
	_ = bt
	for i, d := range made {
		if d == nil {
			continue
		}
		want := "*thrift.TFramedTransport"
		switch d.kind {
		case "memory":
			want = "*thrift.TMemoryBuffer"
		case "stream":
			want = "*thrift.TIOStreamTransport"
		case "x":
			continue
		}
		mustTrue(fmt.Sprintf("%T", d.t) == want, "kind", "transport %d is a %T", i, d.t)
		for j, e := range made[:i] {
			if e != nil && d != e {
				mustTrue(d.t != e.t, "shared", "transports %d and %d are the same", i, j)
			}
		}
	}
	var st stamp
	// something to read everywhere
	for i := range w.real {
		p := st.next(3)
		p = append(frame(p), frame(st.next(4))...)
		p = append(p, frame(append(frame(st.next(2)), frame(st.next(5))...))...)
		w.real[i].b = append([]byte(nil), p...)
		w.mod[i].b = append([]byte(nil), p...)
	}
	if base != nil && base.kind == "memory" {
		p := frame(st.next(3))
		if n, err := base.t.Write(p); n != len(p) || err != nil {
			panic(failure{"memory", fmt.Sprintf("writing to a memory buffer: %d, %v", n, err)})
		}
		w.mod[0].b = append([]byte(nil), p...)
		w.real[0].b = nil
	}
	for _, o := range seq {
		d := made[o/3]
		if d == nil {
			return
		}
		switch o % 3 {
		case 0:
			p := st.next(3)
			ok := d.m.write(p)
			n, err := d.t.Write(append([]byte(nil), p...))
			mustTrue((err == nil) == ok, "write", "writing to transport %d (%T): %v", o/3, d.t, err)
			if !ok {
				return
			}
			mustTrue(n == 3, "write", "writing 3 bytes to transport %d (%T) wrote %d", o/3, d.t, n)
		case 1:
			ok := d.m.flush()
			err := d.t.Flush()
			mustTrue((err == nil) == ok, "flush", "flushing transport %d (%T): %v", o/3, d.t, err)
			if !ok {
				return
			}
		case 2:
			want, ok := d.m.take(2)
			var p [2]byte
			n, err := d.t.ReadAll(p[:])
			mustTrue((err == nil) == ok, "read", "reading from transport %d (%T): %v", o/3, d.t, err)
			if !ok {
				return
			}
			mustTrue(n == 2 && bytes.Equal(p[:], want), "read", "transport %d (%T) gave %x, want %x", o/3, d.t, p[:n], want)
		}
		h := 0
		for i := range w.mod {
			h = h*31 + len(w.mod[i].b)
		}
		t.State(hInts(b, f1, f2, h))
	}
	// what was written is where it belongs: buffered readers may have taken
	// what they have not given yet
	for i := range w.real {
		if i == 0 && base != nil && base.kind == "memory" {
			continue
		}
		a, m := w.real[i].b, w.mod[i].b
		mustTrue(bytes.HasSuffix(m, a), "bytes", "queue %d holds %x, want %x", i, a, m)
	}
	// drain
	for i := len(made) - 1; i >= 0; i-- {
		d := made[i]
		if d == nil {
			continue
		}
		for n := 0; n < 100; n++ {
			want, ok := d.m.take(1)
			var p [1]byte
			_, err := d.t.ReadAll(p[:])
			mustTrue((err == nil) == ok, "drain", "draining transport %d (%T): %v, want data: %v", i, d.t, err, ok)
			if !ok {
				break
			}
			mustTrue(p[0] == want[0], "drain", "transport %d (%T) gave %x, want %x", i, d.t, p[0], want[0])
		}
		if d.kind == "framed" {
			return // it may have consumed part of a frame
		}
	}
}

// ---- protocols

type protoFac struct {
	name string
	f    thrift.TProtocolFactory
	mk   func(t thrift.TTransport) thrift.TProtocol // the constructor
	pr   *proto
	sr   bool
	sw   bool
}

func protoFacs() []protoFac {
	fs := []protoFac{
		{"binary", thrift.NewTBinaryProtocolFactoryDefault(), func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocolTransport(t) }, pBin, false, true},
		{"compact", thrift.NewTCompactProtocolFactory(), func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTCompactProtocol(t) }, pComp, false, false},
		{"json", thrift.NewTJSONProtocolFactory(), func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTJSONProtocol(t) }, pJSON, false, false},
		{"simplejson", thrift.NewTSimpleJSONProtocolFactory(), func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTSimpleJSONProtocol(t) }, pSimp, false, false},
	}
	for _, sr := range []bool{false, true} {
		for _, sw := range []bool{false, true} {
			sr, sw := sr, sw
			fs = append(fs, protoFac{fmt.Sprintf("binary %v %v", sr, sw), thrift.NewTBinaryProtocolFactory(sr, sw), func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocol(t, sr, sw) }, pBin, sr, sw})
		}
	}
	return fs
}

func facMessage(pf protoFac, seq int32) []byte {
	if pf.pr == pBin && !pf.sw {
		// the old form: name, type, number
		return append([]byte{0, 0, 0, 1, 'm', 1}, 0, 0, 0, byte(seq), 0)
	}
	if pf.pr == pBin {
		return []byte{0x80, 1, 0, 1, 0, 0, 0, 1, 'm', 0, 0, 0, byte(seq), 0}
	}
	return nil
}

func facProtocols(c *Ctx) {
	fs := protoFacs()
	carriers := []string{"memory", "x", "framed"}
	c.Par("protocols", len(fs)*len(carriers)*2, func(i int) string {
		return fs[i/2%len(fs)].name + " " + carriers[i/2/len(fs)] + []string{" made", " constructed"}[i&1]
	}, func(t *T, i int) {
		pf := fs[i/2%len(fs)]
		get := pf.f.GetProtocol
		if i&1 == 1 {
			get = pf.mk
		}
		// two protocols over two transports; every order of the steps of both
		steps := []string{"begin", "end", "flush", "read"}
		for mask := 0; mask < 1<<8; mask++ {
			n := 0
			for k := 0; k < 8; k++ {
				n += mask >> uint(k) & 1
			}
			if n != 4 {
				continue
			}
			var order []int
			for k := 0; k < 8; k++ {
				order = append(order, mask>>uint(k)&1)
			}
			t.Trace()
			t.Ops(8)
			t.Try(fmt.Sprint(order), func() {
				var tr [2]thrift.TTransport
				var q [2]*memT
				var p [2]thrift.TProtocol
				for k := range p {
					q[k] = newMem(nil)
					switch carriers[i/2/len(fs)] {
					case "memory":
						tr[k] = thrift.NewTMemoryBuffer()
					case "x":
						tr[k] = q[k]
					case "framed":
						tr[k] = thrift.NewTFramedTransport(q[k])
					}
					p[k] = get(tr[k])
					mustTrue(p[k] != nil && p[k].Transport() == tr[k], "transport", "the protocol is not on the transport it was made for")
					mustTrue(fmt.Sprintf("%T", p[k]) == fmt.Sprintf("%T", pf.mk(tr[k])), "kind", "the factory makes %T", p[k])
				}
				mustTrue(p[0] != p[1], "shared", "two protocols made are the same")
				var at [2]int
				for _, k := range order {
					sq := int32(7 + 20*k)
					var err error
					switch steps[at[k]] {
					case "begin":
						err = first(p[k].WriteMessageBegin("m", thrift.CALL, sq), p[k].WriteStructBegin("s"), p[k].WriteFieldStop())
					case "end":
						err = first(p[k].WriteStructEnd(), p[k].WriteMessageEnd())
					case "flush":
						err = first(p[k].Flush())
						if err == nil && q[k].b != nil {
							want := facMessage(pf, sq)
							got := q[k].b
							if want != nil {
								if carriers[i/2/len(fs)] == "framed" {
									want = frame(want)
								}
								mustTrue(bytes.Equal(got, want), "bytes", "the message is %x, want %x", got, want)
							}
						}
					case "read":
						r := p[k]
						name, typ, num, e := r.ReadMessageBegin()
						if pf.sr && !pf.sw {
							mustTrue(e != nil, "strict", "a protocol that reads strictly accepted a message without version")
							break
						}
						mustTrue(e == nil && name == "m" && typ == thrift.CALL && num == sq, "message", "read back %q %v %d %v", name, typ, num, e)
					}
					mustTrue(err == nil, "step", "%s: %v", steps[at[k]], err)
					at[k]++
					t.State(hInts(40, i, at[0], at[1]))
				}
			})
		}
	})
}

func first(es ...interface{}) error {
	for _, e := range es {
		if e == nil {
			continue
		}
		if err, ok := e.(error); ok && err != nil {
			return err
		}
	}
	return nil
}

// ---- servers and processors

type facProc struct {
	n       int
	in, out thrift.TProtocol
	calls   int
}

func (p *facProc) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	p.in, p.out = in, out
	p.calls++
	return false, nil
}

type facFunc struct{ n int }

func (p *facFunc) Process(seqId int32, in, out thrift.TProtocol) (bool, thrift.TException) {
	return true, nil
}

type facServerTransport struct {
	queueT
	clients  []thrift.TTransport
	listened int
}

func (s *facServerTransport) Listen() error { s.listened++; return nil }
func (s *facServerTransport) Accept() (thrift.TTransport, error) {
	if len(s.clients) == 0 {
		return nil, errors.New("no more")
	}
	c := s.clients[0]
	s.clients = s.clients[1:]
	return c, nil
}
func (s *facServerTransport) Interrupt() error { return nil }
func (s *facServerTransport) Addr() net.Addr   { return nil }

type facProto struct {
	n     int
	asked []thrift.TTransport
	made  []thrift.TProtocol
}

func (f *facProto) GetProtocol(t thrift.TTransport) thrift.TProtocol {
	p := thrift.NewTCompactProtocol(t)
	f.asked, f.made = append(f.asked, t), append(f.made, p)
	return p
}

type facTrans struct {
	n     int
	asked []thrift.TTransport
	made  []thrift.TTransport
}

func (f *facTrans) GetTransport(t thrift.TTransport) thrift.TTransport {
	r := thrift.NewTFramedTransport(t)
	f.asked, f.made = append(f.asked, t), append(f.made, r)
	return r
}

type facServer interface {
	ProcessorFactory() thrift.TProcessorFactory
	ServerTransport() thrift.TServerTransport
	InputTransportFactory() thrift.TTransportFactory
	OutputTransportFactory() thrift.TTransportFactory
	InputProtocolFactory() thrift.TProtocolFactory
	OutputProtocolFactory() thrift.TProtocolFactory
	Serve() error
}

func facServers(c *Ctx) {
	ctors := []string{"2", "4", "6", "factory2", "factory4", "factory6"}
	c.Par("servers", 2*len(ctors)*3, func(i int) string {
		return []string{"simple ", "nonblocking "}[i&1] + ctors[i/2%len(ctors)] + fmt.Sprint(" clients ", i/2/len(ctors))
	}, func(t *T, i int) {
		ct := ctors[i/2%len(ctors)]
		nclients := i / 2 / len(ctors)
		proc := &facProc{n: 1}
		st := &facServerTransport{}
		var clients []thrift.TTransport
		for k := 0; k < nclients; k++ {
			cl := newMem(nil)
			clients = append(clients, cl)
			st.clients = append(st.clients, cl)
		}
		it, ot := &facTrans{n: 1}, &facTrans{n: 2}
		ip, op := &facProto{n: 1}, &facProto{n: 2}
		pfac := thrift.NewTProcessorFactory(proc)
		for _, b := range []thrift.TTransport{nil, newMem(nil)} {
			mustTrue(pfac.GetProcessor(b) == thrift.TProcessor(proc), "processor", "the processor factory does not give its processor")
			fn := &facFunc{3}
			mustTrue(thrift.NewTProcessorFunctionFactory(fn).GetProcessorFunction(b) == thrift.TProcessorFunction(fn), "processor-function", "the function factory does not give its function")
		}
		var s facServer
		simple := i&1 == 0
		switch ct {
		case "2":
			if simple {
				s = thrift.NewTSimpleServer2(proc, st)
			} else {
				s = thrift.NewTNonblockingServer2(proc, st)
			}
		case "4":
			if simple {
				s = thrift.NewTSimpleServer4(proc, st, it, ip)
			} else {
				s = thrift.NewTNonblockingServer4(proc, st, it, ip)
			}
		case "6":
			if simple {
				s = thrift.NewTSimpleServer6(proc, st, it, ot, ip, op)
			} else {
				s = thrift.NewTNonblockingServer6(proc, st, it, ot, ip, op)
			}
		case "factory2":
			if simple {
				s = thrift.NewTSimpleServerFactory2(pfac, st)
			} else {
				s = thrift.NewTNonblockingServerFactory2(pfac, st)
			}
		case "factory4":
			if simple {
				s = thrift.NewTSimpleServerFactory4(pfac, st, it, ip)
			} else {
				s = thrift.NewTNonblockingServerFactory4(pfac, st, it, ip)
			}
		case "factory6":
			if simple {
				s = thrift.NewTSimpleServerFactory6(pfac, st, it, ot, ip, op)
			} else {
				s = thrift.NewTNonblockingServerFactory6(pfac, st, it, ot, ip, op)
			}
		}
		mustTrue(s.ServerTransport() == thrift.TServerTransport(st), "server-transport", "another server transport")
		mustTrue(s.ProcessorFactory() != nil && s.ProcessorFactory().GetProcessor(nil) == thrift.TProcessor(proc), "processor", "another processor")
		if len(ct) > 2 {
			mustTrue(s.ProcessorFactory() == pfac, "processor", "another processor factory")
		}
		four, two := ct[len(ct)-1] == '4', ct[len(ct)-1] == '2'
		if four {
			ot, op = it, ip
		}
		if !two {
			mustTrue(s.InputTransportFactory() == thrift.TTransportFactory(it), "input-transport", "another input transport factory")
			mustTrue(s.OutputTransportFactory() == thrift.TTransportFactory(ot), "output-transport", "another output transport factory")
			mustTrue(s.InputProtocolFactory() == thrift.TProtocolFactory(ip), "input-protocol", "another input protocol factory")
			mustTrue(s.OutputProtocolFactory() == thrift.TProtocolFactory(op), "output-protocol", "another output protocol factory")
		} else {
			x := newMem(nil)
			for _, f := range []thrift.TTransportFactory{s.InputTransportFactory(), s.OutputTransportFactory()} {
				mustTrue(f != nil && f.GetTransport(x) == thrift.TTransport(x), "default-transport", "the default transport factory changes the transport")
			}
			for _, f := range []thrift.TProtocolFactory{s.InputProtocolFactory(), s.OutputProtocolFactory()} {
				mustTrue(f != nil && fmt.Sprintf("%T", f.GetProtocol(x)) == "*thrift.TBinaryProtocol", "default-protocol", "the default protocol is not binary")
			}
		}
		// one run: what each connection is processed with
		if !simple && nclients > 1 {
			t.Trace()
			return // its connections are handled at the same time
		}
		done := make(chan error, 1)
		go func() { done <- s.Serve() }()
		select {
		case err := <-done:
			mustTrue(err != nil, "serve", "serving ended without the accept's error")
		case <-time.After(20 * time.Second):
			t.Failf("serve", "serving does not end")
		}
		mustTrue(st.listened == 1, "listen", "listened %d times", st.listened)
		if simple {
			mustTrue(proc.calls == nclients, "calls", "processed %d connections of %d", proc.calls, nclients)
			for k, f := range []*facTrans{it, ot} {
				want := nclients
				if two {
					want = 0
				} else if four {
					want *= 2
				}
				mustTrue(len(f.asked) == want, "asked", "transport factory %d was asked %d times, want %d", k, len(f.asked), want)
			}
			if nclients > 0 {
				last := clients[nclients-1]
				if two {
					mustTrue(proc.in.Transport() == last && proc.out.Transport() == last, "wired", "the default server does not process on the client itself")
				} else {
					ai := len(it.asked) - 1
					if four {
						ai--
					}
					mustTrue(it.asked[ai] == last && ot.asked[len(ot.asked)-1] == last, "wired", "the transport factories were not given the client")
					pi := len(ip.made) - 1
					if four {
						pi--
					}
					mustTrue(proc.in == ip.made[pi] && proc.out == op.made[len(op.made)-1], "wired", "the processor was not given the protocols made for it")
					mustTrue(proc.in.Transport() == it.made[ai] && proc.out.Transport() == ot.made[len(ot.made)-1], "wired", "the protocols are not on the transports made for them")
				}
			}
		}
		t.Trace()
		t.State(hInts(50, i))
	})
}

// ---- socket factories

func facSockets(c *Ctx) {
	short := int64(25 * time.Millisecond)
	type row struct {
		base    string
		timeout int64
	}
	rows := []row{{"nil", 0}, {"other", 0}, {"same", 0}, {"same", short}, {"same-open", short}}
	c.Par("sockets", 3*len(rows)*2, func(i int) string {
		r := rows[i/2%len(rows)]
		return []string{"client", "server", "nonblocking server"}[i/2/len(rows)] + " " + r.base + fmt.Sprint(" ", r.timeout, " factory timeout ", i&1)
	}, func(t *T, i int) {
		t.Trace()
		r := rows[i/2%len(rows)]
		ft := int64(0) // of the factory
		if i&1 == 1 {
			ft = short
		}
		switch i / 2 / len(rows) {
		case 0:
			if i&1 == 1 {
				return
			}
			l1, a1 := listenUnix()
			l2, a2 := listenUnix()
			defer l1.Close()
			defer l2.Close()
			var base thrift.TTransport
			want, other, to := l1, l2, int64(0)
			switch r.base {
			case "other":
				base = thrift.NewTSocketAddr(a2)
			case "same", "same-open":
				s, _ := thrift.NewTNonblockingSocketAddrTimeout(a2, r.timeout)
				base = s
				want, other, to = l2, l1, r.timeout
				if r.base == "same-open" {
					mustTrue(base.Open() == nil, "open", "cannot open")
					defer base.Close()
					cn, err := l2.Accept()
					mustTrue(err == nil, "harness", "%v", err)
					defer cn.Close()
				}
			}
			p := thrift.NewTNonblockingSocketTransportFactory(a1).GetTransport(base)
			s, ok := p.(*thrift.TNonblockingSocket)
			mustTrue(ok && p != base, "kind", "the factory gave %T", p)
			mustTrue(!p.IsOpen(), "open", "a socket made is open")
			wa := net.Addr(a1)
			if want == l2 {
				wa = a2
			}
			mustTrue(s.Addr() == wa, "addr", "address %v, want %v", s.Addr(), wa)
			mustTrue(p.Open() == nil, "open", "the socket made does not open")
			defer p.Close()
			want.SetDeadline(time.Now().Add(5 * time.Second))
			cn, err := want.Accept()
			mustTrue(err == nil, "address", "the socket made does not connect to its address: %v", err)
			defer cn.Close()
			other.SetDeadline(time.Now().Add(-time.Second))
			if x, err := other.Accept(); err == nil {
				x.Close()
				t.Failf("address", "the socket made connects elsewhere")
			}
			facTimeout(t, p, cn, to)
		default:
			nb := i/2/len(rows) == 2
			a1, a2 := unixName(), unixName()
			if nb && i&1 == 1 {
				return // its factory has no timeout
			}
			var base thrift.TTransport
			want, to := a1, ft
			mk := func(a net.Addr, to int64) thrift.TTransport {
				if nb {
					s, _ := thrift.NewTNonblockingServerSocketAddrTimeout(a, to)
					return s
				}
				s, _ := thrift.NewTServerSocketAddrTimeout(a, to)
				return s
			}
			switch r.base {
			case "other":
				base = thrift.NewTSocketAddr(a2)
			case "same", "same-open":
				base = mk(a2, r.timeout)
				want, to = a2, r.timeout
			}
			var p thrift.TTransport
			if nb {
				p = thrift.NewTNonblockingServerSocketTransportFactory(a1).GetTransport(base)
			} else {
				p = thrift.NewTServerSocketTransportFactory(a1, ft).GetTransport(base)
			}
			s, ok := p.(thrift.TServerTransport)
			mustTrue(ok && p != base, "kind", "the factory gave %T", p)
			ad, ok := p.(interface{ Addr() net.Addr })
			mustTrue(ok && ad.Addr() == net.Addr(want), "addr", "the server socket made is for another address")
			mustTrue(!p.IsOpen(), "open", "a server socket made is open")
			mustTrue(p.Open() == nil && p.IsOpen(), "open", "the server socket made does not open")
			defer p.Close()
			cn, err := net.Dial("unix", want.s)
			mustTrue(err == nil, "address", "nobody listens at the address: %v", err)
			defer cn.Close()
			q, err := s.Accept()
			mustTrue(err == nil && q != nil && q.IsOpen(), "accept", "accepting: %v", err)
			defer q.Close()
			facTimeout(t, q, cn, to)
		}
		t.State(hInts(60, i))
	})
}

// facTimeout: with a timeout a read of nothing fails by itself, without one it
// waits for the peer.
func facTimeout(t *T, p thrift.TTransport, peer net.Conn, to int64) {
	b := make([]byte, 1)
	if to == 0 {
		go func() {
			time.Sleep(60 * time.Millisecond)
			peer.Close()
		}()
		_, err := p.Read(b)
		mustTrue(err != nil && !isTimeout(err), "timeout", "a socket made without timeout: %v", err)
		return
	}
	done := make(chan error, 1)
	go func() {
		_, err := p.Read(b)
		done <- err
	}()
	select {
	case err := <-done:
		mustTrue(isTimeout(err), "timeout", "a read without data failed with %v", err)
	case <-time.After(10 * time.Second):
		t.Failf("timeout", "the timeout was lost")
	}
}

func isTimeout(err error) bool { return err != nil && strings.Contains(err.Error(), "timeout") }
