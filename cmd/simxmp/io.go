package main

// Simulated readers and writers: every delivery, stall and fault is chosen by
// the simulator.

import (
	"errors"
	"fmt"
	"io"
	"syscall"
)

var (
	errInjected = errors.New("simulated I/O error")
	errDeadline = errors.New("simulated deadline exceeded")
)

// ReadPlan describes how a stream is delivered.
type ReadPlan struct {
	mode    int
	size    int
	seed    uint64
	cuts    []int // mode 4: stop at these offsets
	empties int   // every n-th delivery is preceded by empty reads
	emptyN  int
	err     error  // at the end
	rest    []byte // follows after a one-off error
	withErr bool   // last data come together with the error
}

func (p *ReadPlan) String() string {
	m := []string{"whole", "bytewise", fmt.Sprintf("chunks of %d", p.size), "random chunks", fmt.Sprintf("cuts at %v", clipInts(p.cuts))}[p.mode]
	s := m
	if p.empties > 0 {
		s += fmt.Sprintf(", %d empty reads every %d", p.emptyN, p.empties)
	}
	if p.err != io.EOF {
		s += ", ends with " + p.err.Error()
	}
	if p.withErr {
		s += " together with data"
	}
	return s
}

func clipInts(l []int) []int {
	if len(l) > 6 {
		return l[:6]
	}
	return l
}

// readPlan draws a plan. hot are offsets near which cuts are interesting.
func (r *R) readPlan(hot []int) *ReadPlan {
	p := &ReadPlan{err: io.EOF}
	p.mode = r.N(5)
	switch p.mode {
	case 1:
	case 2:
		p.size = 1 + r.Small(pick(r.Src, []int{16, 100, 5000, 70000}))
	case 3:
		p.size = 1 + r.Small(pick(r.Src, []int{4, 40, 600, 8000}))
		p.seed = uint64(r.N(1 << 30))
	case 4:
		n := 1 + r.N(6)
		for i := 0; i < n && len(hot) > 0; i++ {
			c := pick(r.Src, hot) + r.N(25) - 8
			if c > 0 {
				p.cuts = append(p.cuts, c)
			}
		}
	}
	if r.N(4) == 3 {
		p.empties = 1 + r.N(5)
		p.emptyN = pick(r.Src, []int{1, 1, 2, 30})
	}
	p.withErr = r.N(3) == 2
	switch p.mode {
	case 1:
		r.Fault("read.bytewise")
	case 2, 3, 4:
		r.Fault("read.partial")
	}
	if p.empties > 0 {
		r.Fault("read.empty")
	}
	if p.withErr {
		r.Fault("read.data+eof")
	}
	return p
}

type simReader struct {
	p     *ReadPlan
	data  []byte
	pos   int
	n     int
	empty int
	calls int
	rng   uint64
	after int // calls after the end
}

func newReader(p *ReadPlan, data []byte) *simReader {
	return &simReader{p: p, data: data, rng: p.seed}
}

func (s *simReader) Read(b []byte) (int, error) {
	s.calls++
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) && s.p.rest != nil && s.after > 0 {
		s.data, s.pos, s.after = append(append([]byte(nil), s.data...), s.p.rest...), len(s.data), 0
		s.p = &ReadPlan{err: io.EOF}
	}
	if s.pos >= len(s.data) {
		s.after++
		if s.after > 10000 {
			panic(violation{"hang", "reader is polled forever after its end"})
		}
		return 0, s.p.err
	}
	if s.p.empties > 0 && s.n%s.p.empties == 0 && s.empty < s.p.emptyN {
		s.empty++
		return 0, nil
	}
	s.empty = 0
	s.n++
	k := len(s.data) - s.pos
	switch s.p.mode {
	case 1:
		k = 1
	case 2:
		k = s.p.size
	case 3:
		s.rng = mix64(s.rng)
		k = 1 + int(s.rng%uint64(s.p.size))
	case 4:
		for _, c := range s.p.cuts {
			if c > s.pos && c-s.pos < k {
				k = c - s.pos
			}
		}
	}
	// rescanning makes tiny deliveries of huge streams quadratic: not a hang
	if m := int(int64(len(s.data)) * int64(len(s.data)) / 50_000_000); k <= m {
		k = m + 1
	}
	if k > len(b) {
		k = len(b)
	}
	if k > len(s.data)-s.pos {
		k = len(s.data) - s.pos
	}
	copy(b, s.data[s.pos:s.pos+k])
	s.pos += k
	if s.pos >= len(s.data) && s.p.withErr {
		s.after++
		return k, s.p.err
	}
	return k, nil
}

// ReadErr picks an error kind for a failing reader.
func (r *R) readErr() error {
	e := pick(r.Src, []error{errInjected, errDeadline, io.ErrUnexpectedEOF, syscall.EIO, io.ErrClosedPipe})
	r.Fault("read.error")
	return e
}

// WritePlan describes a destination.
type WritePlan struct {
	kind  int // 0 healthy, 1 error at offset, 2 short write without error, 3 short with error, 4 full disk (takes what fits), 5 error at call, 6 error once then healthy
	at    int // offset or call
	piece int // healthy: maximum bytes taken... always whole
	err   error
}

var writeKinds = []string{"healthy", "error", "short-no-error", "short", "full", "error-at-call", "error-once", "short-once", "silent-zero"}

func (p *WritePlan) String() string {
	if p.kind == 0 {
		return "healthy"
	}
	return fmt.Sprintf("%s at %d (%v)", writeKinds[p.kind], p.at, p.err)
}

type simWriter struct {
	p     *WritePlan
	buf   []byte
	calls int
	fired int  // faults delivered
	offd  int  // bytes offered
	after bool // data written after a fault was delivered
	sizes []int
}

func (w *simWriter) Write(b []byte) (int, error) {
	w.calls++
	w.offd += len(b)
	w.sizes = append(w.sizes, len(b))
	take := func(n int) int {
		if n < 0 {
			n = 0
		}
		if n > len(b) {
			n = len(b)
		}
		if w.fired > 0 && n > 0 {
			w.after = true
		}
		w.buf = append(w.buf, b[:n]...)
		return n
	}
	hitOfs := len(b) > 0 && len(w.buf)+len(b) > w.p.at
	switch w.p.kind {
	case 1: // lasting error, nothing taken from the failing write
		if hitOfs || w.fired > 0 {
			w.fired++
			return 0, w.p.err
		}
	case 2: // short write without error, lasting
		if hitOfs || w.fired > 0 {
			n := 0
			if w.fired == 0 {
				n = take(w.p.at - len(w.buf))
			}
			if n < len(b) {
				w.fired++
			}
			return n, nil
		}
	case 3, 4: // takes what fits, then error
		if hitOfs || w.fired > 0 {
			n := 0
			if w.fired == 0 || w.p.kind == 4 {
				n = take(w.p.at - len(w.buf))
			}
			w.fired++
			return n, w.p.err
		}
	case 5:
		if w.calls-1 >= w.p.at && len(b) > 0 {
			w.fired++
			return 0, w.p.err
		}
	case 6: // one failing write, then healthy again
		if hitOfs && w.fired == 0 {
			w.fired++
			return 0, w.p.err
		}
	case 7: // one short write, then healthy again
		if hitOfs && w.fired == 0 {
			n := take(w.p.at - len(w.buf))
			w.fired++
			return n, nil
		}
	case 8: // nothing taken, no error
		if hitOfs || w.fired > 0 {
			w.fired++
			return 0, nil
		}
	}
	return take(len(b)), nil
}

// writePlan draws a faulty destination for an output of size bytes.
func (r *R) writePlan(size int) *WritePlan {
	p := &WritePlan{kind: 1 + r.N(8)}
	p.err = pick(r.Src, []error{errInjected, syscall.ENOSPC, syscall.EIO, io.ErrClosedPipe, io.ErrShortWrite})
	if p.kind == 5 {
		p.at = r.Small(12)
	} else if size > 0 {
		switch r.N(4) {
		case 0:
			p.at = r.N(size)
		case 1:
			p.at = r.N(min(size, 120))
		case 2:
			p.at = size - 1 - r.N(min(size, 120))
		case 3:
			p.at = (1 + r.N(1+size/4096)) * 4096
			p.at += r.N(60) - 30
		}
		if p.at < 0 {
			p.at = 0
		}
		if p.at >= size {
			p.at = size - 1
		}
	}
	r.Fault("write." + writeKinds[p.kind])
	return p
}
