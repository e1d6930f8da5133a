package sim

import (
	"iter"
	"unsafe"
)

// Channels. The value made by make stays the identity of a channel, its
// capacity and its type; what is sent goes through the queues below, so that
// the simulator decides who proceeds. Channels made by code that is not
// instrumented are polled.

type chanState struct {
	key    unsafe.Pointer
	keep   any // keeps the key from being reused
	next   *chanState
	buf    []any
	head   int
	n      int
	closed bool
	recvq  queue
	sendq  queue
	sema   byte
}

// queue is a list of waiting cases.
type queue struct{ first, last *waiter }

type waiter struct {
	next *waiter
	sel  *selection
	cs   *caseState
	idx  int
}

type selection struct {
	done bool
	idx  int
}

type caseState struct {
	c    *chanState
	null bool // a nil channel
	send bool
	val  any
	ok   bool
	try  func() bool // the operation on the real channel
}

const chanSlots = 1 << 12

var (
	chanTab  [chanSlots]*chanState
	chanUsed [chanSlots]uint16
	nUsed    int
)

//go:norace
func resetChans() {
	for i := 0; i < nUsed; i++ {
		chanTab[chanUsed[i]] = nil
	}
	nUsed = 0
}

func chanSlot(p unsafe.Pointer) uint64 { return mix(uint64(uintptr(p))) % chanSlots }

//go:norace
func chanOf(p unsafe.Pointer) *chanState {
	for s := chanTab[chanSlot(p)]; s != nil; s = s.next {
		if s.key == p {
			return s
		}
	}
	return nil
}

//go:norace
func chanAdd(p unsafe.Pointer, keep any, n int) {
	i := chanSlot(p)
	if chanTab[i] == nil {
		chanUsed[nUsed] = uint16(i)
		nUsed++
	}
	chanTab[i] = &chanState{key: p, keep: keep, next: chanTab[i], buf: make([]any, n)}
}

func chanKey[C any](c *C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(c)) }

// NewChan registers a channel.
func NewChan[C ~chan E, E any](c C) C {
	chanAdd(chanKey(&c), c, cap(c))
	return c
}

// ChanLen is len for channels.
func ChanLen[E any](c <-chan E) int {
	if s := chanOf(chanKey(&c)); s != nil {
		return chanN(s)
	}
	return len(c)
}

// ChanLenSend is len for channels that can only be sent to.
func ChanLenSend[E any](c chan<- E) int {
	if s := chanOf(chanKey(&c)); s != nil {
		return chanN(s)
	}
	return len(c)
}

//go:norace
func chanN(s *chanState) int { return s.n }

// Close is close.
func Close[E any](c chan<- E) {
	s := chanOf(chanKey(&c))
	if s == nil {
		close(c)
		Point()
		return
	}
	s.close()
}

//go:norace
func (s *chanState) close() {
	Point()
	if s.closed {
		panic(plainError("close of closed channel"))
	}
	ReleaseMerge(unsafe.Pointer(&s.sema))
	s.closed = true
	for w := s.recvq.pop(); w != nil; w = s.recvq.pop() {
		w.cs.val, w.cs.ok = nil, false
	}
	for w := s.sendq.pop(); w != nil; w = s.sendq.pop() {
		w.cs.ok = false
	}
	wakeAll()
	Point()
}

// plainError is the error of a failed channel operation.
type plainError string

func (e plainError) RuntimeError() {}
func (e plainError) Error() string { return string(e) }

//go:norace
func (q *queue) push(w *waiter) {
	if q.first == nil {
		q.first = w
	} else {
		q.last.next = w
	}
	q.last = w
}

// pop takes the first case that still waits and completes its selection.
//
//go:norace
func (q *queue) pop() *waiter {
	w := q.peek()
	if w == nil {
		return nil
	}
	q.first = w.next
	w.sel.done, w.sel.idx = true, w.idx
	w.cs.ok = true
	return w
}

//go:norace
func (q *queue) peek() *waiter {
	for q.first != nil && q.first.sel.done {
		q.first = q.first.next
	}
	return q.first
}

//go:norace
func (cs *caseState) ready() bool {
	c := cs.c
	if c == nil {
		return false
	}
	if cs.send {
		return c.closed || c.n < len(c.buf) || c.recvq.peek() != nil
	}
	return c.closed || c.n > 0 || c.sendq.peek() != nil
}

// do performs an operation that is ready.
//
//go:norace
func (cs *caseState) do() {
	c := cs.c
	Acquire(unsafe.Pointer(&c.sema))
	if cs.send {
		if c.closed {
			panic(plainError("send on closed channel"))
		}
		if w := c.recvq.pop(); w != nil {
			w.cs.val = cs.val
		} else {
			c.push(cs.val)
		}
		wakeAll()
		return
	}
	switch {
	case c.n > 0:
		cs.val, cs.ok = c.buf[c.head], true
		c.buf[c.head] = nil
		c.head = (c.head + 1) % len(c.buf)
		c.n--
		if w := c.sendq.pop(); w != nil {
			c.push(w.cs.val)
		}
	case c.sendq.peek() != nil:
		cs.val, cs.ok = c.sendq.pop().cs.val, true
	default:
		cs.val, cs.ok = nil, false
	}
	wakeAll()
}

//go:norace
func (c *chanState) push(v any) {
	c.buf[(c.head+c.n)%len(c.buf)] = v
	c.n++
}

// poll tries the cases on channels the simulator does not know.
func poll(cases []selCase) int {
	for i := range cases {
		if cs := cases[i].state(); cs.try != nil && cs.try() {
			return i
		}
	}
	return -1
}

// Select is a select statement; it returns the index of the case taken, or -1
// for the default case.
//
//go:norace
func Select(hasDefault bool, cases ...selCase) int {
	Point()
	n := 0
	for i := 0; i < len(cases); i++ {
		cs := cases[i].state()
		if cs.c != nil {
			ReleaseMerge(unsafe.Pointer(&cs.c.sema))
		}
		if cs.ready() {
			n++
		}
	}
	if n > 0 {
		k := 0
		if n > 1 {
			k = int(C.Draw(Sched, uint64(n)))
		}
		for i := 0; i < len(cases); i++ {
			cs := cases[i].state()
			if cs.ready() {
				if k == 0 {
					cs.do()
					cases[i].finish()
					Point()
					return i
				}
				k--
			}
		}
	}
	if i := poll(cases); i >= 0 {
		cases[i].finish()
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selection{}
	for i := 0; i < len(cases); i++ {
		cs := cases[i].state()
		if cs.c == nil {
			continue
		}
		w := &waiter{sel: sel, cs: cs, idx: i}
		if cs.send {
			cs.c.sendq.push(w)
		} else {
			cs.c.recvq.push(w)
		}
	}
	for !sel.done {
		Block()
		if sel.done {
			break
		}
		if i := poll(cases); i >= 0 {
			sel.done, sel.idx = true, i
		}
	}
	cs := cases[sel.idx].state()
	if cs.c != nil {
		Acquire(unsafe.Pointer(&cs.c.sema))
		if cs.send && !cs.ok {
			panic(plainError("send on closed channel"))
		}
	}
	cases[sel.idx].finish()
	return sel.idx
}

type selCase interface {
	state() *caseState
	finish()
}

// RecvCase is a receive case of a select statement.
type RecvCase[E any] struct {
	cs  caseState
	Val E
	OK  bool
}

//go:norace
func (c *RecvCase[E]) state() *caseState { return &c.cs }

func (c *RecvCase[E]) finish() {
	if c.cs.c == nil {
		return
	}
	if v, ok := c.cs.val.(*E); ok {
		c.Val = *v
	}
	c.OK = c.cs.ok
}

// CaseRecv returns a receive case.
func CaseRecv[E any](ch <-chan E) *RecvCase[E] {
	c := &RecvCase[E]{}
	if ch == nil {
		return c
	}
	if c.cs.c = chanOf(chanKey(&ch)); c.cs.c == nil {
		c.cs.try = func() bool {
			select {
			case v, ok := <-ch:
				c.Val, c.OK = v, ok
				return true
			default:
				return false
			}
		}
	}
	return c
}

type sendCase struct{ cs caseState }

//go:norace
func (c *sendCase) state() *caseState { return &c.cs }
func (c *sendCase) finish()           {}

// CaseSend returns a send case.
func CaseSend[E any](ch chan<- E) func(E) *sendCase {
	return func(v E) *sendCase {
		c := &sendCase{}
		c.cs.send = true
		if ch == nil {
			return c
		}
		if c.cs.c = chanOf(chanKey(&ch)); c.cs.c == nil {
			c.cs.try = func() bool {
				select {
				case ch <- v:
					return true
				default:
					return false
				}
			}
		} else {
			c.cs.val = &v
		}
		return c
	}
}

// Send is a send statement.
func Send[E any](ch chan<- E) func(E) {
	return func(v E) { Select(false, CaseSend(ch)(v)) }
}

// Recv is a receive expression.
func Recv[E any](ch <-chan E) E {
	c := CaseRecv(ch)
	Select(false, c)
	return c.Val
}

// Recv2 is a receive expression that also tells whether a value was sent.
func Recv2[E any](ch <-chan E) (E, bool) {
	c := CaseRecv(ch)
	Select(false, c)
	return c.Val, c.OK
}

// RangeChan is the range of a channel.
func RangeChan[E any](ch <-chan E) iter.Seq[E] {
	return func(yield func(E) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
