package rsim

import (
	"reflect"
	"unsafe"
)

// Channels. The values are in the real channel, which no thread ever blocks on:
// a thread waits in the simulator until the operation can be done at once. An
// unbuffered channel is a channel of one element whose senders wait until their
// value is taken.

type chanState struct {
	sv         SyncVar
	unbuf      bool
	closed     bool
	recvs      int // threads that wait for a value
	sent, took int64
	keep       any
}

var chans map[unsafe.Pointer]*chanState     // of this execution
var initChans map[unsafe.Pointer]*chanState // made when the program started

// NChanOps counts the operations on channels.
var NChanOps int64

func chanOf(c any, p unsafe.Pointer) *chanState {
	s := chans[p]
	if s == nil {
		s = initChans[p]
	}
	if s == nil {
		m := &chans
		if !InSim {
			m = &initChans
		}
		s = &chanState{keep: c} // its address is not used again
		if *m == nil {
			*m = map[unsafe.Pointer]*chanState{}
		}
		(*m)[p] = s
	}
	return s
}

func chanPtr(c any) unsafe.Pointer { return reflect.ValueOf(c).UnsafePointer() }

// NewChan is make(C, n).
func NewChan[C ~chan T, T any](n int) C {
	if n > 0 {
		return make(C, n)
	}
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := make(C, 1)
	chanOf(c, chanPtr(c)).unbuf = true
	return c
}

// ChanCap is cap(c).
func ChanCap(c any) int {
	if p := chanPtr(c); p == nil || chanOf(c, p).unbuf {
		return 0
	}
	return reflect.ValueOf(c).Cap()
}

// ChanLen is len(c).
func ChanLen(c any) int {
	H()
	if p := chanPtr(c); p == nil || chanOf(c, p).unbuf {
		return 0
	}
	return reflect.ValueOf(c).Len()
}

func forEver() bool { return false }

// SendTo is c <- v.
func SendTo[T any](c chan<- T) func(v T) {
	return func(v T) {
		NChanOps++
		H()
		if c == nil {
			waitFor("send on a nil channel", forEver)
			return
		}
		s := chanOf(c, chanPtr(c))
		waitFor("send", func() bool { return s.closed || len(c) < cap(c) })
		send(s, c, v)
		if s.unbuf {
			n := s.sent
			waitFor("send", func() bool { return s.took >= n })
			Acquire(&s.sv)
		}
		H()
	}
}

func send[T any](s *chanState, c chan<- T, v T) {
	if s.closed {
		panic("send on closed channel")
	}
	Acquire(&s.sv)
	Release(&s.sv)
	select {
	case c <- v:
		s.sent++
	default: // only when a thread is being killed
	}
}

func recv[T any](s *chanState, c <-chan T) (v T, ok bool) {
	Acquire(&s.sv)
	select {
	case v, ok = <-c:
		if ok {
			s.took++
		}
	default:
	}
	Release(&s.sv)
	return v, ok
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	NChanOps++
	H()
	if c == nil {
		waitFor("receive from a nil channel", forEver)
		return v, false
	}
	s := chanOf(c, chanPtr(c))
	s.recvs++
	waitFor("receive", func() bool { return s.closed || len(c) > 0 })
	s.recvs--
	v, ok = recv(s, c)
	H()
	return v, ok
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// CloseChan is close(c).
func CloseChan[T any](c chan<- T) {
	H()
	if c == nil {
		panic("close of nil channel")
	}
	s := chanOf(c, chanPtr(c))
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	Release(&s.sv)
	close(c)
	H()
}

// A Comm is a case of a select statement.
type Comm interface {
	ready(hasDefault bool) bool
	do()
	wait(d int)
}

// RecvComm is case V, OK = <-c.
type RecvComm[T any] struct {
	V  T
	OK bool
	c  <-chan T
}

func RecvCase[T any](c <-chan T) *RecvComm[T] { return &RecvComm[T]{c: c} }

func (r *RecvComm[T]) ready(bool) bool {
	return r.c != nil && (len(r.c) > 0 || chanOf(r.c, chanPtr(r.c)).closed)
}
func (r *RecvComm[T]) do() { r.V, r.OK = recv(chanOf(r.c, chanPtr(r.c)), r.c) }
func (r *RecvComm[T]) wait(d int) {
	if r.c != nil {
		chanOf(r.c, chanPtr(r.c)).recvs += d
	}
}

// SendComm is case c <- v.
type SendComm[T any] struct {
	c chan<- T
	v T
}

func SendCase[T any](c chan<- T) func(v T) *SendComm[T] {
	return func(v T) *SendComm[T] { return &SendComm[T]{c, v} }
}

func (r *SendComm[T]) ready(hasDefault bool) bool {
	if r.c == nil {
		return false
	}
	s := chanOf(r.c, chanPtr(r.c))
	if s.closed {
		return true
	}
	// somebody must be there to take the value from an unbuffered channel
	return len(r.c) < cap(r.c) && (!s.unbuf || s.recvs > 0)
}
func (r *SendComm[T]) do()      { send(chanOf(r.c, chanPtr(r.c)), r.c, r.v) }
func (r *SendComm[T]) wait(int) {}

// Select returns the index of the case that was executed, or -1 for default.
func Select(hasDefault bool, cs ...Comm) int {
	NChanOps++
	H()
	var ok []int
	look := func() bool {
		ok = ok[:0]
		for i, c := range cs {
			if c.ready(hasDefault) {
				ok = append(ok, i)
			}
		}
		return len(ok) > 0
	}
	if !look() {
		if hasDefault {
			return -1
		}
		for _, c := range cs {
			c.wait(1)
		}
		waitFor("select", look)
		for _, c := range cs {
			c.wait(-1)
		}
		if len(ok) == 0 {
			return -1 // the thread is being killed
		}
	}
	i := ok[0]
	if len(ok) > 1 {
		i = ok[Rand().Intn(len(ok))]
	}
	cs[i].do()
	H()
	return i
}
