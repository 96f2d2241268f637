package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
)

// Context takes away the process-wide state which belongs to the client running now,
// and gives a function which puts it back.
var Context func() (restore func())

// client is one of several independent users of the code under test, in one process.
type client struct {
	number  int
	run     chan struct{}
	opSteps int
	held    []held
	left    int // I/O steps until the scheduler decides again
	ended   bool
	failure any
}

// together runs several clients which have nothing to do with each other, each with
// its own storage. They take turns whenever the scheduler likes, also in the middle of
// their operations (at I/O steps), but only ever one of them runs. None of them may
// notice the others.
func (r *Run) together(clients int, f func(*Run)) {
	all := make([]*client, clients)
	stopped := make(chan *client)
	for i := range all {
		c := &client{number: i, run: make(chan struct{})}
		all[i] = c
		go func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(*Violation); !ok {
						p = &Violation{Key: "panic", Msg: fmt.Sprintf("crash: %v", p), Stack: string(debug.Stack())}
					}
					c.failure = p
				}
				c.ended = true
				stopped <- c
			}()
			<-c.run
			if r.aborted {
				return
			}
			r.restore()
			f(r)
			r.checkHeld()
			r.save()
		}()
	}
	r.stopped = stopped
	alive := append([]*client(nil), all...)
	var failure any
	for len(alive) > 0 && failure == nil {
		i := r.Int(len(alive))
		c := alive[i]
		c.left = []int{0, 1, 2, 5, 20, 100, 1000}[r.Int(7)]
		r.Ev("-- client", c.number)
		r.current = c
		c.run <- struct{}{}
		<-stopped
		if c.ended {
			alive = append(alive[:i:i], alive[i+1:]...)
			failure = c.failure
		}
	}
	r.current, r.aborted = nil, true
	for _, c := range alive {
		if !c.ended {
			c.run <- struct{}{}
			<-stopped
		}
	}
	r.aborted, r.held = false, nil
	if failure != nil {
		panic(failure)
	}
}

func (r *Run) save() {
	c := r.current
	c.opSteps, c.held = r.opSteps, r.held
	r.opSteps, r.held = 0, nil
}

func (r *Run) restore() {
	r.opSteps, r.held = r.current.opSteps, r.current.held
}

// yield lets other clients run, if there are any and it's time.
func (r *Run) yield() {
	c := r.current
	if c == nil || r.aborted {
		return
	}
	if c.left > 0 {
		c.left--
		return
	}
	r.save()
	back := func() {}
	if Context != nil {
		back = Context()
	}
	r.stopped <- c
	<-c.run
	if r.aborted {
		runtime.Goexit()
	}
	back()
	r.restore()
}
