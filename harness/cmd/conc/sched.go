//go:build conc

package main

import (
	"sync"
	"time"

	"github.com/cloudprivacylabs/opencypher/verifsync"
)

// The scheduler runs one thread at a time. The functions below are not
// instrumented by the race detector, and their synchronisation is hidden
// from it: only the synchronisation of the code under test is seen.

const maxThreads = 4
const maxSteps = 1 << 18

// A thread that waits for a lock gives way to the others. If nothing
// happens for that many attempts, none can go on.
const maxWaits = 1000

type decision struct{ step, target int }

type info struct {
	diverged, waits int64
	// Nothing happened for a while, and the threads were let loose
	loose    bool
	deadlock bool
}

type scheduler struct {
	active   bool
	n        int
	cur      int
	step     int
	plan     []decision
	next     int
	wake     [maxThreads]chan struct{}
	done     [maxThreads]bool
	left     int
	all      chan struct{}
	who      []byte
	at       []int32
	diverged int64
	waits    int64
	idle     int
	stuck    bool
}

var S = scheduler{who: make([]byte, maxSteps), at: make([]int32, maxSteps)}

func init() { verifsync.Waiting = waiting }

//go:norace
func record(me byte, at int) {
	S.step++
	S.idle = 0
	if S.step < maxSteps {
		S.who[S.step] = me
		S.at[S.step] = int32(at)
	}
}

// yield is called before every statement of the code under test
//
//go:norace
func yield(at int) {
	if !S.active {
		return
	}
	me := S.cur
	record(byte(me), at)
	if S.next < len(S.plan) && S.plan[S.next].step == S.step {
		t := S.plan[S.next].target
		S.next++
		if t == me || S.done[t] {
			S.diverged++
			return
		}
		switchTo(me, t)
	}
}

// waiting is called by a thread that cannot go on
//
//go:norace
func waiting() {
	if !S.active {
		time.Sleep(time.Microsecond)
		return
	}
	me := S.cur
	S.waits++
	S.idle++
	t := me
	for k := 1; k < S.n; k++ {
		if i := (me + k) % S.n; !S.done[i] {
			t = i
			break
		}
	}
	if t == me || S.idle > maxWaits {
		// For ever
		S.stuck = true
		S.active = false
		S.all <- struct{}{}
		select {}
	}
	switchTo(me, t)
}

//go:norace
func switchTo(me, t int) {
	S.cur = t
	hand(t)
	raceDisable()
	<-S.wake[me]
	raceEnable()
}

//go:norace
func hand(t int) {
	raceDisable()
	select {
	case S.wake[t] <- struct{}{}:
	default:
	}
	raceEnable()
}

//go:norace
func finish(me int) {
	S.done[me] = true
	S.left--
	if !S.active {
		finishLoose()
		return
	}
	record(byte(me)|0x80, -1)
	if S.left == 0 {
		S.active = false
		raceDisable()
		S.all <- struct{}{}
		raceEnable()
		return
	}
	next := -1
	if S.next < len(S.plan) && S.plan[S.next].step == S.step {
		t := S.plan[S.next].target
		S.next++
		if !S.done[t] {
			next = t
		} else {
			S.diverged++
		}
	}
	for i := 0; i < S.n && next < 0; i++ {
		if !S.done[i] {
			next = i
		}
	}
	S.cur = next
	hand(next)
}

var loose struct {
	sync.Mutex
	left int
}

//go:norace
func finishLoose() {
	raceDisable()
	loose.Lock()
	loose.left--
	n := loose.left
	loose.Unlock()
	if n == 0 {
		S.all <- struct{}{}
	}
	raceEnable()
}

//go:norace
func enter(me int) {
	raceDisable()
	<-S.wake[me]
	raceEnable()
}

//go:norace
func prepare(n int, plan []decision) {
	S.n, S.plan, S.next, S.step, S.left, S.diverged = n, plan[1:], 0, 0, n, 0
	S.waits, S.idle, S.stuck = 0, 0, false
	S.cur = plan[0].target
	S.all = make(chan struct{}, 1)
	for i := 0; i < n; i++ {
		S.done[i] = false
		S.wake[i] = make(chan struct{}, 1)
	}
}

//go:norace
func steps() int { return S.step }

//go:norace
func activate() {
	S.active = true
	hand(S.cur)
}

var timer = time.NewTimer(time.Hour)

// A thread that waits for something other than a lock is noticed after
// some time
var stallAfter = 500 * time.Millisecond

// waitAll waits until all threads are done
//
//go:norace
func waitAll(inf *info) bool {
	raceDisable()
	defer raceEnable()
	last := -1
	for began := time.Now(); ; {
		timer.Reset(stallAfter)
		select {
		case <-S.all:
			return !S.stuck
		case <-timer.C:
		}
		if inf.loose {
			if time.Since(began) > 20*time.Second {
				return false
			}
			continue
		}
		s := steps()
		if s != last {
			last = s
			continue
		}
		// The running thread waits for something. Let all of them run.
		inf.loose = true
		began = time.Now()
		loose.left = S.left
		S.active = false
		for i := 0; i < S.n; i++ {
			hand(i)
		}
	}
}

// schedule runs n threads according to the plan, and gives the thread
// of every step
func schedule(n int, plan []decision, body func(i int)) ([]byte, info) {
	var inf info
	prepare(n, plan)
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		go func(i int) {
			enter(i)
			body(i)
			wg.Done()
			finish(i)
		}(i)
	}
	activate()
	if !waitAll(&inf) {
		inf.deadlock = true
		return nil, inf
	}
	wg.Wait()
	inf.diverged = S.diverged + int64(len(S.plan)-S.next)
	inf.waits = S.waits
	if inf.loose {
		return nil, inf
	}
	k := S.step + 1
	if k > maxSteps {
		k = maxSteps
	}
	return append([]byte{}, S.who[:k]...), inf
}
