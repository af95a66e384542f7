package mcrt

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// The scheduler runs the threads of one session one at a time and decides at
// each scheduling point (Y) which one goes on.  The turn is handed over through
// plain memory in functions that the race detector does not see, so that the
// hand-over does not order the threads' memory accesses for it: what it sees is
// threads without any synchronisation but their own.

const maxThreads = 8

// Preempt is a decision to switch at a scheduling point.
type Preempt struct{ At, To int }

// Run is the record of a session.
type Run struct {
	Points  int      // scheduling points passed
	Who     []uint8  // thread at each point
	Alive   []uint16 // threads not finished at each point
	Panics  []any    // per thread
	Blocked bool     // a thread was found blocked and left waiting
}

var (
	on      int32
	turn    int32
	steps   int32
	nthr    int32
	gids    [maxThreads]uintptr
	fin     [maxThreads]int32
	plan    []Preempt
	planned int
	who     []uint8
	alive   []uint16
	blocked int32
)

//go:norace
//go:noinline
func get(p *int32) int32 { return *p }

//go:norace
//go:noinline
func put(p *int32, v int32) { *p = v }

//go:norace
//go:noinline
func getw(p *uintptr) uintptr { return *p }

//go:norace
//go:noinline
func putw(p *uintptr, v uintptr) { *p = v }

// Y is a scheduling point.
//
//go:norace
func Y() {
	if get(&on) == 0 {
		return
	}
	g := getg()
	n := get(&nthr)
	for i := int32(0); i < n; i++ {
		if gids[i] == g {
			point(i)
			return
		}
	}
}

//go:norace
func point(me int32) {
	if get(&turn) != me {
		await(me) // was blocked and left behind
	}
	at := int(steps)
	steps++
	if at < cap(who) {
		a := uint16(0)
		for i := int32(0); i < nthr; i++ {
			if get(&fin[i]) == 0 {
				a |= 1 << i
			}
		}
		who = append(who, uint8(me))
		alive = append(alive, a)
	}
	if planned < len(plan) && plan[planned].At == at {
		to := int32(plan[planned].To)
		planned++
		if to != me && get(&fin[to]) == 0 {
			put(&turn, to)
			await(me)
		}
	}
}

// patience is how long a thread may take from one point to the next before it
// is taken to be waiting for another thread.
const patience = 30 * time.Millisecond

//go:norace
func await(me int32) {
	spins := 0
	var last int32
	var since time.Time
	for get(&turn) != me {
		runtime.Gosched()
		if spins++; spins < 2000 {
			continue
		}
		spins = 1000
		now := time.Now()
		if s := get(&steps); since.IsZero() || s != last {
			last, since = s, now
			continue
		}
		if now.Sub(since) > patience {
			t := get(&turn)
			// hand the turn on to the next waiting thread after the blocked one
			next := t
			for k := int32(1); k < nthr; k++ {
				c := (t + k) % nthr
				if get(&fin[c]) == 0 {
					next = c
					break
				}
			}
			if next == me {
				put(&blocked, 1)
				atomic.CompareAndSwapInt32(&turn, t, me)
			}
			since = time.Time{}
		}
	}
}

//go:norace
func finish(me int32) {
	put(&fin[me], 1)
	if get(&turn) != me {
		return
	}
	for i := int32(0); i < nthr; i++ {
		if get(&fin[i]) == 0 {
			put(&turn, i)
			return
		}
	}
}

//go:norace
func enter(me int32) {
	putw(&gids[me], getg())
	put(&fin[me], 0)
	atomic.AddInt32(&on, 1)
	await(me)
}

//go:norace
func setup(n, first int, p []Preempt, limit int) {
	plan, planned = p, 0
	steps = 0
	blocked = 0
	nthr = int32(n)
	if cap(who) < limit {
		who = make([]uint8, 0, limit)
		alive = make([]uint16, 0, limit)
	}
	who, alive = who[:0], alive[:0]
	for i := range fin {
		fin[i] = 0
		gids[i] = 0
	}
	put(&turn, -1)
}

//go:norace
func begin(n, first int) {
	for int(get(&on)) < n {
		runtime.Gosched()
	}
	put(&turn, int32(first))
}

// Threads runs the functions as threads, starting with the given one, with the
// given preemptions; without any, each runs to its end.
func Threads(first int, p []Preempt, limit int, fs ...func()) *Run {
	n := len(fs)
	setup(n, first, p, limit)
	r := &Run{Panics: make([]any, n)}
	var wg sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				r.Panics[i] = recover()
				finish(int32(i))
			}()
			enter(int32(i))
			fs[i]()
		}(i)
	}
	begin(n, first)
	wg.Wait()
	collect(r)
	return r
}

//go:norace
func collect(r *Run) {
	on = 0
	r.Points = int(steps)
	r.Who = append([]uint8{}, who...)
	r.Alive = append([]uint16{}, alive...)
	r.Blocked = blocked != 0
}
