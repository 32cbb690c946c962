// Package c17: the concurrency queue.
package c17

import (
	"runtime"
	"sync"

	"github.com/RenatoGeh/gospn/conc"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// state is what the jobs observe, guarded by its own lock.
type state struct {
	mu      sync.Mutex
	running int
	most    int
	ran     []int
	done    int
}

func (s *state) job(q *conc.SingleQueue) func(int) {
	return func(id int) {
		s.mu.Lock()
		s.running++
		if s.running > s.most {
			s.most = s.running
		}
		s.ran[id]++
		s.mu.Unlock()
		runtime.Gosched()
		s.mu.Lock()
		s.running--
		s.done++
		s.mu.Unlock()
	}
}

func (s *state) finished(n, allowed int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	nd.Assert(s.done == n && s.running == 0, "waiting returns after all the jobs have finished")
	for _, k := range s.ran {
		nd.Assert(k == 1, "every job runs exactly once, with its own number")
	}
	nd.Assert(s.most <= allowed, "no more jobs run at the same time than allowed")
}

// Run: every schedule of n jobs with k allowed.
func Run() {
	n := nd.Choose("jobs", nd.Bound("jobs", 3)+1)
	k := 1 + nd.Choose("allowed", nd.Bound("allowed", 2))
	q := conc.NewSingleQueue(k)
	nd.Assert(q.Allowed() == k, "a queue allows what it was asked to")
	s := &state{ran: make([]int, n)}
	f := s.job(q)
	for i := 0; i < n; i++ {
		q.Run(f, i)
	}
	q.Wait()
	s.finished(n, k)
}

// Again: a queue can be used again after waiting.
func Again() {
	k := 1 + nd.Choose("allowed", 2)
	q := conc.NewSingleQueue(k)
	for round := 0; round < 2; round++ {
		n := nd.Choose("jobs", nd.Bound("jobs", 2)+1)
		s := &state{ran: make([]int, n)}
		f := s.job(q)
		for i := 0; i < n; i++ {
			q.Run(f, i)
		}
		q.Wait()
		s.finished(n, k)
	}
}

// Parallel: with room for all, the jobs can all be running at once: each
// waits for all the others.
func Parallel() {
	n := 1 + nd.Choose("jobs", nd.Bound("jobs", 2))
	q := conc.NewSingleQueue(n)
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		q.Run(func(int) {
			wg.Done()
			wg.Wait()
		}, i)
	}
	q.Wait()
	nd.Assert(true, "jobs that are allowed to run at the same time do")
}

// Progress: a job starts as soon as any running job has finished, even if
// another one goes on until the new job has run.
func Progress() {
	q := conc.NewSingleQueue(2)
	var wg sync.WaitGroup
	wg.Add(1)
	slow := nd.Choose("slow", 2)
	q.Run(func(id int) {
		if id == slow {
			wg.Wait()
		}
	}, 0)
	q.Run(func(id int) {
		if id == slow {
			wg.Wait()
		}
	}, 1)
	q.Run(func(int) { wg.Done() }, 2)
	q.Wait()
	nd.Assert(true, "a job starts when another one has finished")
}

// Default: without a number, the number of processors is used.
func Default() {
	k := []int{0, -1, -100}[nd.Choose("n", 3)]
	q := conc.NewSingleQueue(k)
	nd.Assert(q.Allowed() == runtime.NumCPU(), "by default as many jobs are allowed as there are processors")
	s := &state{ran: make([]int, 2)}
	f := s.job(q)
	q.Run(f, 0)
	q.Run(f, 1)
	q.Wait()
	s.finished(2, q.Allowed())
}

// Submitters: jobs given by two goroutines at once.
func Submitters() {
	n := 1 + nd.Choose("jobs", nd.Bound("jobs", 2))
	k := 1 + nd.Choose("allowed", nd.Bound("allowed", 1))
	q := conc.NewSingleQueue(k)
	s := &state{ran: make([]int, n+1)}
	f := s.job(q)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		q.Run(f, n)
		wg.Done()
	}()
	for i := 0; i < n; i++ {
		q.Run(f, i)
	}
	wg.Wait()
	q.Wait()
	s.finished(n+1, k)
}

// Big: many jobs, many at a time.
func Big() {
	b := nd.Bound("big", 20)
	for _, c := range [][2]int{{12, 7}, {b, b - 3}, {b / 2, 3}, {11, 5}, {8, 4}, {20, 1}, {b, 16}, {b, 17}} {
		n, k := c[0], c[1]
		q := conc.NewSingleQueue(k)
		for round := 0; round < 2; round++ {
			s := &state{ran: make([]int, n)}
			f := s.job(q)
			for i := 0; i < n; i++ {
				q.Run(f, i)
			}
			q.Wait()
			s.finished(n, k)
		}
	}
}

// Waiters: several goroutines wait for room at the same time; none is left
// behind.
func Waiters() {
	k := 1 + nd.Choose("allowed", 3)
	w := nd.Bound("waiters", 2)
	q := conc.NewSingleQueue(k)
	s := &state{ran: make([]int, k+w)}
	f := func(id int) {
		s.mu.Lock()
		s.running++
		if s.running > s.most {
			s.most = s.running
		}
		s.ran[id]++
		s.running--
		s.done++
		s.mu.Unlock()
	}
	var wg sync.WaitGroup
	wg.Add(w)
	for i := 0; i < k; i++ {
		q.Run(f, i)
	}
	for i := 0; i < w; i++ {
		go func(id int) {
			q.Run(f, id)
			wg.Done()
		}(k + i)
	}
	wg.Wait()
	q.Wait()
	s.finished(k+w, k)
}
