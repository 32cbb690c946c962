// Package c14: queues and stacks.
package c14

import (
	"fmt"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func agree(c common.Collection, m []int, msg string) {
	nd.Assert(c.Size() == len(m), msg+" has the right size")
	nd.Assert(c.Empty() == (len(m) == 0), msg+" knows whether it is empty")
	for i, x := range m {
		y, ok := c.Get(i).(int)
		nd.Assert(ok && y == x, msg+" holds the right elements in the right order")
	}
}

func drawn(e interface{}, x int, msg string) {
	y, ok := e.(int)
	nd.Assert(ok && y == x, msg)
}

func shrinking() {
	sys.MemConservative = nd.Choose("conservative", 2) == 1
	sys.MemLowBoundShrink = []int{1024, 0, 1, 3}[nd.Choose("shrink", 4)]
}

func fresh(i int) int { return nd.Int(fmt.Sprintf("e%d", i), -1<<40, 1<<40) }

// Queue: any history of operations behaves like a sequence.
func Queue() {
	shrinking()
	q := &common.Queue{}
	other := &common.Queue{}
	other.Enqueue(7)
	var m []int
	n := nd.Bound("ops", 6)
	for i := 0; i < n; i++ {
		switch nd.Choose(fmt.Sprintf("op%d", i), 8) {
		case 0:
			x := fresh(i)
			q.Enqueue(x)
			m = append(m, x)
		case 1:
			x := fresh(i)
			q.Give(x)
			m = append(m, x)
		case 2:
			nd.Assume(len(m) > 0)
			drawn(q.Dequeue(), m[0], "a queue gives back its first element first")
			m = append([]int{}, m[1:]...)
		case 3:
			nd.Assume(len(m) > 0)
			drawn(q.Take(), m[0], "a queue gives back its first element first")
			m = append([]int{}, m[1:]...)
		case 4:
			nd.Assume(len(m) > 0)
			drawn(q.DequeueBack(), m[len(m)-1], "the back of a queue is its last element")
			m = append([]int{}, m[:len(m)-1]...)
		case 5:
			r := q.Invert()
			nd.Assert(r == common.Collection(q), "inverting a queue returns the queue")
			m = rev(m)
		case 6:
			q.Reset()
			m = nil
		case 7:
			q.Shrink()
		}
		agree(q, m, "a queue")
		if len(m) > 0 {
			drawn(q.Peek(), m[0], "peeking at a queue shows its first element")
		}
	}
	agree(other, []int{7}, "another queue")
}

func rev(m []int) []int {
	var r []int
	for i := len(m) - 1; i >= 0; i-- {
		r = append(r, m[i])
	}
	return r
}

// Stack: any history of operations behaves like a sequence.
func Stack() {
	shrinking()
	s := &common.Stack{}
	other := &common.Stack{}
	other.Push(7)
	var m []int
	n := nd.Bound("ops", 6)
	for i := 0; i < n; i++ {
		switch nd.Choose(fmt.Sprintf("op%d", i), 7) {
		case 0:
			x := fresh(i)
			s.Push(x)
			m = append(m, x)
		case 1:
			x := fresh(i)
			s.Give(x)
			m = append(m, x)
		case 2:
			nd.Assume(len(m) > 0)
			drawn(s.Pop(), m[len(m)-1], "a stack gives back its last element first")
			m = append([]int{}, m[:len(m)-1]...)
		case 3:
			nd.Assume(len(m) > 0)
			drawn(s.Take(), m[len(m)-1], "a stack gives back its last element first")
			m = append([]int{}, m[:len(m)-1]...)
		case 4:
			r := s.Invert()
			nd.Assert(r == common.Collection(s), "inverting a stack returns the stack")
			m = rev(m)
		case 5:
			s.Reset()
			m = nil
		case 6:
			s.Shrink()
		}
		agree(s, m, "a stack")
		if len(m) > 0 {
			drawn(s.Peek(), m[len(m)-1], "peeking at a stack shows its last element")
		}
	}
	agree(other, []int{7}, "another stack")
}

// Bulk: many elements, in and out in any mixture of phases.
func Bulk() {
	shrinking()
	var c common.Collection
	kind := nd.Choose("kind", 2)
	if kind == 0 {
		c = &common.Queue{}
	} else {
		c = &common.Stack{}
	}
	var m []int
	k := 0
	n := nd.Bound("phases", 4)
	for i := 0; i < n; i++ {
		d := []int{0, 1, 5, 17, 70}[nd.Choose(fmt.Sprintf("n%d", i), 5)]
		if i%2 == 0 {
			for j := 0; j < d; j++ {
				c.Give(k)
				m = append(m, k)
				k++
			}
		} else {
			for j := 0; j < d && len(m) > 0; j++ {
				if kind == 0 {
					drawn(c.Take(), m[0], "a queue gives back its first element first")
					m = m[1:]
				} else {
					drawn(c.Take(), m[len(m)-1], "a stack gives back its last element first")
					m = m[:len(m)-1]
				}
			}
		}
		agree(c, m, "a collection")
	}
}
