// Package c13: the dynamic programming tables.
package c13

import (
	"fmt"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

type entry struct {
	k, s, l int
}

// model is the reference: the live tickets and what they hold.
type model struct {
	live map[int]bool
	val  map[entry]float64
}

func (m *model) clear(k int) {
	for e := range m.val {
		if e.k == k {
			delete(m.val, e)
		}
	}
}

var pos = []int{0, 1}

// agree compares every read of the storer with the model.
func agree(st *spn.Storer, m *model, ns []spn.SPN, tickets int, after string) {
	for k := -1; k <= tickets; k++ {
		t, ok := st.Table(k)
		nd.Assert(ok == m.live[k], "exactly the live tickets have a table after "+after)
		for s, S := range ns {
			any := false
			for _, l := range pos {
				want, has := m.val[entry{k, s, l}]
				any = any || has
				v, ok := st.Entry(k, S, l)
				nd.Assert(ok == has, "an entry exists exactly if it was stored after "+after)
				nd.Assert(st.Exists(k, S, l) == has, "an entry is reported exactly if it was stored after "+after)
				if has {
					nd.Assert(nd.Same(v, want), "an entry holds what was last stored there after "+after)
				}
				if l == 0 {
					u, ok := st.Single(k, S)
					nd.Assert(ok == has && (!has || nd.Same(u, want)), "the first entry is the entry at position 0 after "+after)
				}
				if m.live[k] {
					u, ok := t.Entry(S, l)
					nd.Assert(ok == has && (!has || nd.Same(u, want)), "a table shows the entries of its ticket after "+after)
					nd.Assert(t.Exists(S, l) == has, "a table reports the entries of its ticket after "+after)
				}
			}
			row, ok := st.Value(k, S)
			nd.Assert(ok == any, "a node is listed exactly if something was stored for it after "+after)
			nd.Assert(st.ExistsSPN(k, S) == any, "a node is reported exactly if something was stored for it after "+after)
			for _, l := range pos {
				want, has := m.val[entry{k, s, l}]
				v, ok := row[l]
				nd.Assert(ok == has && (!has || nd.Same(v, want)), "the row of a node holds its entries after "+after)
			}
			if m.live[k] {
				row, ok := t.Value(S)
				nd.Assert(ok == any && t.ExistsSPN(S) == any, "a table lists a node exactly if something was stored for it after "+after)
				n := 0
				for _, l := range pos {
					if _, has := m.val[entry{k, s, l}]; has {
						n++
					}
				}
				nd.Assert(len(row) == n, "the row of a node holds nothing else after "+after)
			}
		}
	}
}

// History: any history of operations behaves like the model.
func History() { history() }

// Conservative: the same when memory is freed eagerly.
func Conservative() {
	sys.MemConservative = true
	history()
}

// Big: many tickets, nodes and positions.
func Big() {
	b := nd.Bound("big", 20)
	sys.MemConservative = nd.Choose("conservative", 2) == 1
	ns := make([]spn.SPN, 3+b/20)
	for i := range ns {
		ns[i] = spn.NewIndicator(i%3, 0)
	}
	pos = []int{0, 1, 5, b, b + 231}
	st := spn.NewStorer()
	m := &model{map[int]bool{}, map[entry]float64{}}
	for i := 0; i < b; i++ {
		k := st.NewTicket()
		nd.Assert(!m.live[k], "a new ticket is different from all the live ones")
		nd.Assume(k == i)
		m.live[k] = true
	}
	c := 0
	fill := func(step int) {
		for k := 0; k < b; k++ {
			for s := range ns {
				for _, l := range pos {
					if c++; c%step != 0 {
						continue
					}
					v := float64(c)
					if c%13 == 0 {
						v = nd.Real(fmt.Sprintf("v%d", c), -10, 10)
					}
					nd.Assert(st.Store(k, ns[s], l, v) == m.live[k], "storing works exactly for live tickets")
					if m.live[k] {
						m.val[entry{k, s, l}] = v
					}
				}
			}
		}
	}
	fill(3)
	agree(st, m, ns, b, "storing")
	q := 2 + nd.Choose("stride", 2)
	for k := 1; k < b; k += q {
		st.Delete(k)
		m.clear(k)
		delete(m.live, k)
	}
	agree(st, m, ns, b, "deleting tickets")
	var ks []int
	for k := 0; k < b; k += 4 {
		if m.live[k] {
			ks = append(ks, k)
			m.clear(k)
		}
	}
	st.ResetTickets(ks...)
	agree(st, m, ns, b, "resetting tickets")
	fill(5)
	for i := 0; i < 3; i++ {
		k := st.NewTicket()
		nd.Assert(!m.live[k], "a new ticket is different from all the live ones after deleting some")
		m.live[k] = true
		if k >= b {
			b = k + 1
		}
	}
	agree(st, m, ns, b, "storing again")
}

func history() {
	ns := []spn.SPN{spn.NewIndicator(0, 0), spn.NewIndicator(0, 0)}
	st := spn.NewStorer()
	other := spn.NewStorer()
	m := &model{map[int]bool{}, map[entry]float64{}}
	issued := 0
	ticket := func(after string) {
		k := st.NewTicket()
		nd.Assert(!m.live[k], "a new ticket is different from all the live ones"+after)
		m.live[k] = true
		nd.Assume(k >= 0 && k < 64)
		if k >= issued {
			issued = k + 1
		}
	}
	store := func(i, k, s, l, how int) {
		v := nd.Real(fmt.Sprintf("v%d", i), -10, 10)
		ok := false
		switch {
		case how == 0:
			ok = st.Store(k, ns[s], l, v)
		case l == 0 && how == 1:
			ok = st.StoreSingle(k, ns[s], v)
		default:
			t, live := st.Table(k)
			nd.Assume(live)
			if l == 0 && how == 2 {
				ok = t.StoreSingle(ns[s], v)
			} else {
				ok = t.Store(ns[s], l, v)
			}
		}
		nd.Assert(ok == m.live[k], "storing works exactly for live tickets")
		if m.live[k] {
			m.val[entry{k, s, l}] = v
		}
	}
	ok := other.NewTicket()
	other.Store(ok, ns[0], 0, 42)
	ticket("")
	ticket("")
	// something is in each table
	store(100, 0, 0, 0, 0)
	store(101, 1, 0, 1, 0)
	agree(st, m, ns, issued, "storing")
	n := nd.Bound("ops", 3)
	for i := 0; i < n; i++ {
		after := ""
		switch nd.Choose(fmt.Sprintf("op%d", i), 6) {
		case 0:
			ticket(" after any history")
			after = "a new ticket"
		case 1:
			k := nd.Choose(fmt.Sprintf("k%d", i), issued+1)
			store(i, k, nd.Choose(fmt.Sprintf("s%d", i), 2), pos[nd.Choose(fmt.Sprintf("l%d", i), 2)], nd.Choose(fmt.Sprintf("how%d", i), 3))
			after = "storing"
		case 2:
			k := nd.Choose(fmt.Sprintf("k%d", i), issued)
			st.Delete(k)
			m.clear(k)
			delete(m.live, k)
			after = "deleting a ticket"
		case 3:
			k := nd.Choose(fmt.Sprintf("k%d", i), issued)
			nd.Assume(m.live[k])
			r := st.Reset(k)
			nd.Assert(r == k, "resetting a ticket returns it")
			m.clear(k)
			m.live[k] = true
			after = "resetting a ticket"
		case 4:
			var ks []int
			for k := 0; k < issued; k++ {
				if m.live[k] && nd.Choose(fmt.Sprintf("r%d_%d", i, k), 2) == 1 {
					ks = append(ks, k)
					m.clear(k)
					m.live[k] = true
				}
			}
			st.ResetTickets(ks...)
			after = "resetting tickets"
		case 5:
			st.Purge()
			m.live = map[int]bool{}
			m.val = map[entry]float64{}
			after = "purging"
		}
		if i == 0 || i == n-1 {
			agree(st, m, ns, issued, after)
		}
	}
	v, ok2 := other.Single(ok, ns[0])
	nd.Assert(ok2 && nd.Same(v, 42), "another storer is not disturbed")
}
