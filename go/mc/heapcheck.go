package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/kevmo314/appendable/pkg/hnsw"
)

func init() { register("V02", "model_checking", checkV02) }

// itemOf reads the id and the distance of a queue item, whatever its fields
// are called.
func itemOf(it *hnsw.Item) (id uint64, dist float32) {
	v := reflect.ValueOf(it).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Kind() {
		case reflect.Uint, reflect.Uint64, reflect.Uint32:
			id = f.Uint()
		case reflect.Float32, reflect.Float64:
			dist = float32(f.Float())
		}
	}
	return
}

// queue pairs a real queue with its model.
type queue struct {
	h *hnsw.DistHeap
	m map[uint64]float32
	// how small numbers become distances, keeping their order
	scale int
}

var scaleNames = []string{"as they are", "the smallest above zero", "next to one", "up to infinity"}

func newQueue(scale int) *queue {
	return &queue{h: hnsw.NewDistHeap(), m: map[uint64]float32{}, scale: scale}
}

func scaled(scale int, d float32) float32 {
	switch scale {
	case 1:
		return float32(math.SmallestNonzeroFloat32) * (d + 2)
	case 2:
		return 1 + (d+2)*(1.0/(1<<23))
	case 3:
		return d * 1e37
	}
	return d
}

func (q *queue) ends() (lo, hi float32) {
	lo, hi = float32(math.Inf(1)), float32(math.Inf(-1))
	for _, d := range q.m {
		lo, hi = min(lo, d), max(hi, d)
	}
	return
}

// observe compares size and both ends; it returns "" if all is well.
func (q *queue) observe() string {
	if q.h.Len() != len(q.m) || q.h.IsEmpty() != (len(q.m) == 0) {
		return fmt.Sprintf("holds %d distinct ids but reports size %d, empty %v", len(q.m), q.h.Len(), q.h.IsEmpty())
	}
	lo, hi := q.ends()
	for i, f := range []func() (*hnsw.Item, error){q.h.PeekMinItem, q.h.PeekMaxItem} {
		it, err := f()
		want, name := lo, "nearest"
		if i == 1 {
			want, name = hi, "farthest"
		}
		if len(q.m) == 0 {
			if err == nil {
				return "looking at the " + name + " entry of an empty queue reports no error"
			}
			continue
		}
		if err != nil || it == nil {
			return fmt.Sprintf("looking at the %s entry failed: %v", name, err)
		}
		id, d := itemOf(it)
		if have, ok := q.m[id]; !ok || have != d || d != want {
			return fmt.Sprintf("%s entry is %d at %v; entries %v", name, id, d, q.m)
		}
	}
	return ""
}

func (q *queue) insert(id uint64, d float32) {
	d = scaled(q.scale, d)
	q.h.Insert(hnsw.Id(id), d)
	q.m[id] = d
}

func (q *queue) pop(max bool) string {
	f, name := q.h.PopMinItem, "nearest"
	if max {
		f, name = q.h.PopMaxItem, "farthest"
	}
	it, err := f()
	if len(q.m) == 0 {
		if !errors.Is(err, hnsw.EmptyHeapError) {
			return fmt.Sprintf("removing from an empty queue reports %v", err)
		}
		return ""
	}
	if err != nil || it == nil {
		return fmt.Sprintf("removing the %s entry failed: %v", name, err)
	}
	id, d := itemOf(it)
	lo, hi := q.ends()
	want := lo
	if max {
		want = hi
	}
	if have, ok := q.m[id]; !ok || have != d || d != want {
		return fmt.Sprintf("removed %d at %v as the %s; entries %v", id, d, name, q.m)
	}
	delete(q.m, id)
	return ""
}

func (q *queue) clone() *queue {
	n := &queue{h: q.h.Clone(), m: map[uint64]float32{}, scale: q.scale}
	for k, v := range q.m {
		n.m[k] = v
	}
	return n
}

// drain empties the queue following the bits of mask (1: farthest).
func (q *queue) drain(mask int) string {
	for i := 0; len(q.m) > 0; i++ {
		if s := q.pop(mask>>(i%16)&1 == 1); s != "" {
			return s
		}
	}
	if s := q.observe(); s != "" {
		return s
	}
	return q.pop(mask&1 == 1)
}

func checkV02(c *Ctx) {
	// (1) every word of operations, copies included
	ids, dists := []uint64{3, 1 << 40, 0, 9}, []float32{0, 1.5, 7}
	type op struct {
		name string
		kind int // 0 insert 1 popmin 2 popmax 3 copy and go on with the copy 4 copy and go on with the original
		id   uint64
		d    float32
	}
	var ops []op
	for _, id := range ids[:c.Bound(3, 4)] {
		for _, d := range dists {
			ops = append(ops, op{fmt.Sprintf("insert(%d,%v)", id, d), 0, id, d})
		}
	}
	ops = append(ops, op{"popmin", 1, 0, 0}, op{"popmax", 2, 0, 0}, op{"copy, use copy", 3, 0, 0}, op{"copy, use original", 4, 0, 0})
	depth := 6
	words(c, len(ops), depth, func(w []int) {
		var hist []string
		c.Guard("word", hist, func() {
			q := newQueue(0)
			var others []*queue
			for i, o := range w {
				op := ops[o]
				hist = append(hist, op.name)
				msg := ""
				switch op.kind {
				case 0:
					q.insert(op.id, op.d)
				case 1, 2:
					msg = q.pop(op.kind == 2)
				case 3:
					n := q.clone()
					others = append(others, q)
					q = n
				case 4:
					others = append(others, q.clone())
				}
				if msg == "" && i == len(w)-1 {
					msg = q.observe()
				}
				if msg != "" {
					c.Violf("word:"+fmt.Sprint(op.kind), hist, "%s", msg)
					return
				}
			}
			c.Trans(len(w))
			c.Trace(1)
			c.State(H64("w", fmt.Sprint(q.m), len(others)))
			for _, o := range append(others, q) {
				if msg := o.observe(); msg != "" {
					c.Violf("word:copy", hist, "%s", msg)
					return
				}
			}
			for i, o := range append([]*queue{q}, others...) {
				if msg := o.drain(0b0101101001011010 >> i); msg != "" {
					c.Violf("word:drain", hist, "%s", msg)
					return
				}
			}
		})
	})
	// (2) larger queues: every insertion order, then every single change of
	// distance, then emptying from both ends in several patterns
	n := c.Bound(7, 8)
	masks := []int{0, 0xffff, 0x5555, 0xaaaa, 0x00ff, 0x3333}
	perms := permutations(n)
	c.Par(len(perms), func(pi int) {
		p := perms[pi]
		mk := func() *queue {
			q := newQueue(pi % 4)
			for _, x := range p {
				q.insert(uint64(x), float32(x*2))
			}
			return q
		}
		desc := map[string]any{"distances": scaleNames[pi%4], "inserted_distances": p}
		c.Guard("order", desc, func() {
			for _, m := range masks {
				q := mk()
				if msg := q.observe(); msg != "" {
					c.Violf("order", desc, "%s", msg)
					return
				}
				if msg := q.drain(m); msg != "" {
					c.Violf("order-drain", desc, "%s", msg)
					return
				}
				c.Trans(2 * n)
				c.Trace(1)
			}
			for id := 0; id < n; id++ {
				for r := -1; r <= 2*n; r += 1 {
					if r%2 == 0 && r != id*2 && pi%4 != 0 {
						continue // ties: every fourth order
					}
					for k := 0; k < 2; k++ {
						q := mk()
						q.insert(uint64(id), float32(r))
						d := map[string]any{"distances": scaleNames[pi%4], "inserted_distances": p, "changed_id": id, "to": r, "drain": masks[k]}
						if msg := q.observe(); msg != "" {
							c.Violf("update", d, "%s", msg)
							return
						}
						if msg := q.drain(masks[(k+id)%len(masks)]); msg != "" {
							c.Violf("update-drain", d, "%s", msg)
							return
						}
						c.Trans(2*n + 1)
						c.Trace(1)
					}
				}
			}
		})
	})
	// (3) queues of up to 40 entries in systematic orders, changing every entry
	// to every rank, and removing one entry after every insertion
	var jobs []string
	for _, o := range []string{"asc", "desc", "zigzag", "stride", "inside-out"} {
		for _, s := range []int{8, 12, 15, 16, 17, 31, 32, 40} {
			jobs = append(jobs, fmt.Sprintf("%s %d", o, s))
		}
	}
	c.Par(len(jobs), func(ji int) {
		var o string
		var s int
		fmt.Sscanf(jobs[ji], "%s %d", &o, &s)
		order := permOrder(o, s)
		c.Guard("large", jobs[ji], func() {
			base := newQueue(ji / 3 % 4)
			for _, x := range order {
				base.insert(uint64(x), float32(x*2))
				if msg := base.observe(); msg != "" {
					c.Violf("large", jobs[ji], "%s", msg)
					return
				}
			}
			for id := 0; id < s; id++ {
				for r := -1; r <= 2*s; r++ {
					q := base.clone()
					q.insert(uint64(id), float32(r))
					msg := q.observe()
					if msg == "" {
						msg = q.drain(masks[(id+r+1)%len(masks)])
					}
					c.Trans(s)
					c.Trace(1)
					if msg != "" {
						c.Violf("large-update", map[string]any{"queue": jobs[ji], "changed_id": id, "to": r}, "%s", msg)
						return
					}
				}
			}
			if msg := base.observe(); msg != "" {
				c.Violf("large-copy", jobs[ji], "the original changed with its copies: %s", msg)
			}
			for k := 1; k <= 6; k++ { // interleave insertions and removals
				q := newQueue(ji / 3 % 4)
				for i, x := range order {
					q.insert(uint64(x), float32(x*2))
					if i%k == k-1 {
						if msg := q.pop(i/k%2 == 1); msg != "" {
							c.Violf("large-mixed", jobs[ji], "%s", msg)
							return
						}
					}
					q.insert(uint64(x/2), float32(2*s-x))
					if msg := q.observe(); msg != "" {
						c.Violf("large-mixed", jobs[ji], "%s", msg)
						return
					}
				}
				if msg := q.drain(masks[k%len(masks)]); msg != "" {
					c.Violf("large-mixed", jobs[ji], "%s", msg)
				}
				c.Trace(1)
			}
			keys := []int{}
			for k := range base.m {
				keys = append(keys, int(k))
			}
			sort.Ints(keys)
			c.State(H64("l", jobs[ji], fmt.Sprint(keys)))
		})
	})
	// (4) sizes around those of common bit sets and small integers
	var many []string
	for _, o := range []string{"asc", "desc", "zigzag", "stride", "inside-out"} {
		for _, s := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1100} {
			many = append(many, fmt.Sprintf("%s %d", o, s))
		}
	}
	c.Par(len(many), func(ji int) {
		var o string
		var s int
		fmt.Sscanf(many[ji], "%s %d", &o, &s)
		c.Guard("many", many[ji], func() {
			for mi, m := range masks {
				q := newQueue(mi % 4)
				for i, x := range permOrder(o, s) {
					q.insert(uint64(x)<<(s%40), float32(x*2))
					if i%50 == 49 || i > s-3 {
						if msg := q.observe(); msg != "" {
							c.Violf("many", many[ji], "%s", msg)
							return
						}
					}
				}
				q.insert(uint64(s/2)<<(s%40), -1)
				q.insert(uint64(s-1)<<(s%40), float32(s)+0.5)
				n := q.clone()
				for k := 0; k < 5; k++ {
					n.pop(k%2 == 0)
				}
				if msg := q.drain(m); msg != "" {
					c.Violf("many-drain", many[ji], "%s", msg)
					return
				}
				if msg := n.drain(m); msg != "" {
					c.Violf("many-copy", many[ji], "%s", msg)
					return
				}
				c.Trans(3 * s)
				c.Trace(1)
			}
			// changing the distance of entries everywhere, in copies and in the original
			if s > 300 {
				return
			}
			q := newQueue(ji % 4)
			for _, x := range permOrder(o, s) {
				q.insert(uint64(x), float32(x*2))
			}
			for id := ji % 3; id < s; id += c.Bound(11, 3) {
				for k, r := range []int{-1, s/2*2 + 1, 2 * s, id*2 - 1, id*2 + 1, id*2 + 20} {
					n := q.clone()
					a, b := n, q
					if k%2 == 1 {
						a, b = q, n // the original changes, the copy must not
					}
					was := a.m[uint64(id)]
					a.insert(uint64(id), float32(r))
					msg := a.observe()
					if msg == "" {
						msg = b.observe()
					}
					if msg == "" {
						msg = n.drain(masks[(id+k)%len(masks)])
					}
					c.Trans(s)
					c.Trace(1)
					if msg != "" {
						c.Violf("many-update", map[string]any{"queue": many[ji], "distances": scaleNames[ji%4], "changed_id": id, "to": r, "from": was, "original_changed": k%2 == 1}, "%s", msg)
						return
					}
				}
			}
			if msg := q.drain(masks[ji%len(masks)]); msg != "" {
				c.Violf("many-update", many[ji], "%s", msg)
			}
		})
		c.State(H64("m", many[ji]))
	})
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	c.Sample(map[string]any{"operations": names, "word_length": depth})
	c.rule = "every word of queue operations of the stated length; every insertion order of a set of entries followed by every change of one distance and several emptying patterns; larger queues in systematic orders; size and both ends compared with a plain map after the operations, copies compared with their own maps"
	c.Assume("distances are ordinary numbers (no NaN)")
}
