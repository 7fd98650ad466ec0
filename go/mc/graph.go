package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"
)

func init() {
	register("V03", "model_checking", checkV03)
	register("V04", "model_checking", checkV04)
}

// The levels of new points come from the global random source. levelSeeds
// finds, for a graph with limit M, seeds after which the next level drawn is l.
var (
	levelMu   sync.Mutex
	seedCache = map[[2]int]int64{}
)

func levelSeed(m, l int) int64 {
	if s, ok := seedCache[[2]int{m, l}]; ok {
		return s
	}
	mult := 1 / math.Log(float64(m))
	for s := int64(1); s < 2000000; s++ {
		r := rand.New(rand.NewSource(s))
		if int(math.Floor(-math.Log(r.Float64())*mult)) == l {
			seedCache[[2]int{m, l}] = s
			return s
		}
	}
	return 1
}

// withLevel runs an insertion so that the new point is drawn on level l.
func withLevel(m, l int, f func()) {
	levelMu.Lock()
	defer levelMu.Unlock()
	if m >= 2 {
		rand.Seed(levelSeed(m, l))
	}
	f()
}

func dist(a, b hnsw.Point) float64 {
	s := 0.0
	for i := range a {
		d := float64(a[i]) - float64(b[i])
		s += d * d
	}
	return math.Sqrt(s)
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-5*(1+math.Abs(b)) }

type graphCase struct {
	M, Ef  int
	Points []hnsw.Point // the first is the entry point
	Levels []int        // of the others
}

type link struct {
	id   uint64
	dist float64
}

// items empties a copy of a queue, nearest first.
func items(h *hnsw.DistHeap) ([]link, error) {
	q := h.Clone()
	var out []link
	for !q.IsEmpty() {
		it, err := q.PopMinItem()
		if err != nil {
			return nil, err
		}
		id, d := itemOf(it)
		out = append(out, link{id, float64(d)})
		if len(out) > 200000 {
			return nil, fmt.Errorf("queue does not get empty")
		}
	}
	return out, nil
}

// checkGraph verifies every link of a graph; pts maps ids to points.
func checkGraph(c *Ctx, key string, cs any, h *hnsw.Hnsw, pts map[uint64]hnsw.Point) bool {
	for id := range pts {
		f, err := h.Neighborhood(hnsw.Id(id))
		if err != nil {
			c.Violf(key+":lost", cs, "point %d has no entry in the graph: %v", id, err)
			return false
		}
		for l := 0; l <= f.TopLevel(); l++ {
			q, err := f.GetFriendsAtLevel(l)
			if err != nil {
				c.Violf(key+":level", cs, "links of point %d on level %d: %v", id, l, err)
				return false
			}
			ls, err := items(q)
			if err != nil {
				c.Violf(key+":links", cs, "%v", err)
				return false
			}
			seen := map[uint64]bool{}
			for _, k := range ls {
				p, ok := pts[k.id]
				if !ok || k.id == id || seen[k.id] {
					c.Violf(key+":link", cs, "point %d is linked to %d on level %d (exists: %v, twice: %v)", id, k.id, l, ok, seen[k.id])
					return false
				}
				seen[k.id] = true
				g, err := h.Neighborhood(hnsw.Id(k.id))
				if err != nil || g.TopLevel() < l {
					c.Violf(key+":link-level", cs, "point %d is linked on level %d to %d, which does not exist there", id, l, k.id)
					return false
				}
				if !near(k.dist, dist(p, pts[id])) {
					c.Violf(key+":link-distance", cs, "link %d-%d on level %d has distance %v, the points are %v apart", id, k.id, l, k.dist, dist(p, pts[id]))
					return false
				}
			}
		}
	}
	return true
}

func checkSearch(c *Ctx, key string, cs any, h *hnsw.Hnsw, pts map[uint64]hnsw.Point, q hnsw.Point, k int, exact bool) bool {
	var r *hnsw.DistHeap
	var err error
	if !c.Guard(key+":search", cs, func() { r, err = h.KnnSearch(append(hnsw.Point(nil), q...), k) }) {
		return false
	}
	c.Trace(1)
	if err != nil {
		c.Violf(key+":search", cs, "searching %d nearest of %v failed: %v", k, q, err)
		return false
	}
	ls, err := items(r)
	if err != nil {
		c.Violf(key+":search", cs, "%v", err)
		return false
	}
	bad := ""
	seen := map[uint64]bool{}
	for i, l := range ls {
		p, ok := pts[l.id]
		switch {
		case !ok:
			bad = fmt.Sprintf("unknown point %d", l.id)
		case seen[l.id]:
			bad = fmt.Sprintf("point %d twice", l.id)
		case !near(l.dist, dist(p, q)):
			bad = fmt.Sprintf("point %d at distance %v instead of %v", l.id, l.dist, dist(p, q))
		case i > 0 && l.dist < ls[i-1].dist:
			bad = "points out of order"
		}
		seen[l.id] = true
	}
	if len(ls) > k || k > 0 && len(ls) == 0 {
		bad = fmt.Sprintf("%d points", len(ls))
	}
	if bad == "" && exact {
		var all []float64
		for _, p := range pts {
			all = append(all, dist(p, q))
		}
		sort.Float64s(all)
		if len(ls) != min(k, len(all)) {
			bad = fmt.Sprintf("%d of %d points", len(ls), len(all))
		} else {
			for i := range ls {
				if !near(ls[i].dist, all[i]) {
					bad = fmt.Sprintf("rank %d at distance %v, the nearest remaining point is at %v", i, ls[i].dist, all[i])
				}
			}
		}
	}
	if bad != "" {
		c.Violf(key+":result", map[string]any{"graph": cs, "query": q, "k": k}, "searching %d nearest of %v returned %v: %s", k, q, ls, bad)
		return false
	}
	return true
}

// build runs a case; f is called after every insertion with the new id.
func (g graphCase) build(c *Ctx, key string, f func(h *hnsw.Hnsw, pts map[uint64]hnsw.Point, n int) bool) (*hnsw.Hnsw, map[uint64]hnsw.Point, bool) {
	d := len(g.Points[0])
	var h *hnsw.Hnsw
	pts := map[uint64]hnsw.Point{0: g.Points[0]}
	if !c.Guard(key+":new", g, func() { h = hnsw.NewHnsw(d, g.Ef, g.M, append(hnsw.Point(nil), g.Points[0]...)) }) {
		return nil, nil, false
	}
	for i, p := range g.Points[1:] {
		var id hnsw.Id
		var err error
		ok := true
		withLevel(g.M, g.Levels[i], func() {
			ok = c.Guard(key+":insert", g, func() { id, err = h.InsertVector(append(hnsw.Point(nil), p...)) })
		})
		if !ok {
			return nil, nil, false
		}
		c.Trans(1)
		if err != nil {
			c.Violf(key+":insert", g, "adding point %v failed: %v", p, err)
			return nil, nil, false
		}
		if _, dup := pts[uint64(id)]; dup {
			c.Violf(key+":id", g, "new point got the id %d of an older one", id)
			return nil, nil, false
		}
		pts[uint64(id)] = p
		if f != nil && !f(h, pts, i) {
			return nil, nil, false
		}
	}
	return h, pts, true
}

// graphState fingerprints the whole graph.
func graphState(h *hnsw.Hnsw, pts map[uint64]hnsw.Point) uint64 {
	var b bytes.Buffer
	for id := uint64(0); id < uint64(len(pts)); id++ {
		f, err := h.Neighborhood(hnsw.Id(id))
		if err != nil {
			continue
		}
		fmt.Fprint(&b, id, pts[id])
		for l := 0; l <= f.TopLevel(); l++ {
			if q, err := f.GetFriendsAtLevel(l); err == nil {
				ls, _ := items(q)
				fmt.Fprint(&b, l, ls)
			}
		}
	}
	return H64(b.Bytes())
}

func tuples(k, n int) [][]int {
	out := [][]int{{}}
	for i := 0; i < n; i++ {
		var nx [][]int
		for _, t := range out {
			for x := 0; x < k; x++ {
				nx = append(nx, append(append([]int(nil), t...), x))
			}
		}
		out = nx
	}
	return out
}

func checkV03(c *Ctx) {
	g1 := []hnsw.Point{{0}, {1}, {2.5}, {-4}}
	g2 := []hnsw.Point{{0, 0}, {1, 0}, {0, 2}, {-3, 1}}
	qs1 := []hnsw.Point{{0}, {1}, {2.5}, {-4}, {0.4}, {10}, {-1.9}}
	qs2 := []hnsw.Point{{0, 0}, {1, 0}, {0, 2}, {-3, 1}, {0.6, 0.7}, {9, -9}}
	type set struct {
		name string
		grid []hnsw.Point
		qs   []hnsw.Point
		n    int // points including the entry point
		lv   int // levels 0..lv-1
		m    []int
		ef   []int
	}
	sets := []set{
		{"line", g1, qs1, 2, 3, []int{1, 2, 3, 8}, []int{1, 2, 8}},
		{"line", g1, qs1, 3, 3, []int{1, 2, 3, 8}, []int{1, 2, 8}},
		{"line", g1, qs1, 4, 3, []int{2, 8}, []int{1, 8}},
		{"line", g1, qs1, 5, 1, []int{1, 2, 3}, []int{1, 3}},
		{"plane", g2, qs2, 3, 3, []int{2, 8}, []int{2, 8}},
		{"plane", g2, qs2, 4, 2, []int{2, 8}, []int{1, 2, 8}},
		{"line3", g1[:3], qs1, 5, 2, []int{2, 8}, []int{2, 8}},
		{"line2", g1[:2], qs1[:4], 6, 2, []int{2, 8}, []int{2, 8}},
	}
	if c.Thorough {
		sets = append(sets, set{"line", g1, qs1, 5, 3, []int{2, 3, 8}, []int{1, 3, 8}}, set{"plane", g2, qs2, 5, 2, []int{2, 8}, []int{2, 8}},
			set{"line3", g1[:3], qs1, 6, 2, []int{2, 8}, []int{3, 8}}, set{"line", g1, qs1, 6, 1, []int{1, 2, 3}, []int{1, 4}})
	}
	for _, s := range sets {
		pts, lvs := tuples(len(s.grid), s.n), tuples(s.lv, s.n-1)
		for _, m := range s.m {
			if m == 1 && s.lv > 1 {
				lvs = tuples(1, s.n-1)
			} else {
				lvs = tuples(s.lv, s.n-1)
			}
			for _, ef := range s.ef {
				m, ef := m, ef
				key := fmt.Sprintf("%s%d/M%d/ef%d", s.name, s.n, m, ef)
				exact := m >= s.n && ef >= s.n
				c.Par(len(pts), func(pi int) {
					for _, lv := range lvs {
						g := graphCase{M: m, Ef: ef, Levels: lv}
						for _, x := range pts[pi] {
							g.Points = append(g.Points, s.grid[x])
						}
						h, ps, ok := g.build(c, key, nil)
						if !ok {
							continue
						}
						c.State(graphState(h, ps))
						if !checkGraph(c, key, g, h, ps) {
							return
						}
						for _, q := range s.qs {
							for k := 0; k <= s.n+1; k++ {
								if !checkSearch(c, key, g, h, ps, q, k, exact) {
									return
								}
							}
						}
					}
				})
			}
		}
	}
	// larger graphs in systematic arrangements and with systematic levels
	arr := map[string]func(i int) hnsw.Point{
		"line":     func(i int) hnsw.Point { return hnsw.Point{float32(i), 0, 1} },
		"back":     func(i int) hnsw.Point { return hnsw.Point{-float32(i), 2, 1} },
		"same":     func(i int) hnsw.Point { return hnsw.Point{3, 3, 3} },
		"two-ends": func(i int) hnsw.Point { return hnsw.Point{float32(i%2)*100 + float32(i), 0, 0} },
		"grid":     func(i int) hnsw.Point { return hnsw.Point{float32(i % 3), float32(i / 3 % 3), float32(i / 9)} },
		"spiral": func(i int) hnsw.Point {
			return hnsw.Point{float32(i) * float32(math.Cos(float64(i))), float32(i) * float32(math.Sin(float64(i))), 0}
		},
		"shrinking": func(i int) hnsw.Point { return hnsw.Point{1000 / float32(i+1), 0, 0} },
	}
	levels := map[string]func(i int) int{
		"flat": func(i int) int { return 0 }, "up": func(i int) int { return i / 6 }, "alternate": func(i int) int { return i % 3 },
		"ruler": func(i int) int {
			n := 0
			for i++; i%2 == 0; i /= 2 {
				n++
			}
			return n
		}, "down": func(i int) int { return max(0, 4-i/5) }, "ones": func(i int) int { return 1 },
	}
	type job struct {
		a, l     string
		n, m, ef int
	}
	var jobs []job
	for a := range arr {
		for l := range levels {
			for _, x := range [][3]int{{24, 2, 4}, {24, 4, 8}, {40, 8, 16}, {24, 24, 24}, {16, 16, 20}, {24, 3, 1}, {30, 32, 32}} {
				jobs = append(jobs, job{a, l, x[0], x[1], x[2]})
			}
		}
	}
	// more points than common bit sets and small integers hold
	for a := range arr {
		for _, x := range [][3]int{{70, 70, 70}, {140, 140, 150}, {270, 270, 270}, {270, 6, 20}} {
			if x[0] < 200 || a == "line" || a == "spiral" {
				jobs = append(jobs, job{a, "ruler", x[0], x[1], x[2]}, job{a, "flat", x[0], x[1], x[2]})
			}
		}
	}
	sort.Slice(jobs, func(i, k int) bool { return fmt.Sprint(jobs[i]) < fmt.Sprint(jobs[k]) })
	c.Par(len(jobs), func(ji int) {
		j := jobs[ji]
		g := graphCase{M: j.m, Ef: j.ef}
		for i := 0; i < j.n; i++ {
			g.Points = append(g.Points, arr[j.a](i))
			if i > 0 {
				g.Levels = append(g.Levels, min(levels[j.l](i-1), c.maxLevel(j.m)))
			}
		}
		key := "large/" + j.a + "/" + j.l
		cs := map[string]any{"arrangement": j.a, "levels": g.Levels, "points": j.n, "M": j.m, "ef": j.ef}
		exact := j.m >= j.n && j.ef >= j.n
		g.build(c, key, func(h *hnsw.Hnsw, ps map[uint64]hnsw.Point, n int) bool {
			if (j.n < 60 || n%13 == 0 || n >= j.n-2) && !checkGraph(c, key, cs, h, ps) {
				return false
			}
			if n%4 != 3 && n != j.n-2 || j.n > 60 && n != j.n-2 && n != 65 && n != 130 {
				return true
			}
			c.State(graphState(h, ps))
			for _, q := range []hnsw.Point{g.Points[0], g.Points[n], arr[j.a](j.n / 2), {0.5, 0.5, 0.5}, {-50, 20, 3}} {
				for _, k := range []int{0, 1, 2, 5, j.n} {
					if !checkSearch(c, key, cs, h, ps, q, k, exact) {
						return false
					}
				}
			}
			return true
		})
	})
	// points of the wrong dimension
	for d := 1; d <= 3; d++ {
		for _, wrong := range []hnsw.Point{{}, nil, {0}, {1}, {0, 0}, {1, 0}, {1, 2}, {0, 0, 0}, {1, 2, 0}, {1, 2, 3}, {1, 2, 0, 0}, {1, 2, 3, 4}} {
			if len(wrong) == d {
				continue
			}
			g := graphCase{M: 4, Ef: 4, Levels: []int{1, 0, 2}}
			for i := 0; i < 4; i++ {
				g.Points = append(g.Points, vecOf(d, float32(i)))
			}
			h, ps, ok := g.build(c, "wrong-dimension", nil)
			if !ok {
				continue
			}
			before := graphState(h, ps)
			cs := map[string]any{"dimension": d, "point": wrong}
			c.Guard("wrong-dimension", cs, func() {
				if id, err := h.InsertVector(wrong); err == nil {
					c.Violf("wrong-dimension", cs, "a point with %d components was accepted (id %d)", len(wrong), id)
				}
				if r, err := h.KnnSearch(wrong, 2); err == nil {
					c.Violf("wrong-dimension:search", cs, "searching with %d components returned %d points", len(wrong), r.Len())
				}
				for id := hnsw.Id(len(ps)); id < hnsw.Id(len(ps))+3; id++ {
					if _, err := h.Neighborhood(id); err == nil {
						c.Violf("wrong-dimension", cs, "a refused point got the entry %d", id)
					}
				}
				if graphState(h, ps) != before {
					c.Violf("wrong-dimension", cs, "a refused point changed the graph")
				}
				withLevel(4, 0, func() {
					if _, err := h.InsertVector(vecOf(d, 9)); err != nil {
						c.Violf("wrong-dimension", cs, "adding a point after a refused one failed: %v", err)
					}
				})
			})
		}
	}
	c.Note("seeds_used_for_levels", len(seedCache))
	c.Sample(graphCase{M: 2, Ef: 2, Points: []hnsw.Point{{0}, {1}, {1}}, Levels: []int{2, 0}})
	c.rule = "every assignment of grid points and of levels to small numbers of points under several limits; every link of every point checked; every query point and result size; larger graphs in systematic arrangements checked after every insertion"
	c.Assume("coordinates are finite", "levels are set by seeding the random source before every insertion; the level actually taken is read back")
}

func vecOf(d int, x float32) hnsw.Point {
	p := make(hnsw.Point, d)
	for i := range p {
		p[i] = x * float32(i+1)
	}
	return p
}

// maxLevel limits levels to those a seed can be found for quickly.
func (c *Ctx) maxLevel(m int) int {
	switch {
	case m <= 2:
		return 6
	case m <= 4:
		return 4
	case m <= 8:
		return 3
	}
	return 2
}

// vstore is a vector store over small pages.
type vstore struct {
	bt     *btree.BTree
	nb     *bptree.BPTree
	pb, pn *Pager
	rb, rn *rootCell
	h      *hnsw.Hnsw
	m      *vectorpage.VectorPageManager
}

func newVstore(d, ef, m int, entry hnsw.Point, page1, page2 int) *vstore {
	s := &vstore{pb: NewPager(page1), pn: NewPager(page2), rb: &rootCell{}, rn: &rootCell{}}
	s.bt = btree.NewBTree(s.rb, s.pb, uint64(d))
	s.nb = &bptree.BPTree{MetaPage: s.rn, PageFile: s.pn, Width: 41}
	s.h = hnsw.NewHnsw(d, ef, m, append(hnsw.Point(nil), entry...))
	s.m = vectorpage.NewVectorPageManager(s.bt, s.nb, s.h)
	return s
}

// neighbours reads the neighbour tree: id -> stored list.
func (s *vstore) neighbours() (map[uint64][]byte, error) {
	t := &bptree.BPTree{MetaPage: s.rn, PageFile: s.pn, Width: 41}
	it, err := t.Iter(pointer.ReferencedValue{Value: []byte{}})
	if err != nil {
		return nil, err
	}
	out := map[uint64][]byte{}
	for it.Next() {
		k := it.Key()
		if _, dup := out[k.DataPointer.Offset]; dup {
			return nil, fmt.Errorf("two entries for id %d", k.DataPointer.Offset)
		}
		out[k.DataPointer.Offset] = append([]byte(nil), k.Value...)
		if len(out) > 200000 {
			return nil, fmt.Errorf("scan does not end")
		}
	}
	return out, it.Err()
}

// expectNeighbours checks a stored list against the links of a point.
func expectNeighbours(h *hnsw.Hnsw, id uint64, buf []byte) string {
	f, err := h.Neighborhood(hnsw.Id(id))
	if err != nil {
		return err.Error()
	}
	q, err := f.GetFriendsAtLevel(0)
	if err != nil {
		return err.Error()
	}
	ls, err := items(q)
	if err != nil {
		return err.Error()
	}
	if len(buf) != 40 {
		return fmt.Sprintf("list of %d bytes", len(buf))
	}
	dists := map[uint64]float64{}
	top := map[uint64]int{}
	for _, l := range ls {
		dists[l.id] = l.dist
	}
	for l := 0; l <= f.TopLevel(); l++ {
		if q, err := f.GetFriendsAtLevel(l); err == nil {
			x, _ := items(q)
			for _, i := range x {
				top[i.id] = l
			}
		}
	}
	n := min(8, len(ls))
	seen := map[uint64]bool{}
	for i := 0; i < 8; i++ {
		level, fid := int(buf[i*5]), uint64(binary.BigEndian.Uint32(buf[i*5+1:]))
		if i >= n {
			if level != 0 || fid != 0 {
				return fmt.Sprintf("entry %d of %d neighbours is level %d id %d", i, len(ls), level, fid)
			}
			continue
		}
		d, ok := dists[fid]
		if !ok || seen[fid] {
			return fmt.Sprintf("entry %d is %d; links %v", i, fid, ls)
		}
		seen[fid] = true
		if d != ls[i].dist {
			return fmt.Sprintf("entry %d is %d at distance %v, the next nearest is at %v", i, fid, d, ls[i].dist)
		}
		if level != top[fid] {
			return fmt.Sprintf("entry %d (id %d) is recorded on level %d, linked up to level %d", i, fid, level, top[fid])
		}
	}
	return ""
}

// run adds the points of a case to a new store, checking after every addition.
func (g graphCase) run(c *Ctx, key string, page1, page2 int, full bool) {
	d := len(g.Points[0])
	s := newVstore(d, g.Ef, g.M, g.Points[0], page1, page2)
	pts := map[uint64]hnsw.Point{}
	lists := map[uint64][]byte{}
	for i, p := range g.Points[1:] {
		var err error
		ok := true
		arg := append(hnsw.Point(nil), p...)
		withLevel(g.M, g.Levels[i], func() { ok = c.Guard(key+":add", g, func() { err = s.m.AddNode(arg) }) })
		if !ok {
			return
		}
		c.Trans(1)
		if err != nil {
			c.Violf(key+":add", g, "adding point %d %v failed: %v", i+1, p, err)
			return
		}
		if s.pb.err != "" || s.pn.err != "" {
			c.Violf(key+":page", g, "%s%s", s.pb.err, s.pn.err)
			return
		}
		var nid uint64
		found := false
		for id := uint64(0); id < uint64(len(pts)+8); id++ {
			if _, have := pts[id]; have || id == 0 {
				continue
			}
			if _, err := s.h.Neighborhood(hnsw.Id(id)); err == nil {
				nid, found = id, true
			}
		}
		if !found {
			c.Violf(key+":id", g, "added point %d is not in the graph", i+1)
			return
		}
		pts[nid] = p
		got, err := s.neighbours()
		if err != nil {
			c.Violf(key+":neighbours", g, "reading the neighbour tree: %v", err)
			return
		}
		if len(got) != len(pts) {
			c.Violf(key+":neighbours", g, "%d points added, %d entries in the neighbour tree", len(pts), len(got))
			return
		}
		if msg := expectNeighbours(s.h, nid, got[nid]); msg != "" {
			c.Violf(key+":list", g, "neighbour list of point %d: %s", nid, msg)
			return
		}
		lists[nid] = got[nid]
		last := i == len(g.Points)-2
		if !full && !last {
			continue
		}
		for id, l := range lists {
			if !bytes.Equal(l, got[id]) {
				c.Violf(key+":older", g, "adding point %d changed the entry of %d", nid, id)
				return
			}
		}
		bt := btree.NewBTree(s.rb, s.pb, uint64(d))
		for id, p := range pts {
			k, v, err := bt.Find(pointer.ReferencedId{Value: hnsw.Id(id)})
			c.Trace(1)
			if err != nil || k.Value != hnsw.Id(id) || !sameVec(v, p) {
				c.Violf(key+":point", g, "point %d is %v in the vector tree, added as %v (%v)", id, v, p, err)
				return
			}
		}
		if _, v, err := bt.Find(pointer.ReferencedId{Value: hnsw.Id(nid + 1)}); !absent(pointer.ReferencedId{}, v, err) {
			c.Violf(key+":point", g, "the vector tree holds %v under an id that was not added", v)
			return
		}
		c.State(H64(key, s.pb.b, s.pn.b))
	}
	// a refused point leaves both trees as they are
	b0, n0, rb, rn := append([]byte(nil), s.pb.b...), append([]byte(nil), s.pn.b...), s.rb.mp, s.rn.mp
	for _, wrong := range []hnsw.Point{nil, make(hnsw.Point, d+1)} {
		var err error
		if !c.Guard(key+":refuse", g, func() { err = s.m.AddNode(wrong) }) {
			return
		}
		if err == nil {
			c.Violf(key+":refuse", g, "a point of %d components was accepted", len(wrong))
		} else if !bytes.Equal(b0, s.pb.b) || !bytes.Equal(n0, s.pn.b) || rb != s.rb.mp || rn != s.rn.mp {
			c.Violf(key+":refuse", g, "a refused point changed the trees")
		}
	}
}

func checkV04(c *Ctx) {
	g1 := []hnsw.Point{{0}, {1}, {float32(math.Copysign(0, -1))}, {-4.25}}
	g2 := []hnsw.Point{{0, 0}, {1, 0}, {0, 1e20}}
	type set struct {
		name  string
		grid  []hnsw.Point
		n, lv int
		m, ef int
	}
	sets := []set{
		{"line", g1, 4, 3, 4, 4}, {"line", g1, 5, 2, 2, 4}, {"line", g1, 6, 1, 3, 3}, {"plane", g2, 5, 2, 4, 8}, {"plane", g2, 4, 3, 2, 2}, {"plane", g2, 6, 1, 8, 8},
		{"line", g1[:2], 7, 2, 3, 8}, {"line", g1[:3], 6, 1, 1, 2},
	}
	if c.Thorough {
		sets = append(sets, set{"line", g1, 6, 2, 4, 4}, set{"plane", g2, 6, 2, 3, 8}, set{"line", g1[:2], 9, 2, 8, 8}, set{"line", g1, 7, 1, 8, 8})
	}
	for _, s := range sets {
		pts, lvs := tuples(len(s.grid), s.n), tuples(s.lv, s.n-1)
		key := fmt.Sprintf("%s%d/M%d/ef%d", s.name, s.n, s.m, s.ef)
		c.Par(len(pts), func(pi int) {
			for _, lv := range lvs {
				g := graphCase{M: s.m, Ef: s.ef, Levels: lv}
				for _, x := range pts[pi] {
					g.Points = append(g.Points, s.grid[x])
				}
				g.run(c, key, 30+8*len(s.grid[0]), 150, false)
			}
		})
	}
	// more points than fit the recorded list and than fit a page
	arr := []func(i int) hnsw.Point{
		func(i int) hnsw.Point { return hnsw.Point{float32(i), 0, 1} },
		func(i int) hnsw.Point { return hnsw.Point{-float32(i) * 3, 2, 1} },
		func(i int) hnsw.Point { return hnsw.Point{3, 3, 3} },
		func(i int) hnsw.Point { return hnsw.Point{float32(i%2) * 100, float32(i % 3), 0} },
		func(i int) hnsw.Point { return hnsw.Point{float32(i*7%13) / 3, float32(i / 3 % 3), float32(i / 9)} },
	}
	lv := []func(i int) int{func(i int) int { return 0 }, func(i int) int { return i % 3 }, func(i int) int { return max(0, 2-i/5) }, func(i int) int { return min(3, i/5) }}
	c.Par(len(arr)*len(lv)*6, func(ji int) {
		a, l, cf := ji%len(arr), ji/len(arr)%len(lv), ji/len(arr)/len(lv)
		x := [][4]int{{40, 2, 4, 0}, {40, 8, 16, 0}, {24, 24, 24, 0}, {30, 3, 30, 0}, {60, 12, 12, 4096}, {24, 8, 3, 0}}[cf]
		g := graphCase{M: x[1], Ef: x[2]}
		for i := 0; i < x[0]; i++ {
			g.Points = append(g.Points, arr[a](i))
			if i > 0 {
				g.Levels = append(g.Levels, min(lv[l](i-1), c.maxLevel(x[1])))
			}
		}
		p1, p2 := 60, 170
		if x[3] > 0 {
			p1, p2 = x[3], x[3]
		}
		g.run(c, fmt.Sprintf("large/%d/%d/%d", a, l, cf), p1, p2, true)
	})
	// many points whose recorded neighbours are the same
	many := []int{300}
	if c.Thorough {
		many = append(many, 1100)
	}
	c.Par(len(many)*4, func(ji int) {
		n, ef := many[ji/4], []int{1, 1, 2, 4}[ji%4]
		g := graphCase{M: 2, Ef: ef}
		for i := 0; i < n; i++ {
			x := float32(0)
			if ji%4 == 1 && i%3 == 1 {
				x = 5
			}
			g.Points = append(g.Points, hnsw.Point{x, 1})
			if i > 0 {
				g.Levels = append(g.Levels, 0)
			}
		}
		g.run(c, fmt.Sprintf("many/%d/ef%d/%d", n, ef, ji%4), 4096, 4096, false)
	})
	flushLists(c)
	manyPoints(c, 1<<16+40)
	c.Sample(graphCase{M: 2, Ef: 4, Points: []hnsw.Point{{0}, {1}, {1}, {0}, {0}}, Levels: []int{1, 0, 0, 1}})
	c.rule = "every sequence of grid points (with coincident points) and of levels of the stated length added to a store over small pages, both trees read back; larger stores in systematic arrangements, read back after every addition; a refused point at the end of every sequence"
	c.Assume("the neighbour list is checked against the graph right after the addition", "coordinates are finite")
}

// flushLists: neighbour lists written for every way of linking up to three
// points at several levels, with ids and levels of every magnitude.
func flushLists(c *Ctx) {
	type in struct {
		Level int
		Id    uint64
		Dist  float32
	}
	ids := []uint64{0, 1, 255, 256, 65535, 65536, 70000, 1<<24 + 5, 1<<31 + 9, 1<<32 - 1}
	for _, top := range []int{0, 1, 2, 7, 8, 31, 100} {
		levels := []int{0, top / 2, top}
		if top < 2 {
			levels = levels[2-top:]
		}
		nl := len(levels)
		// three points, each linked on one or two of the levels in either order
		for w := 0; w < nl*nl*nl*nl; w++ {
			for rot := range ids {
				var ins []in
				for i := 0; i < 4; i++ {
					k := i % 3
					ins = append(ins, in{levels[w/pow(nl, i)%nl], ids[(rot+k*3)%len(ids)], []float32{2, 0.5, 0.5}[k]})
				}
				for _, n := range []int{1, 2, 3, 5, 8} {
					c.Guard("flush", ins, func() {
						f := hnsw.NewFriends(top)
						max := map[uint64]int{}
						dist := map[uint64]float32{}
						for _, x := range ins {
							f.InsertFriendsAtLevel(x.Level, hnsw.Id(x.Id), x.Dist)
							if l, ok := max[x.Id]; !ok || l < x.Level {
								max[x.Id] = x.Level
							}
							dist[x.Id] = x.Dist
						}
						for again := 0; again < 2; again++ {
							buf, err := f.Flush(n)
							c.Trans(1)
							if err != nil || len(buf) != 5*n {
								c.Violf("flush", ins, "writing %d neighbours: %d bytes, %v", n, len(buf), err)
								return
							}
							last := float32(-1)
							seen := map[uint64]bool{}
							for i := 0; i < n; i++ {
								l, id := int(buf[i*5]), uint64(binary.BigEndian.Uint32(buf[i*5+1:]))
								if i >= len(max) {
									if l != 0 || id != 0 {
										c.Violf("flush", ins, "entry %d of %d neighbours is level %d id %d", i, len(max), l, id)
									}
									continue
								}
								ml, ok := max[id]
								if !ok || seen[id] || l != ml || dist[id] < last {
									c.Violf("flush", ins, "entry %d is level %d id %d: neighbours are linked up to levels %v at distances %v", i, l, id, max, dist)
									return
								}
								last = dist[id]
								seen[id] = true
							}
							for id, d := range dist {
								if !seen[id] && n > 0 && d < last {
									c.Violf("flush", ins, "%d at distance %v is missing from the %d nearest", id, d, n)
									return
								}
							}
						}
						c.Trace(1)
					})
				}
			}
		}
	}
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

// manyPoints: more points than 16 bits count, read back from both trees.
func manyPoints(c *Ctx, n int) {
	c.Guard("count", n, func() {
		s := newVstore(1, 1, 1, hnsw.Point{-1}, 4096, 4096)
		at := func(i int) hnsw.Point { return hnsw.Point{float32(i % 3)} }
		for i := 1; i <= n; i++ {
			if err := s.m.AddNode(at(i)); err != nil {
				c.Violf("count", n, "adding point %d failed: %v", i, err)
				return
			}
			c.Trans(1)
			if i != 300 && (i < 65530 || i%9 != 0) && i != n {
				continue
			}
			got, err := s.neighbours()
			if err != nil || len(got) != i {
				c.Violf("count", n, "%d points added, %d entries in the neighbour tree (%v)", i, len(got), err)
				return
			}
			if _, err := s.h.Neighborhood(hnsw.Id(i)); err == nil {
				if msg := expectNeighbours(s.h, uint64(i), got[uint64(i)]); msg != "" {
					c.Violf("count", n, "neighbour list of point %d: %s", i, msg)
					return
				}
			}
		}
		bt := btree.NewBTree(s.rb, s.pb, 1)
		for i := 1; i <= n; i++ {
			k, v, err := bt.Find(pointer.ReferencedId{Value: hnsw.Id(i)})
			c.Trace(1)
			if err != nil || k.Value != hnsw.Id(i) || !sameVec(v, at(i)) {
				c.Violf("count", n, "point %d is %v in the vector tree, added as %v (%v)", i, v, at(i), err)
				return
			}
		}
	})
}
