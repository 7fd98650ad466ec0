package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() {
	register("I07", "model_checking", checkI07)
	register("I08", "model_checking", checkI08)
}

// failRoot counts root accesses as storage calls of the pager.
type failRoot struct {
	rootCell
	p *Pager
}

func (r *failRoot) Root() (pointer.MemoryPointer, error) {
	if err := r.p.step("getroot"); err != nil {
		return pointer.MemoryPointer{}, err
	}
	return r.rootCell.Root()
}
func (r *failRoot) SetRoot(mp pointer.MemoryPointer) error {
	if err := r.p.step("setroot"); err != nil {
		return err
	}
	return r.rootCell.SetRoot(mp)
}

func (s *tstate) openFail(u *univ, n int) (*bptree.BPTree, *Pager, *failRoot) {
	_, p, _ := s.open(u)
	r := &failRoot{rootCell{mp: s.root}, p}
	p.failAt = n
	return &bptree.BPTree{MetaPage: r, PageFile: p, Data: u.data, DataParser: rawParser{}, Width: u.width}, p, r
}

func sameEntries(k1 []pointer.ReferencedValue, r1 []pointer.MemoryPointer, k2 []pointer.ReferencedValue, r2 []pointer.MemoryPointer) bool {
	if len(k1) != len(k2) {
		return false
	}
	for i := range k1 {
		if !sameKey(k1[i], k2[i]) || r1[i] != r2[i] {
			return false
		}
	}
	return true
}

// treeFaults fails every single storage call of every insertion into every
// reachable small tree. The state at that moment is also what an interruption
// before that call leaves behind.
func treeFaults(c *Ctx, key string, reads bool) {
	us := treeUnivs(c)
	// two failures in a row
	twice := map[string]bool{"deep": true, "deepref": true, "dup": true}
	for _, u := range us {
		u := u
		if c.Thorough {
			twice[u.name] = true
		}
		exploreTree(c, u, func(before, after *tstate, k int, p *Pager, r *rootCell, err error) {
			if err != nil {
				c.Violf(key+"-insert:"+u.name, u.describe(after), "insert failed: %v", err)
				return
			}
			old, oldRecs := u.present(before.mask)
			new_, newRecs := u.present(after.mask)
			for n := 1; n < 200; n++ {
				cs := func() any {
					d := u.describe(before)
					d["inserted"], d["failed_call"] = u.keys[k].String(), n
					return d
				}
				t, pg, rt := before.openFail(u, n)
				var ierr error
				if x := Catch(func() { ierr = t.Insert(u.keys[k], u.recs[k]) }); x != nil {
					c.Violf(key+"-crash:"+u.name, cs(), "insertion crashed: %v", x)
					return
				}
				if !pg.failed {
					break
				}
				c.Trans(1)
				c.evals.Add(1)
				pg.failAt = 0
				ks, rs, serr := scanAll(t, 1000)
				isOld, isNew := sameEntries(ks, rs, old, oldRecs), sameEntries(ks, rs, new_, newRecs)
				if serr != nil || !isOld && !isNew {
					c.Violf(key+"-entries:"+u.name, cs(), "interrupted insertion left %d keys %v (%v), there were %d", len(ks), ks, serr, len(old))
					return
				}
				if reads && ierr == nil {
					c.Violf(key+"-silent:"+u.name, cs(), "a storage failure during the insertion was not reported")
					return
				}
				if rt.mp.Length == 0 && len(old) > 0 {
					c.Violf(key+"-root:"+u.name, cs(), "the root of a non-empty tree was replaced with an empty one")
					return
				}
				// lookups agree with the scan
				for i, kk := range ks {
					if g, rec, err := t.Find(kk); err != nil || !sameKey(g, kk) || rec != rs[i] {
						c.Violf(key+"-find:"+u.name, cs(), "after the failure, %v is not found with its record (%v %v %v)", kk, g, rec, err)
						return
					}
				}
				// failing again while trying again
				if !isNew && twice[u.name] {
					img, root, free := append([]byte(nil), pg.b...), rt.mp, append([]int64(nil), pg.free...)
					for n2 := 1; n2 < 200; n2++ {
						s2 := &tstate{img: img, root: root, free: free}
						t3, pg3, rt3 := s2.openFail(u, n2)
						var ierr error
						if x := Catch(func() { ierr = t3.Insert(u.keys[k], u.recs[k]) }); x != nil {
							c.Violf(key+"-crash:"+u.name, cs(), "trying again crashed: %v (second failed call %d)", x, n2)
							return
						}
						if !pg3.failed {
							break
						}
						c.Trans(1)
						pg3.failAt = 0
						ks, rs, serr := scanAll(t3, 1000)
						isOld, isNew := sameEntries(ks, rs, old, oldRecs), sameEntries(ks, rs, new_, newRecs)
						if serr != nil || !isOld && !isNew {
							c.Violf(key+"-twice:"+u.name, cs(), "insertion interrupted twice (the second time at call %d) left %d keys %v (%v), there were %d", n2, len(ks), ks, serr, len(old))
							return
						}
						t4 := &bptree.BPTree{MetaPage: &rootCell{mp: rt3.mp}, PageFile: pg3, Data: u.data, DataParser: rawParser{}, Width: u.width}
						ierr = t4.Insert(u.keys[k], u.recs[k])
						ks, rs, serr = scanAll(t4, 1000)
						if serr != nil || !sameEntries(ks, rs, new_, newRecs) || (ierr != nil) != isNew {
							c.Violf(key+"-twice:"+u.name, cs(), "inserting a third time (the second failed call was %d): %v; the tree then holds %v (%v), expected %v", n2, ierr, ks, serr, new_)
							return
						}
						c.Trace(1)
					}
				}
				// trying again
				t2 := &bptree.BPTree{MetaPage: &rootCell{mp: rt.mp}, PageFile: pg, Data: u.data, DataParser: rawParser{}, Width: u.width}
				rerr := t2.Insert(u.keys[k], u.recs[k])
				ks, rs, serr = scanAll(t2, 1000)
				if serr != nil || !sameEntries(ks, rs, new_, newRecs) || (rerr != nil) != isNew {
					c.Violf(key+"-retry:"+u.name, cs(), "inserting again: %v; the tree then holds %v (%v), expected %v", rerr, ks, serr, new_)
					return
				}
				// growing on from there
				if !isNew {
					for i := range u.keys {
						if after.mask>>uint(i)&1 == 0 {
							if err := t2.Insert(u.keys[i], u.recs[i]); err != nil {
								c.Violf(key+"-grow:"+u.name, cs(), "inserting %v afterwards: %v", u.keys[i], err)
								return
							}
						}
					}
					all, allRecs := u.present(1<<uint(len(u.keys)) - 1)
					ks, rs, serr = scanAll(t2, 1000)
					if serr != nil || !sameEntries(ks, rs, all, allRecs) {
						c.Violf(key+"-grow:"+u.name, cs(), "after inserting all other keys the tree holds %v (%v), expected %v", ks, serr, all)
						return
					}
				}
				c.Trace(1)
			}
		}, func(s *tstate) {
			if !reads || !c.Thorough && u.name != "inline1" && u.name != "byref" && u.name != "dup" {
				return
			}
			keys, recs := u.present(s.mask)
			for _, pr := range u.probes {
				lookupFaults(c, key, u, s, pr, keys, recs)
			}
		})
	}
}

func lookupFaults(c *Ctx, key string, u *univ, s *tstate, pr pointer.ReferencedValue, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer) {
	lo := lower(keys, pr)
	for mode := 0; mode < 3; mode++ { // find, forward scan, backward scan
		for n := 1; n < 500; n++ {
			t, p, _ := s.openFail(u, n)
			cs := func() any {
				d := u.describe(s)
				d["probe"], d["failed_call"], d["operation"] = pr.String(), n, []string{"find", "scan forward", "scan backward"}[mode]
				return d
			}
			var got []pointer.ReferencedValue
			var err error
			if x := Catch(func() {
				if mode == 0 {
					var k pointer.ReferencedValue
					var mp pointer.MemoryPointer
					k, mp, err = t.Find(pr)
					if err == nil && (mp.Offset != 0 || mp.Length != 0) {
						got = append(got, k)
					}
					return
				}
				var it *bptree.TraversalIterator
				it, err = t.Iter(pr)
				if err != nil {
					return
				}
				step := it.Next
				if mode == 2 {
					step = it.Prev
				}
				for step() {
					got = append(got, it.Key())
				}
				err = it.Err()
			}); x != nil {
				c.Violf(key+"-lookup-crash:"+u.name, cs(), "lookup crashed after a storage failure: %v", x)
				return
			}
			if !p.failed {
				break
			}
			c.Trans(1)
			c.evals.Add(1)
			if !bytes.Equal(p.b, s.img) {
				c.Violf(key+"-lookup-changes:"+u.name, cs(), "a failed lookup changed the file")
				return
			}
			if err == nil {
				c.Violf(key+"-lookup-silent:"+u.name, cs(), "a storage failure was not reported, the result was %v", got)
				return
			}
			// what was delivered before the failure is a prefix of the truth
			for i, g := range got {
				w := lo + i
				if mode == 2 {
					w = lo - 1 - i
				}
				if mode == 0 || w < 0 || w >= len(keys) || !sameKey(g, keys[w]) {
					c.Violf(key+"-lookup-wrong:"+u.name, cs(), "wrong result %v before the failure", got)
					return
				}
			}
			p.failAt = 0
			k, mp, err := t.Find(pr)
			if err != nil || lo < len(keys) && (!sameKey(k, keys[lo]) || mp != recs[lo]) || lo == len(keys) && !zeroMP(mp) {
				c.Violf(key+"-lookup-retry:"+u.name, cs(), "repeating the lookup gave %v %v %v", k, mp, err)
				return
			}
			c.Trace(1)
		}
	}
}

// ---- whole synchronizations ------------------------------------------------

type history struct {
	name   string
	csv    bool
	base   []byte // synchronized before ("" with base=nil: the file does not exist)
	data   []byte // synchronized when the interruption happens
	more   []byte // synchronized when continuing
	search []string
	bad    bool // data holds a line that is refused
	nobase bool
	deep   bool     // also interrupt the continuation
	cache  sync.Map // prefix length -> *dump
}

// ref returns the index of a prefix built in one go.
func (h *history) ref(data []byte) (*dump, error) {
	if d, ok := h.cache.Load(len(data)); ok {
		return d.(*dump), nil
	}
	d, _, err := fresh(h.csv, data, h.search)
	if err == nil {
		h.cache.Store(len(data), d)
	}
	return d, err
}

func (h *history) desc() map[string]any {
	return map[string]any{"history": h.name, "csv": h.csv, "base": firstN(string(h.base), 300), "data": firstN(string(h.data[min(len(h.base), len(h.data)):]), 900), "search": h.search}
}

// lines builds JSON Lines data.
func smallHistories(c *Ctx) []*history {
	var out []*history
	j := func(name, base, add, more string, search ...string) {
		out = append(out, &history{name: name, base: []byte(base), data: []byte(base + add), more: []byte(base + add + more), search: search, deep: true})
		out = append(out, &history{name: name + "-fresh", nobase: true, data: []byte(base + add), more: []byte(base + add + more), search: search, deep: len(base)+len(add) < 60})
	}
	j("scalar", `{"a":1}`+"\n", `{"a":2}`+"\n", `{"a":3}`+"\n")
	j("types", `{"a":1}`+"\n", `{"a":"x","b":true}`+"\n"+`{"c":null,"a":2}`+"\n", `{"b":false}`+"\n")
	j("nested", `{"o":{"x":1}}`+"\n", `{"o":{"y":"s","x":2},"l":[1]}`+"\n", `{"o":{"x":3}}`+"\n")
	j("same-record", `{"a":1,"b":1}`+"\n", `{"a":1,"b":1}`+"\n"+`{"a":1,"b":1}`+"\n"+`{"b":1,"a":1}`+"\n", `{"a":1}`+"\n")
	j("search", `{"t":"hey you"}`+"\n", `{"t":"you two","n":1}`+"\n", `{"t":"you"}`+"\n", "t")
	j("empty-objects", `{}`+"\n", `{}`+"\n"+`{"z":""}`+"\n", `{}`+"\n")
	fs := `{"f0":0`
	for i := 1; i < 12; i++ {
		fs += fmt.Sprintf(`,"f%d":%d`, i, i)
	}
	j("header-page", fs+"}\n", `{"g1":1,"g2":2,"g3":"x","g4":4,"f3":null}`+"\n"+`{"g3":3}`+"\n", `{"f1":true,"g4":5}`+"\n")
	out = append(out,
		&history{name: "csv", csv: true, base: []byte("a,b\n1,x\n"), data: []byte("a,b\n1,x\n2,\n,\"y\"\n"), more: []byte("a,b\n1,x\n2,\n,\"y\"\ntrue,z\n"), deep: true},
		&history{name: "csv-header", csv: true, base: []byte("a,b\n"), data: []byte("a,b\n1,x\n2,\n"), more: []byte("a,b\n1,x\n2,\n3,3\n"), deep: true},
		&history{name: "csv-fresh", csv: true, nobase: true, data: []byte("a,b\n1,x\n2,\n"), more: []byte("a,b\n1,x\n2,\n3,3\n")},
		&history{name: "bad-line", base: []byte(`{"a":1}` + "\n"), data: []byte(`{"a":1}` + "\n" + `{"a":2,"b":"x"}` + "\n" + `{"a":}` + "\n"), more: []byte(`{"a":1}` + "\n" + `{"a":2,"b":"x"}` + "\n" + `{"a":3}` + "\n"), bad: true, deep: true},
		&history{name: "csv-bad-line", csv: true, base: []byte("a,b\n1,x\n"), data: []byte("a,b\n1,x\n2,y\n1,2,3\n"), more: []byte("a,b\n1,x\n2,y\n1,2\n"), bad: true, deep: true},
	)
	return out
}

// splitHistories: every batch in which a node of a tree splits.
func splitHistories(c *Ctx) []*history {
	var out []*history
	type kind struct {
		name   string
		line   func(i int) string
		n      int
		search []string
	}
	kinds := []kind{
		{"num", func(i int) string { return fmt.Sprintf(`{"n":%d}`+"\n", i*7919%100003) }, c.Bound(700, 2500), nil},
		{"asc", func(i int) string { return fmt.Sprintf(`{"n":%d}`+"\n", i) }, c.Bound(700, 2500), nil},
		{"str", func(i int) string { return fmt.Sprintf(`{"s":"v%d"}`+"\n", i*7919%100003) }, c.Bound(1500, 4000), nil},
		{"desc-str", func(i int) string { return fmt.Sprintf(`{"s":"v%05d"}`+"\n", 99999-i) }, c.Bound(1500, 4000), nil},
		{"null", func(i int) string { return "{\"z\":null}\n" }, c.Bound(800, 2000), nil},
		{"search", func(i int) string { return fmt.Sprintf(`{"t":"w%d xy"}`+"\n", i*7%50) }, c.Bound(200, 500), []string{"t"}},
	}
	for _, k := range kinds {
		var ends []int
		var data []byte
		mf := &MemFile{logWrites: true}
		win := 3
		for i := 0; i < k.n; i++ {
			data = append(data, k.line(i)...)
			ends = append(ends, len(data))
		}
		data = append(data, k.line(k.n)...)
		var alone []*history // the splitting record is the first of its batch
		for i := 0; i < k.n; i++ {
			if _, err := syncIndex(mf, false, data[:ends[i]], k.search); err != nil {
				c.Violf("setup", k.name, "%v", err)
				return out
			}
			grew := false
			for _, w := range mf.log {
				grew = grew || len(w.data) >= 4096
			}
			mf.log = nil
			if grew {
				// continue until the next node has split, too
				for _, h := range alone {
					if h.more == nil {
						h.more = data[:ends[i]]
						out = append(out, h)
					}
				}
				if i > 0 {
					alone = append(alone, &history{name: fmt.Sprintf("first-%s-%d", k.name, i), base: data[:ends[i-1]], data: data[:ends[i]], search: k.search})
				}
				if i > win {
					e := min(i+1, k.n-1)
					out = append(out, &history{name: fmt.Sprintf("split-%s-%d", k.name, i), base: data[:ends[i-win]], data: data[:ends[e]], more: data[:ends[e]+len(k.line(e+1))], search: k.search})
				}
			}
		}
	}
	return out
}

// covered checks an index file left behind: whatever the header covers is
// indexed completely, and nothing invented.
func covered(f *MemFile, h *history, all []byte) (d *dump, msg string) {
	d, err := readIndexLenient(f, h.csv, all)
	if err != nil {
		if errors.Is(err, errHeaderUnreadable) {
			return nil, ""
		}
		return nil, fmt.Sprintf("the trees cannot be read: %v", err)
	}
	R := d.meta.ReadOffset
	if R > uint64(len(all)) || R > 0 && all[R-1] != '\n' {
		return d, fmt.Sprintf("the read position %d is not at the end of a line", R)
	}
	lines := uint64(bytes.Count(all[:R], []byte("\n")))
	if h.csv && lines > 0 {
		lines--
	}
	if d.meta.Entries != lines {
		return d, fmt.Sprintf("the header counts %d records up to %d, there are %d", d.meta.Entries, R, lines)
	}
	want, err := h.ref(all[:R:R])
	if err != nil {
		return d, fmt.Sprintf("reference: %v", err)
	}
	for _, x := range want.idx {
		y := d.find(x.name, x.ft)
		if len(x.entries) > 0 && y == nil || y != nil && !subset(x.entries, y.entries) {
			return d, fmt.Sprintf("the header covers %d records up to %d, but entries of %q type %d are missing", d.meta.Entries, R, x.name, x.ft)
		}
	}
	return d, ""
}

// complete compares the entries with an index built in one go.
func complete(f *MemFile, h *history, data []byte) string {
	d, err := readIndex(f.Clone(), h.csv, data)
	if err != nil {
		return fmt.Sprintf("reading failed: %v", err)
	}
	want, err := h.ref(data)
	if err != nil {
		return fmt.Sprintf("reference: %v", err)
	}
	if d.meta != want.meta {
		return fmt.Sprintf("header %+v, expected %+v", d.meta, want.meta)
	}
	if len(d.idx) != len(want.idx) {
		return fmt.Sprintf("%s, expected %s", dumpNames(d), dumpNames(want))
	}
	for _, x := range want.idx {
		y := d.find(x.name, x.ft)
		if y == nil {
			return fmt.Sprintf("no index %q type %d", x.name, x.ft)
		}
		if len(y.entries) != len(x.entries) || !subset(x.entries, y.entries) {
			return fmt.Sprintf("index %q type %d has %d entries, expected %d (or different ones)", x.name, x.ft, len(y.entries), len(x.entries))
		}
	}
	return ""
}

var errHeaderUnreadable = errors.New("file header cannot be read")

// readIndexLenient reads what is committed: header entries that were added but
// never described are skipped.
func readIndexLenient(f *MemFile, csv bool, data []byte) (*dump, error) {
	cl := f.Clone()
	h := handlerOf(csv)
	ix, err := appendable.NewIndexFile(cl, h, nil)
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errHeaderUnreadable, err)
	}
	meta, err := ix.Metadata()
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errHeaderUnreadable, err)
	}
	d := &dump{meta: *meta}
	p, err := ix.Indexes()
	if errors.Is(err, io.EOF) {
		return d, nil
	}
	if err != nil {
		return nil, err
	}
	pages, err := p.Collect()
	if err != nil {
		return nil, err
	}
	for _, pg := range pages {
		b, err := pg.Metadata()
		if err != nil {
			return nil, err
		}
		if len(b) == 0 {
			continue
		}
		im := &appendable.IndexMeta{}
		if err := im.UnmarshalBinary(b); err != nil {
			return nil, err
		}
		di := dIndex{name: im.FieldName, ft: im.FieldType, width: im.Width, total: im.TotalFieldValueLength}
		if im.FieldType != appendable.FieldTypeObject && im.FieldType != appendable.FieldTypeArray {
			t := pg.BPTree(&bptree.BPTree{Data: data, DataParser: h, Width: treeWidth(csv, im)})
			keys, recs, err := scanAll(t, 1<<20)
			if err != nil {
				return nil, fmt.Errorf("tree of %q: %w", im.FieldName, err)
			}
			for i := range keys {
				if i > 0 && refCmp(keys[i-1], keys[i]) >= 0 {
					return nil, fmt.Errorf("tree of %q is out of order", im.FieldName)
				}
				di.entries = append(di.entries, dEntry{keys[i].Value, keys[i].DataPointer, recs[i]})
			}
		}
		d.idx = append(d.idx, di)
	}
	return d, nil
}

func (h *history) baseImage() ([]byte, error) {
	if h.nobase {
		return nil, nil
	}
	mf := &MemFile{}
	_, err := syncIndex(mf, h.csv, h.base, h.search)
	return mf.b, err
}

// loggedSync runs open+synchronize on an image and returns the writes.
func loggedSync(img []byte, h *history, data []byte) ([]memWrite, error) {
	mf := &MemFile{b: append([]byte(nil), img...), logWrites: true}
	_, err := syncIndex(mf, h.csv, data, h.search)
	return mf.log, err
}

func crashPoint(c *Ctx, h *history, img []byte, cs func() any, level int) {
	f := &MemFile{b: img}
	if _, msg := covered(f, h, h.more); msg != "" {
		c.Violf("crash-covered:"+h.name, cs(), "after the interruption: %s", msg)
		return
	}
	if _, err := appendable.NewIndexFile(f.Clone(), handlerOf(h.csv), h.search); err == nil {
		c.Add("reopened_ok", 1)
	} else {
		c.Add("reopened_error", 1)
	}
	for v, data := range [][]byte{h.data, h.more} {
		if v == 0 && (h.bad || level > 0) {
			continue // the data never shrinks
		}
		g := f.Clone()
		_, err := syncIndex(g, h.csv, data, h.search)
		c.Trans(1)
		if err != nil {
			c.Add("continued_error", 1)
			if _, msg := covered(g, h, h.more); msg != "" {
				c.Violf("crash-continue-covered:"+h.name, cs(), "after the refused continuation (%v): %s", err, msg)
				return
			}
			continue
		}
		c.Add("continued_complete", 1)
		if msg := complete(g, h, data); msg != "" {
			c.Violf("crash-continue:"+h.name, cs(), "continuing succeeded but: %s", msg)
			return
		}
	}
	c.evals.Add(1)
	c.Trace(1)
	c.State(H64(h.name, img))
	if level == 0 && h.deep {
		log, err := loggedSync(img, h, h.more)
		if err != nil && len(log) == 0 {
			return
		}
		im := append([]byte(nil), img...)
		for k := 0; k <= len(log); k++ {
			kk := k
			crashPoint(c, h, append([]byte(nil), im...), func() any {
				m := cs().(map[string]any)
				m["second_interruption_after_write"] = kk
				return m
			}, 1)
			if k < len(log) {
				im = applyWrite(im, log[k].off, log[k].data)
			}
		}
	}
}

func checkI07(c *Ctx) {
	treeFaults(c, "tree", false)
	hs := append(smallHistories(c), splitHistories(c)...)
	type job struct {
		h   *history
		img []byte
		log []memWrite
		k   int
	}
	var jobs []job
	for i := range hs {
		h := hs[i]
		c.Guard("setup:"+h.name, h.desc(), func() {
			img, err := h.baseImage()
			if err != nil {
				c.Violf("setup:"+h.name, h.desc(), "%v", err)
				return
			}
			log, err := loggedSync(img, h, h.data)
			if (err != nil) != h.bad {
				c.Violf("setup:"+h.name, h.desc(), "synchronizing returned %v", err)
				return
			}
			for k := 0; k <= len(log); k++ {
				jobs = append(jobs, job{h, img, log, k})
			}
		})
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		cs := func() any {
			d := j.h.desc()
			d["interrupted_after_write"], d["of"] = j.k, len(j.log)
			return d
		}
		c.Guard("crash:"+j.h.name, cs(), func() {
			img := append([]byte(nil), j.img...)
			for _, w := range j.log[:j.k] {
				img = applyWrite(img, w.off, w.data)
			}
			crashPoint(c, j.h, img, cs, 0)
		})
	})
	c.Note("histories", len(hs))
	c.Note("crash_points", len(jobs))
	c.Sample(hs[2].desc())
	c.rule = "every interruption between two writes of: all insertions into all reachable small trees; the synchronizations of 17 small histories (also interrupted a second time while continuing); every synchronization in which a node splits, for six kinds of data. Each left-over file is reopened, read and continued with the same and with further data"
	c.Assume("writes are atomic and reach the file in order")
}

func checkI08(c *Ctx) {
	treeFaults(c, "tree", true)
	hs := smallHistories(c)
	sp := splitHistories(c)
	for i := range sp {
		if i%c.Bound(4, 1) == 0 {
			hs = append(hs, sp[i])
		}
	}
	type job struct {
		h     *history
		img   []byte
		split bool // fail only during Synchronize of an already opened index
		n     int
	}
	var jobs []job
	for i := range hs {
		h := hs[i]
		c.Guard("setup:"+h.name, h.desc(), func() {
			img, err := h.baseImage()
			if err != nil {
				c.Violf("setup:"+h.name, h.desc(), "%v", err)
				return
			}
			mf := &MemFile{b: append([]byte(nil), img...)}
			syncIndex(mf, h.csv, h.data, h.search)
			for n := 1; n <= mf.calls; n++ {
				jobs = append(jobs, job{h, img, false, n})
			}
		})
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		h := j.h
		cs := func() any {
			d := h.desc()
			d["failed_call"] = j.n
			return d
		}
		c.Guard("fault:"+h.name, cs(), func() {
			mf := &MemFile{b: append([]byte(nil), j.img...), failAt: j.n}
			ix, err := syncIndex(mf, h.csv, h.data, h.search)
			c.Trans(1)
			c.evals.Add(1)
			if !mf.failed {
				return
			}
			mf.failAt = 0
			if err == nil {
				c.Violf("fault-silent:"+h.name, cs(), "call %d failed but opening and synchronizing reported success", j.n)
				return
			}
			d, msg := covered(mf, h, h.more)
			if msg != "" {
				c.Violf("fault-covered:"+h.name, cs(), "after the failure (%v): %s", err, msg)
				return
			}
			// what was committed before is still there
			if !h.nobase {
				want, _ := h.ref(h.base)
				if d == nil {
					c.Violf("fault-committed:"+h.name, cs(), "the file header cannot be read any more after the failure (%v)", err)
					return
				}
				for _, x := range want.idx {
					if y := d.find(x.name, x.ft); y == nil || !subset(x.entries, y.entries) {
						c.Violf("fault-committed:"+h.name, cs(), "entries of %q type %d indexed earlier are gone after the failure (%v)", x.name, x.ft, err)
						return
					}
				}
			}
			// trying again, with the same object and after reopening
			for v := 0; v < 2; v++ {
				g := mf.Clone()
				data := h.data
				if h.bad {
					data = h.more
				}
				if v == 0 {
					if ix == nil {
						continue
					}
					g = mf
					err = ix.Synchronize(data)
				} else {
					_, err = syncIndex(g, h.csv, data, h.search)
				}
				if err == nil {
					if msg := complete(g, h, data); msg != "" {
						c.Violf("fault-retry:"+h.name, cs(), "repeating (same object: %v) succeeded but: %s", v == 0, msg)
						return
					}
					c.Add("retry_complete", 1)
				} else if _, msg := covered(g, h, h.more); msg != "" {
					c.Violf("fault-retry-covered:"+h.name, cs(), "after the refused repetition (same object: %v, %v): %s", v == 0, err, msg)
					return
				}
				if v == 0 {
					// go back to the state right after the failure
					mf = &MemFile{b: append([]byte(nil), j.img...), failAt: j.n}
					syncIndex(mf, h.csv, h.data, h.search)
					mf.failAt = 0
				}
			}
			c.Trace(1)
			c.State(H64(h.name, j.n, mf.b))
		})
	})
	// reading an index
	for i := range hs {
		h := hs[i]
		if h.bad || h.nobase {
			continue
		}
		c.Guard("reading:"+h.name, h.desc(), func() {
			_, img, err := fresh(h.csv, h.data, h.search)
			if err != nil {
				c.Violf("setup:"+h.name, h.desc(), "%v", err)
				return
			}
			want, err := readIndex(&MemFile{b: append([]byte(nil), img...)}, h.csv, h.data)
			mf := &MemFile{b: append([]byte(nil), img...)}
			readIndex(mf, h.csv, h.data)
			if err != nil {
				c.Violf("setup:"+h.name, h.desc(), "%v", err)
				return
			}
			c.Par(mf.calls, func(n int) {
				cs := map[string]any{"history": h.desc(), "failed_call": n + 1}
				c.Guard("reading:"+h.name, cs, func() {
					g := &MemFile{b: append([]byte(nil), img...), failAt: n + 1}
					_, err := readIndex(g, h.csv, h.data)
					c.Trans(1)
					c.evals.Add(1)
					if err == nil && g.failed {
						c.Violf("reading-silent:"+h.name, cs, "reading the index back reported success although call %d failed", n+1)
						return
					}
					if !bytes.Equal(g.b, img) {
						c.Violf("reading-changes:"+h.name, cs, "a failed read changed the file")
						return
					}
					g.failAt = 0
					g.pos = 0
					d, err := readIndex(g, h.csv, h.data)
					if err != nil || diffDump(d, want) != "" {
						c.Violf("reading-retry:"+h.name, cs, "repeating: %v", err)
					}
					c.Trace(1)
				})
			})
			// header-level operations
			ops := []func(ix *appendable.IndexFile) (string, error){
				func(ix *appendable.IndexFile) (string, error) {
					n, err := ix.IndexFieldNames()
					return fmt.Sprint(n), err
				},
				func(ix *appendable.IndexFile) (string, error) { m, err := ix.Metadata(); return fmt.Sprint(m), err },
				func(ix *appendable.IndexFile) (string, error) {
					p, err := ix.Indexes()
					if err != nil {
						return "", err
					}
					all, err := p.Collect()
					return fmt.Sprint(len(all)), err
				},
				func(ix *appendable.IndexFile) (string, error) {
					last := want.idx[len(want.idx)-1]
					p, m, err := ix.FindOrCreateIndex(last.name, last.ft)
					if err != nil {
						return "", err
					}
					r, err := p.Root()
					return fmt.Sprint(*m, r), err
				},
			}
			for oi, op := range ops {
				g0 := &MemFile{b: append([]byte(nil), img...)}
				ix, _ := appendable.NewIndexFile(g0, handlerOf(h.csv), nil)
				base := g0.calls
				exp, err := op(ix)
				if err != nil {
					c.Violf("header-op:"+h.name, h.desc(), "operation %d: %v", oi, err)
					continue
				}
				for n := 1; n <= g0.calls-base; n++ {
					g := &MemFile{b: append([]byte(nil), img...)}
					ix, _ := appendable.NewIndexFile(g, handlerOf(h.csv), nil)
					g.failAt, g.counted = n, 0
					got, err := op(ix)
					c.Trans(1)
					c.evals.Add(1)
					if g.failed && err == nil {
						c.Violf("header-op-silent:"+h.name, map[string]any{"operation": oi, "failed_call": n}, "the failure was not reported, result %s", got)
					}
					g.failAt = 0
					if again, err := op(ix); err != nil || again != exp || !bytes.Equal(g.b, img) {
						c.Violf("header-op-retry:"+h.name, map[string]any{"operation": oi, "failed_call": n}, "repeating gave %s %v, expected %s", again, err, exp)
					}
				}
			}
		})
	}
	c.Note("histories", len(hs))
	c.Note("failed_calls_in_synchronization", len(jobs))
	c.Sample(hs[1].desc())
	c.rule = "every single read, write, seek, page allocation and release failing once, in: all insertions, lookups and scans of all reachable small trees; opening and synchronizing for small histories and node-splitting batches; reading a whole index back; header operations"
	c.Assume("a failed call has no effect and reports an error other than end of file")
}
