package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
)

func init() {
	register("I02", "model_checking", checkI02)
	register("I03", "model_checking", checkI03)
}

// fresh returns the index of data built in one go, for comparison.
func fresh(csv bool, data []byte, search []string) (*dump, []byte, error) {
	f := &MemFile{}
	if _, err := syncIndex(f, csv, data, search); err != nil {
		return nil, nil, err
	}
	d, err := readIndex(&MemFile{b: append([]byte(nil), f.b...)}, csv, data)
	return d, f.b, err
}

// incr checks that growing a file through the given prefix lengths gives the
// same index as building it once. reopen: bit i set means the index is
// reopened before the i-th synchronization.
type incrFile struct {
	csv    bool
	data   []byte
	search []string
	fresh  []*dump // per prefix length
	brief  string  // shown instead of long data
}

func newIncrFile(c *Ctx, key string, csv bool, data []byte, search []string) *incrFile {
	f := &incrFile{csv: csv, data: data, search: search, fresh: make([]*dump, len(data)+1)}
	ok := true
	c.Guard(key+"-fresh", string(data), func() {
		for p := range f.fresh {
			d, _, err := fresh(csv, data[:p:p], search)
			if err != nil {
				c.Violf(key+"-fresh", map[string]any{"data": string(data[:p])}, "indexing valid data failed: %v", err)
				ok = false
				return
			}
			f.fresh[p] = d
		}
	})
	if !ok || f.fresh[len(data)] == nil {
		return nil
	}
	return f
}

func (f *incrFile) run(c *Ctx, key string, cuts []int, reopen uint) {
	cs := func() any {
		d := string(f.data)
		if f.brief != "" {
			d = f.brief
		}
		return map[string]any{"data": d, "appends_up_to": append([]int(nil), cuts...), "reopen_mask": reopen, "search": f.search}
	}
	c.Guard(key, cs(), func() {
		mf := &MemFile{}
		var ix *appendable.IndexFile
		var err error
		for i, p := range cuts {
			if ix == nil || reopen&(1<<uint(i%32)) != 0 {
				mf.pos = 0
				if ix, err = appendable.NewIndexFile(mf, handlerOf(f.csv), f.search); err != nil {
					c.Violf(key+"-open", cs(), "opening the index before append %d failed: %v", i, err)
					return
				}
			}
			var before []byte
			again := i > 0 && cuts[i-1] == p
			if again {
				before = append([]byte(nil), mf.b...)
			}
			if err := ix.Synchronize(f.data[:p:p]); err != nil {
				c.Violf(key+"-error", cs(), "synchronizing up to %d failed: %v", p, err)
				return
			}
			c.Trans(1)
			if again && !bytes.Equal(before, mf.b) {
				c.Violf(key+"-idle", cs(), "synchronizing again without new data changed the index")
				return
			}
			d, err := readIndex(&MemFile{b: mf.b}, f.csv, f.data[:p:p])
			if err != nil {
				c.Violf(key+"-read", cs(), "reading the index after append %d (up to %d) failed: %v", i, p, err)
				return
			}
			if s := diffDump(d, f.fresh[p]); s != "" {
				c.Violf(key, cs(), "after append %d (up to %d of %d): %s", i, p, len(f.data), s)
				return
			}
		}
		c.Trace(1)
		c.State(H64(mf.b))
	})
}

// allCuts runs every single and every pair of append boundaries, with and
// without reopening, plus byte-by-byte growth.
func (f *incrFile) allCuts(c *Ctx, key string, triples bool) {
	n := len(f.data)
	c.Par(n+1, func(i int) {
		f.run(c, key, []int{i, n, n}, 2)
		f.run(c, key, []int{i, i, n}, 4)
		for j := i; j <= n; j++ {
			for _, r := range []uint{0, 2, 4, 6} {
				f.run(c, key, []int{i, j, n}, r)
			}
			if triples {
				for k := j; k <= n; k++ {
					f.run(c, key, []int{i, j, k, n}, uint(i*7+j*3+k)%16)
				}
			}
			if c.Expired("cuts") {
				return
			}
		}
	})
	for _, step := range []int{1, 2, 3, 7} {
		for _, r := range []uint{0, 0xffffffff, 0xaaaaaaaa} {
			var cuts []int
			for p := 0; p < n; p += step {
				cuts = append(cuts, p)
			}
			f.run(c, key, append(cuts, n, n), r)
		}
	}
}

func checkI02(c *Ctx) {
	recs := []jval{
		jobj(jf("a", jnum(1, "1"))), jobj(jf("b", jstr("x", `"x"`)), jf("a", jnull())), jobj(jf("o", jobj(jf("y", jbool(true))))), jobj(jf("a", jstr("hi yo", `"hi yo"`))), jobj(), jobj(jf("a", jarr("[1]"))),
	}
	type job struct {
		data    []byte
		search  []string
		triples bool
	}
	var jobs []job
	for i := range recs {
		for j := range recs {
			f := &jsonlFile{}
			f.add(recs[i], jws{})
			f.add(recs[j], jws{postColon: " "})
			if (i+j)%3 == 0 {
				f.add(recs[(i*5+j+1)%len(recs)], jws{end: "\r"})
			}
			if (i+j)%2 == 0 {
				f.data = append(f.data, `{"a":`...)
			}
			j := job{f.data, nil, len(f.data) < c.Bound(36, 60)}
			if i == 3 || c.Thorough {
				j.search = []string{"a"}
			}
			jobs = append(jobs, j)
		}
	}
	for _, j := range jobs {
		if f := newIncrFile(c, "cuts", false, j.data, j.search); f != nil {
			f.allCuts(c, "cuts", j.triples)
		}
	}
	// larger histories: many batches across node splits
	bigIncrements(c, "batches", false)
	incrSizes(c, "sizes", false)
	farJSONL(c, "far", true)
	c.Sample(map[string]any{"data": string(jobs[3].data), "cuts": "every pair (and triple for short files) of byte positions"})
	c.rule = "for every combination of two or three records: every pair of append boundaries at byte granularity x every reopen pattern, every triple for short files, byte-by-byte growth; batches across node splits; files with lines of up to 70000 bytes (1 MiB) cut around line ends and buffer-sized offsets; appends to files of several GiB; after every synchronization the whole index is compared with one built in one go"
}

// bigIncrements appends records in batches of every size class to indexes
// whose nodes split.
func bigIncrements(c *Ctx, key string, csv bool) {
	sizes := []int{1, 3, 50, 333}
	n := c.Bound(700, 2500)
	c.Par(len(sizes)*2, func(i int) {
		var data []byte
		var ends []int
		if csv {
			data = append(data, "id,name,flag,empty\n"...)
		}
		for k := 0; k < n; k++ {
			v := (k * 7919) % 100003
			if csv {
				data = append(data, fmt.Sprintf("%d,\"n%d\",%v,\n", v, v, k%2 == 0)...)
			} else {
				data = append(data, fmt.Sprintf(`{"id":%d,"name":"n%d","flag":%v,"empty":null,"o":{"f%d":1}}`+"\n", v, v, k%2 == 0, k%31)...)
			}
			ends = append(ends, len(data))
		}
		var cuts []int
		for k := sizes[i/2] - 1; k < n; k += sizes[i/2] {
			cuts = append(cuts, ends[k]-i%2*3) // odd runs end inside a line
		}
		cuts = append(cuts, len(data), len(data))
		cs := map[string]any{"batch": sizes[i/2], "records": n, "csv": csv}
		c.Guard(key, cs, func() {
			want, _, err := fresh(csv, data, nil)
			if err != nil {
				c.Violf(key+"-fresh", cs, "%v", err)
				return
			}
			mf := &MemFile{}
			var ix *appendable.IndexFile
			for q, p := range cuts {
				if ix == nil || q%3 == 0 {
					if ix, err = appendable.NewIndexFile(mf, handlerOf(csv), nil); err != nil {
						c.Violf(key+"-open", cs, "%v", err)
						return
					}
				}
				if err := ix.Synchronize(data[:p:p]); err != nil {
					c.Violf(key+"-error", cs, "batch %d: %v", q, err)
					return
				}
				c.Trans(1)
			}
			d, err := readIndex(&MemFile{b: mf.b}, csv, data)
			if err != nil {
				c.Violf(key+"-read", cs, "%v", err)
				return
			}
			if s := diffDump(d, want); s != "" {
				c.Violf(key, cs, "%s", s)
			}
			c.Trace(1)
			c.State(H64(mf.b))
		})
	})
}

// mutations of a line: every deletion, replacement, insertion and truncation
// over a small set of bytes.
func mutations(line string) []string {
	seen := map[string]bool{line: true}
	var out []string
	add := func(s string) {
		if !seen[s] && !bytes.ContainsRune([]byte(s), '\n') {
			seen[s] = true
			out = append(out, s)
		}
	}
	set := []byte("{}[]\":,x1 -.\\e\x00\x80\xff\t\r")
	for i := 0; i <= len(line); i++ {
		add(line[:i])
		for _, b := range set {
			add(line[:i] + string([]byte{b}) + line[i:])
		}
		if i < len(line) {
			add(line[:i] + line[i+1:])
			for _, b := range set {
				add(line[:i] + string([]byte{b}) + line[i+1:])
			}
		}
	}
	return out
}

// indexable is the oracle for which lines have to be accepted.
func indexable(line string) bool {
	t := bytes.TrimLeft([]byte(line), " \t\r")
	if !json.Valid([]byte(line)) || len(t) == 0 || t[0] != '{' {
		return false
	}
	var m map[string]any
	if json.Unmarshal([]byte(line), &m) != nil {
		return false
	}
	return namesOK(m, "")
}

func namesOK(m map[string]any, prefix string) bool {
	for k, v := range m {
		if len(prefix+k) > 236 {
			return false
		}
		if o, ok := v.(map[string]any); ok && !namesOK(o, prefix+k+".") {
			return false
		}
	}
	return true
}

func checkI03(c *Ctx) {
	samples := []string{
		`{"a":1}`, `{"a":"x","o":{"y":[1,{}]}}`, `{"b":true,"c":null,"d":-1.5e2}`, `{"s":"\u0041\n"}`, `{"a":{"b":{"c":"d"}},"e":[[],"]"]}`,
	}
	var bad []string
	for _, s := range samples {
		bad = append(bad, mutations(s)...)
	}
	long := string(make236())
	bad = append(bad, "", " ", "null", "1", `"s"`, "[]", `[{"a":1}]`, "true", `{"a":1e999}`, `{"a":-1e400,"b":1}`, `{"a":1}}`, `{"a":1} {"b":2}`, `{"ok":1,"`+long+`x":2}`, `{"ok":1,"o":{"`+long[:235]+`":2}}`, `{"ok":"v","a":[1,2}`, `{"ok":"v","x":{"y":[}}`, `{"ok":1,"ok2":tru}`, `{"ok":1,"n":01}`, `{"ok":1,"n":+1}`, `{"ok":1,"n":1.}`, `{"ok":1,"n":.5}`, "{\"ok\":1,\"s\":\"tab\there\"}", `{"ok":1,"s":"\x"}`, `{"ok":1,"s":"\u12"}`, `{"ok":1,,"b":2}`, `{"ok":1,"b":2,}`, `{,"ok":1}`, `{"ok" 1}`, `{"ok":}`, `{1:2}`, `{"ok":NaN}`, "\xef\xbb\xbf{\"a\":1}", `{"a":[`+"")
	goods := []string{`{"a":7,"s":"good"}`, `{"z":true}`}
	var mustFail, mustPass int
	type res struct{ f, p int }
	results := make([]res, len(bad))
	c.Par(len(bad), func(bi int) {
		b := bad[bi]
		if indexable(b) {
			results[bi].p++
			cs := map[string]any{"line": b}
			c.Guard("valid-line", cs, func() {
				if _, err := syncIndex(&MemFile{}, false, []byte(goods[0]+"\n"+b+"\n"), nil); err != nil {
					c.Violf("valid-line", cs, "a valid JSON object was refused: %v", err)
				}
				c.Trans(1)
			})
			return
		}
		results[bi].f++
		for pre := 0; pre <= 2; pre++ { // good lines indexed before
			for mid := 0; mid <= 1; mid++ { // good lines in the same batch as the bad one
				for post := 0; post <= 1; post++ {
					malformed(c, "malformed", false, goods, b, pre, mid, post, samples[(bi+pre)%len(samples)], "")
				}
			}
		}
	})
	for _, r := range results {
		mustFail += r.f
		mustPass += r.p
	}
	// data that shrank
	for n := 0; n < 30; n++ {
		cs := map[string]any{"shrunk_to": n}
		c.Guard("shrunk", cs, func() {
			data := []byte(goods[0] + "\n" + goods[1] + "\n")
			mf := &MemFile{}
			ix, err := syncIndex(mf, false, data, nil)
			if err != nil {
				c.Violf("shrunk-setup", cs, "%v", err)
				return
			}
			if err := ix.Synchronize(data[:n:n]); err == nil {
				c.Violf("shrunk", cs, "synchronizing with data shorter than what is indexed succeeded")
			}
			d, err := readIndex(&MemFile{b: mf.b}, false, data)
			want, _, _ := fresh(false, data, nil)
			if err != nil || diffDump(d, want) != "" {
				c.Violf("shrunk-effect", cs, "synchronizing with shorter data changed the index")
			}
			c.Trans(2)
		})
	}
	refusedHistories(c)
	c.Note("invalid_lines", mustFail)
	c.Note("valid_mutants", mustPass)
	c.Sample(map[string]any{"bad line": bad[17], "histories": "0-2 good lines indexed before x 0-1 good lines in the same batch x 0-1 after x repair"})
	c.rule = "every one-byte deletion, replacement, insertion and every truncation of five lines plus a list of malformed lines, each in every position of a small history, followed by a second failing synchronization, the repair and a successful one; histories with two refused lines, with hundreds of records before them, lines of up to 70000 bytes, searchable fields and data and index files of several GiB; compared with fresh indexes"
}

// mstep is one synchronization: of data, which either has to succeed or to
// fail at the line starting at good, after recs records.
type mstep struct {
	data []byte
	fail bool
	good int
	recs int
}

// stepsOf derives the steps of a history from versions of a file, each a list
// of lines.
func stepsOf(versions [][]string, tail string) []mstep {
	var out []mstep
	for _, v := range versions {
		st := mstep{}
		for i, l := range v {
			if !st.fail && !indexable(l) {
				st.fail, st.good, st.recs = true, len(st.data), i
			}
			st.data = append(st.data, l+"\n"...)
		}
		if !st.fail {
			st.recs = len(v)
			st.good = len(st.data)
		}
		st.data = append(st.data, tail...)
		out = append(out, st)
	}
	return out
}

// refusedRun synchronizes the versions of a file lying at base one after the
// other; reopen: bit i set means the index is reopened before step i; hole:
// the index file continues behind a hole after the first step.
func refusedRun(c *Ctx, key string, steps []mstep, search []string, base int, hole int64, reopen uint, desc map[string]any) {
	cs := func() any {
		d := map[string]any{"base": base, "index_hole": hole, "reopen_mask": reopen, "search": search}
		for k, v := range desc {
			d[k] = v
		}
		return d
	}
	c.Guard(key, cs(), func() {
		entries := farEntries(base)
		longest := 0
		for _, s := range steps {
			if len(s.data) > longest {
				longest = len(s.data)
			}
		}
		df := make([]byte, longest)
		if base > 0 {
			var free func()
			df, free = farData(base, nil, make([]byte, longest))
			defer free()
		}
		set := func(d []byte) []byte {
			copy(df[base:], d)
			for i := base + len(d); i < len(df); i++ {
				df[i] = 0
			}
			return df[: base+len(d) : base+len(d)]
		}
		ref := func(d []byte) (*dump, error) {
			mf := &MemFile{}
			ix, err := farIndex(mf, false, base, search, entries)
			if err != nil {
				return nil, err
			}
			if err := ix.Synchronize(d); err != nil {
				return nil, err
			}
			return readIndex(mf, false, d)
		}
		mf := &MemFile{}
		ix, err := farIndex(mf, false, base, search, entries)
		if err != nil {
			c.Violf(key+"-setup", cs(), "%v", err)
			return
		}
		var last *dump
		for i, s := range steps {
			if i == 1 && hole > 0 {
				mf.Grow(hole)
			}
			if reopen&(1<<uint(i)) != 0 || (i == 1 && hole > 0) {
				mf.pos = 0
				if ix, err = appendable.NewIndexFile(mf, handlerOf(false), search); err != nil {
					c.Violf(key+"-reopen", cs(), "the index cannot be opened before step %d: %v", i, err)
					return
				}
			}
			d := set(s.data)
			err := ix.Synchronize(d)
			c.Trans(1)
			if s.fail != (err != nil) {
				c.Violf(key+"-verdict", cs(), "step %d should fail: %v, but returned %v", i, s.fail, err)
				return
			}
			got, err := readIndex(mf.Clone(), false, d)
			if err != nil {
				c.Violf(key+"-broken", cs(), "the index cannot be read after step %d: %v", i, err)
				return
			}
			if s.fail {
				if got.meta.ReadOffset > uint64(base+s.good) || got.meta.Entries > uint64(s.recs)+entries {
					c.Violf(key+"-position", cs(), "step %d: the header covers %d bytes and %d records, the bad line starts at %d after %d records", i, got.meta.ReadOffset, got.meta.Entries, base+s.good, uint64(s.recs)+entries)
					return
				}
				if last != nil {
					for _, x := range last.idx {
						y := got.find(x.name, x.ft)
						if y == nil || !subset(x.entries, y.entries) {
							c.Violf(key+"-lost", cs(), "step %d: entries of %q type %d indexed earlier are gone", i, x.name, x.ft)
							return
						}
					}
				}
				continue
			}
			want, err := ref(d)
			if err != nil {
				c.Violf(key+"-setup", cs(), "%v", err)
				return
			}
			if m := diffDump(got, want); m != "" {
				c.Violf(key, cs(), "after step %d: %s", i, m)
				return
			}
			last = got
		}
		c.Trace(1)
		c.State(H64(key, base, mf.b))
	})
}

func refusedHistories(c *Ctx) {
	good := []string{`{"a":1,"s":"hi"}`, `{"s":"Good day","o":{"x":null}}`, `{"b":[1,{"a":2}],"a":"t"}`}
	bads := []string{`{"a":1`, "", "null", `{"s":"new words","n":tru}`, `{"q":1e999}`, `[{"a":1}]`, `{"s":"hi"}}`, `{"s":"first","o":{"x":1,"y":}}`}
	fixes := []string{`{"a":5}`, `{"s":"first"}`, `{}`, `{"n":true,"s":"new words"}`}
	searches := [][]string{nil, {"s"}}
	// two refused lines, repaired one after the other
	c.Par(len(bads)*len(bads), func(q int) {
		x, y := bads[q/len(bads)], bads[q%len(bads)]
		f1, f2 := fixes[q%len(fixes)], fixes[(q/3)%len(fixes)]
		for mid := 0; mid <= 2; mid++ {
			g := good[:mid]
			lines := func(a string, b string) []string {
				l := append([]string{good[q%3], a}, g...)
				return append(append(l, b), good[(q+1)%3])
			}
			v := [][]string{{good[q%3]}, lines(x, y), lines(x, y), lines(f1, y), lines(f1, f2)}
			if q%2 == 0 {
				v = append(v, append(lines(f1, f2), good[2], x), append(lines(f1, f2), good[2], f1, good[0]))
			}
			for r := uint(0); r < 1<<uint(c.Bound(3, 5)); r++ {
				for si, s := range searches {
					if (q+mid+si)%2 == 0 || c.Thorough {
						refusedRun(c, "twice", stepsOf(v, []string{"", `{"a":`}[q%2]), s, 0, 0, r<<1, map[string]any{"versions": v})
					}
				}
			}
		}
	})
	// many records before, long lines, far offsets
	long := strings.Repeat("long value ", 6400)
	type h struct {
		desc   string
		before int
		bad    string
		fixed  string
	}
	var hs []h
	for i, n := range []int{1, 40, c.Bound(300, 1500)} {
		for j, b := range bads {
			hs = append(hs, h{"bad line after many", n, b, fixes[(i+j)%len(fixes)]})
		}
		hs = append(hs,
			h{"long bad line, cut off", n, `{"s":"` + long, `{"s":"` + long + `"}`},
			h{"long bad line, bad at its end", n, `{"s":"` + long + `","x":}`, `{"x":1,"s":"` + long + `"}`},
			h{"long bad line, long array", n, `{"a":[` + strings.Repeat("[1],", 16000) + `]}`, `{"a":[` + strings.Repeat("[1],", 16000) + `0]}`},
			h{"long blank line", n, strings.Repeat(" ", 70000), strings.Repeat(" ", 70000) + `{}`},
			h{"deep nesting", n, strings.Repeat(`{"a":`, 9) + strings.Repeat("}", 8), strings.Repeat(`{"a":`, 9) + "1" + strings.Repeat("}", 9)},
		)
	}
	bases := append([]int{0}, farBases...)
	c.Par(len(hs)*len(bases), func(q int) {
		x, base := hs[q/len(bases)], bases[q%len(bases)]
		var pre []string
		for k := 0; k < x.before; k++ {
			pre = append(pre, fmt.Sprintf(`{"s":"v%d w","a":%d,"o":{"f%d":%v}}`, k*37%1009, k, k%9, k%2 == 0))
		}
		with := func(n int, l ...string) []string { return append(append([]string(nil), pre[:n]...), l...) }
		half := x.before / 2
		v := [][]string{with(half), with(x.before, x.bad), with(x.before, x.bad, good[0]), with(x.before, x.fixed, good[0]), with(x.before, x.fixed, good[0], x.bad), with(x.before, x.fixed, good[0], x.fixed)}
		var hole int64
		if q%2 == 1 {
			hole = farSizes[q%len(farSizes)]
		}
		s := searches[q%2]
		if len(x.fixed) > 60000 {
			s = nil
		}
		refusedRun(c, "far", stepsOf(v, ""), s, base, hole, []uint{0, 0b111110, 0b010100}[q%3], map[string]any{"history": x.desc, "records_before": x.before, "bad_line": firstN(x.bad, 200), "repaired": firstN(x.fixed, 200)})
	})
	// data shorter than what is indexed, of every magnitude
	all := []byte(good[0] + "\n" + good[1] + "\n" + good[2] + "\n")
	c.Par(len(farBases), func(i int) {
		base := farBases[i]
		df, free := farData(base, nil, all)
		defer free()
		mf := &MemFile{}
		ix, err := farIndex(mf, false, base, nil, farEntries(base))
		if err == nil {
			err = ix.Synchronize(df)
		}
		if err != nil {
			c.Violf("far-shrunk-setup", map[string]any{"base": base}, "%v", err)
			return
		}
		before := append([]byte(nil), mf.b...)
		for _, n := range []int{0, 1, len(all), base & 0x7fffffff, base&0x7fffffff + len(all) - 1, (base + len(all)) & 0xffffffff, (base+len(all))&0x7fffffff + 1, base - 1, base, base + 5, base + len(all) - 1} {
			if n < 0 || n >= base+len(all) {
				continue
			}
			cs := map[string]any{"indexed": base + len(all), "shrunk_to": n}
			c.Guard("far-shrunk", cs, func() {
				if err := ix.Synchronize(df[:n:n]); err == nil {
					c.Violf("far-shrunk", cs, "synchronizing with data shorter than what is indexed succeeded")
				}
				if !bytes.Equal(before, mf.b) {
					c.Violf("far-shrunk-effect", cs, "synchronizing with shorter data changed the index")
				}
				c.Trans(1)
			})
		}
	})
}

// malformed: pre good lines are indexed, then a batch of mid good lines, the
// bad line and post good lines; afterwards the bad line is repaired.
func malformed(c *Ctx, key string, csv bool, goods []string, bad string, pre, mid, post int, repaired string, header string) {
	join := func(parts ...string) []byte {
		var b bytes.Buffer
		b.WriteString(header)
		for _, p := range parts {
			b.WriteString(p)
			b.WriteByte('\n')
		}
		return b.Bytes()
	}
	var lines []string
	for i := 0; i < pre+mid; i++ {
		lines = append(lines, goods[i%2])
	}
	cs := map[string]any{"bad_line": bad, "indexed_before": pre, "same_batch_before": mid, "after": post, "repaired": repaired}
	c.Guard(key, cs, func() {
		mf := &MemFile{}
		d0data := join(lines[:pre]...)
		ix, err := syncIndex(mf, csv, d0data, nil)
		if err != nil {
			c.Violf(key+"-setup", cs, "%v", err)
			return
		}
		base := join(lines...)
		full := join(append(append([]string(nil), lines...), bad)...)
		fixed := join(append(append([]string(nil), lines...), repaired)...)
		for i := 0; i < post; i++ {
			full = append(full, goods[i]+"\n"...)
			fixed = append(fixed, goods[i]+"\n"...)
		}
		before, _, err := fresh(csv, base, nil)
		before0, _, err0 := fresh(csv, d0data, nil)
		if err != nil || err0 != nil {
			c.Violf(key+"-setup", cs, "%v %v", err, err0)
			return
		}
		for round := 0; round < 2; round++ {
			if err := ix.Synchronize(full); err == nil {
				c.Violf(key+"-accepted", cs, "synchronizing a malformed line succeeded")
				return
			}
			c.Trans(1)
			d, err := readIndex(&MemFile{b: mf.b}, csv, full)
			if err != nil {
				c.Violf(key+"-broken", cs, "the index cannot be read after the error: %v", err)
				return
			}
			if d.meta.ReadOffset > before.meta.ReadOffset || d.meta.Entries > uint64(pre+mid) {
				c.Violf(key+"-position", cs, "the header covers %d bytes and %d records, the bad line starts at %d after %d records", d.meta.ReadOffset, d.meta.Entries, before.meta.ReadOffset, pre+mid)
				return
			}
			for _, x := range before0.idx {
				y := d.find(x.name, x.ft)
				if y == nil || !subset(x.entries, y.entries) {
					c.Violf(key+"-lost", cs, "entries of %q indexed before the error are gone", x.name)
					return
				}
			}
			if ix, err = appendable.NewIndexFile(mf, handlerOf(csv), nil); err != nil {
				c.Violf(key+"-reopen", cs, "the index cannot be opened after the error: %v", err)
				return
			}
		}
		if err := ix.Synchronize(fixed); err != nil {
			c.Violf(key+"-repair", cs, "synchronizing the repaired data failed: %v", err)
			return
		}
		c.Trans(1)
		d, err := readIndex(&MemFile{b: mf.b}, csv, fixed)
		want, _, err2 := fresh(csv, fixed, nil)
		if err != nil || err2 != nil {
			c.Violf(key+"-repair", cs, "%v %v", err, err2)
			return
		}
		if s := diffDump(d, want); s != "" {
			c.Violf(key+"-repaired", cs, "after the repair: %s", s)
		}
		c.Trace(1)
		c.State(H64(bad, pre, mid, post, mf.b))
	})
}

func subset(a, b []dEntry) bool {
	m := map[string]bool{}
	for _, e := range b {
		m[fmt.Sprintf("%x %v %v", e.key, e.dp, e.rec)] = true
	}
	for _, e := range a {
		if !m[fmt.Sprintf("%x %v %v", e.key, e.dp, e.rec)] {
			return false
		}
	}
	return true
}
