package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/buftest"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/ngram"
)

func init() {
	register("I09", "model_checking", checkI09)
	register("I10", "model_checking", checkI10)
	register("I11", "model_checking", checkI11)
}

func checkTokens(c *Ctx, key, s string, g int) {
	cs := map[string]any{"text": s, "gram": g}
	c.Guard(key, cs, func() {
		got := ngram.BuildNgram(s, g)
		want := refNgrams(s, g)
		if len(got) != len(want) {
			c.Violf(key, cs, "%d tokens %v, expected %d %v", len(got), got, len(want), want)
			return
		}
		for i := range got {
			if got[i].Word != want[i].word || got[i].Offset != uint64(want[i].offset) || got[i].Length != uint32(want[i].length) {
				c.Violf(key, cs, "token %d is %v, expected %v", i, got[i], want[i])
				return
			}
		}
		c.Trans(1)
		c.Trace(1)
		if len(got) < 2 {
			return
		}
		// queries use a reordering
		a := ngram.Shuffle(got)
		b := ngram.Shuffle(ngram.BuildNgram(s, g))
		if fmt.Sprint(a) != fmt.Sprint(b) {
			c.Violf(key+"-shuffle", cs, "reordering twice gives %v and %v", a, b)
		}
		sorted := func(x []ngram.Token) string {
			y := make([]string, len(x))
			for i := range x {
				y[i] = fmt.Sprint(x[i])
			}
			sort.Strings(y)
			return strings.Join(y, ",")
		}
		if sorted(a) != sorted(got) {
			c.Violf(key+"-shuffle", cs, "reordering %v gives %v, which is no permutation", got, a)
		}
		for i := range got {
			if got[i].Word != want[i].word {
				c.Violf(key+"-shuffle", cs, "reordering changed its argument")
				return
			}
		}
	})
}

func checkI09(c *Ctx) {
	alpha := []string{"a", "B", "7", " ", "-", "\t", "é", "世", "ﬁ", "😀", "\u0301", "\u00a0", "Z"}
	for n := 0; n <= c.Bound(5, 6); n++ {
		words(c, len(alpha), n, func(w []int) {
			var sb strings.Builder
			for _, x := range w {
				sb.WriteString(alpha[x])
			}
			for g := 1; g <= 3; g++ {
				checkTokens(c, "word", sb.String(), g)
			}
			c.State(H64(sb.String()))
		})
	}
	// every ASCII character in context
	ctx := []string{"", "a", " ", "a b", "Ab"}
	c.Par(128, func(i int) {
		for _, p := range ctx {
			for _, q := range ctx {
				for j := 0; j < 128; j++ {
					for g := 1; g <= 4; g++ {
						checkTokens(c, "ascii", p+string(rune(i))+q+string(rune(j)), g)
					}
				}
			}
		}
		c.State(H64("ascii", i))
	})
	// words of every length, and every other character of the table
	for n := 0; n <= 40; n++ {
		for g := 1; g <= 6; g++ {
			w := strings.Repeat("aB3", 20)[:n]
			checkTokens(c, "length", w, g)
			checkTokens(c, "length", w+" "+w+"\n"+w, g)
			checkTokens(c, "length", "..."+w+"-"+w+"!", g)
		}
	}
	// counters: words, numbers of words and positions around the ranges of common integer types
	counters := []int{127, 128, 255, 256, 257, 4096, 65534, 65535, 65536, 65537, 70000}
	c.Par(len(counters), func(i int) {
		n := counters[len(counters)-1-i]
		for _, g := range []int{1, 2, 3} {
			checkTokens(c, "counter", strings.Repeat("aB3", n/3+1)[:n], g)
			checkTokens(c, "counter", strings.Repeat(".", n)+"Ab c12", g)
			checkTokens(c, "counter", "x "+strings.Repeat(" ", n)+"Ab c12"+strings.Repeat("-", n)+"zz9", g)
			checkTokens(c, "counter", strings.Repeat("é", n)+"Ab", g)
			checkTokens(c, "counter", strings.Repeat("a ", n)+"bcd", g)
		}
	})
	for r, d := range decomp {
		for _, p := range ctx {
			for _, q := range ctx {
				for g := 1; g <= 3; g++ {
					checkTokens(c, "decomposed", p+string(r)+q, g)
					checkTokens(c, "decomposed", p+d+q+string(r), g)
				}
			}
		}
	}
	c.Sample(map[string]any{"text": "a éﬁ世B", "grams": fmt.Sprint(refNgrams("a éﬁ世B", 2))})
	c.rule = "all texts over 13 characters (letters, digit, spaces, punctuation, accents, wide characters, ligature, emoji) up to the stated length x gram lengths 1-3; every pair of ASCII characters in 25 contexts x gram lengths 1-4; words of every length up to 40 x gram lengths 1-6; word lengths, numbers of words and positions around 2^8 and 2^16; each reordered"
	c.Assume("texts are valid UTF-8", "positions count characters of the decomposed text")
}

func checkI10(c *Ctx) {
	texts := []jval{
		jstr("", `""`), jstr("a", `"a"`), jstr("ab", `"ab"`), jstr("Hey you", `"Hey you"`), jstr("aaaa", `"aaaa"`), jstr("aa aa aa", `"aa aa aa"`), jstr("x-y_z 12!", `"x-y_z 12!"`), jstr("é世\n😀b c", `"é世\n\ud83d\ude00b c"`), jstr("   ", `"   "`), jstr("...", `"..."`), jstr("abc", `"\u0061b\u0063"`),
	}
	others := []jval{jnum(1, "1"), jbool(true), jnull(), jarr(`["abc",{"t":"x"}]`), jobj(jf("t", jstr("deep text", `"deep text"`))), jobj()}
	all := append(append([]jval(nil), texts...), others...)
	type cfg struct {
		search []string
		name   func(v jval) []jfield
	}
	cfgs := []cfg{
		{[]string{"t"}, func(v jval) []jfield { return []jfield{jf("t", v)} }},
		{[]string{"t", "u"}, func(v jval) []jfield { return []jfield{jf("u", v), jf("n", jstr("plain text", `"plain text"`))} }},
		{[]string{"t.t"}, func(v jval) []jfield { return []jfield{jf("t", v)} }},
		{[]string{"o.t", "t"}, func(v jval) []jfield {
			return []jfield{jf("o", jobj(jf("t", v), jf("u", jstr("not this", `"not this"`)))), jf("t", jstr("Mid", `"Mid"`))}
		}},
		{[]string{}, func(v jval) []jfield { return []jfield{jf("t", v)} }},
		{[]string{"T", "tt", "", "o"}, func(v jval) []jfield { return []jfield{jf("t", v), jf("", jstr("empty name", `"empty name"`))} }},
	}
	file := func(search []string) *jsonlFile {
		f := &jsonlFile{search: map[string]bool{}}
		for _, s := range search {
			f.search[s] = true
		}
		return f
	}
	c.Par(len(all), func(i int) {
		for ci, cf := range cfgs {
			for wi, w := range wsStyles {
				f := file(cf.search)
				f.add(jobj(cf.name(all[i])...), w)
				indexOnce(c, "single", f, "", cf.search)
				for j := range all {
					f := file(cf.search)
					f.add(jobj(cf.name(all[i])...), w)
					f.add(jobj(cf.name(all[j])...), wsStyles[(wi+j+ci)%len(wsStyles)])
					f.add(jobj(jf("other", jnum(1, "1"))), w)
					if (i+j)%2 == 0 {
						f.add(jobj(cf.name(all[(i+j)%len(all)])...), w)
					}
					indexOnce(c, "records", f, `{"t":"tail`, cf.search)
				}
			}
		}
	})
	for n := 0; n <= c.Bound(4, 5); n++ {
		sub := []jval{texts[0], texts[2], texts[4], texts[5], texts[7], others[0], others[2], others[4]}
		words(c, len(sub), n, func(w []int) {
			f := file([]string{"t"})
			for i, x := range w {
				f.add(jobj(jf("t", sub[x])), wsStyles[(i+x)%len(wsStyles)])
			}
			indexOnce(c, "word", f, "", []string{"t"})
		})
	}
	// many records: gram trees of several levels
	c.Par(3, func(i int) {
		f := file([]string{"t"})
		for k := 0; k < c.Bound(250, 1200); k++ {
			var s string
			switch i {
			case 0:
				s = fmt.Sprintf("the %d quick brown fox no%d jumps", k, k*7919%1000)
			case 1:
				s = strings.Repeat(string(rune('a'+k%26)), 1+k%9) + " " + strings.Repeat("zz ", k%5)
			case 2:
				s = strings.Repeat("ab", k%20)
			}
			f.add(jobj(jf("t", jstr(s, `"`+s+`"`)), jf("k", jnum(float64(k), fmt.Sprint(k)))), wsStyles[k%len(wsStyles)])
		}
		indexOnce(c, fmt.Sprintf("big-%d", i), f, "", []string{"t"})
	})
	// long texts: many occurrences of one gram in a record, long words
	long := []int{100, 255, 256, 257, 1000, 4095, 4096, 4097}
	if c.Thorough {
		long = append(long, 16383, 16384, 65535, 65536, 65537, 70000)
	}
	c.Par(len(long)*3, func(i int) {
		n := long[len(long)-1-i/3]
		s := []string{strings.Repeat("x", n), strings.Repeat("ab cde ", n/7+1)[:n], strings.Repeat("abcdefghijklmnopqrstuvwxyz0123456789-", n/37+1)[:n]}[i%3]
		f := file([]string{"t"})
		f.add(jobj(jf("t", jstr("abx", `"abx"`))), jws{})
		f.add(jobj(jf("k", jstr("plain", `"plain"`)), jf("t", jstr(s, `"`+s+`"`))), jws{})
		f.add(jobj(jf("t", jstr("xyz ab", `"xyz ab"`))), jws{})
		indexOnce(c, "long", f, "", []string{"t"})
	})
	// sparse texts: lengths and positions around the ranges of common integer types
	sparse := []int{126, 127, 128, 254, 255, 256, 32767, 32768, 65530, 65534, 65535, 65536, 65537, 70000, 1 << 17}
	c.Par(len(sparse)*2, func(i int) {
		n := sparse[len(sparse)-1-i/2]
		s := []string{strings.Repeat(" .", n)[:n-4] + "ab c", "ab " + strings.Repeat("-", n-6) + "c12"}[i%2]
		f := file([]string{"t"})
		f.add(jobj(jf("t", jstr("abx", `"abx"`))), jws{})
		f.add(jobj(jf("t", jstr(s, `"`+s+`"`)), jf("k", jnull())), jws{})
		f.add(jobj(jf("t", jstr(s+"c", `"`+s+`c"`))), wsStyles[i%len(wsStyles)])
		indexOnce(c, "sparse", f, "", []string{"t"})
	})
	// texts that become longer when decomposed
	for n := 1; n <= 40; n++ {
		for _, r := range []string{"⒇", "㎯", "ﬁ", "½"} {
			line := `{"t":"` + strings.Repeat(r, n) + `"}` + "\n"
			data := []byte(strings.Repeat(line, 3))
			c.Guard("expanding", line, func() {
				if _, err := syncIndex(&MemFile{}, false, data, []string{"t"}); err != nil {
					c.Violf(fmt.Sprintf("expanding-text-refused:%U", []rune(r)[0]), map[string]any{"data": string(data)}, "valid data is refused: %v", err)
				}
				c.Trans(1)
			})
		}
	}
	// the same in data and index files of several GiB
	c.Par(len(all), func(i int) {
		for ci, cf := range cfgs {
			f := file(cf.search)
			f.add(jobj(cf.name(all[i])...), wsStyles[(i+ci)%len(wsStyles)])
			f.add(jobj(cf.name(all[(i*5+ci+1)%len(all)])...), jws{})
			first := len(f.data)
			f.add(jobj(cf.name(all[i])...), wsStyles[ci%len(wsStyles)])
			f.add(jobj(cf.name(texts[(i+ci)%len(texts)])...), jws{})
			farOnce(c, "far", false, f.data, 0, &f.m, `{"t":"tail`, cf.search, []int{first - ci%2})
		}
	})
	c.Par(c.Bound(2, 4), func(i int) {
		f := file([]string{"t"})
		for k := 0; k < c.Bound(60, 400); k++ {
			s := fmt.Sprintf("the %d quick brown fox no%d jumps", k*(i+1), k*7919%1000)
			f.add(jobj(jf("t", jstr(s, `"`+s+`"`)), jf("k", jnum(float64(k), fmt.Sprint(k)))), wsStyles[k%len(wsStyles)])
		}
		farOnce(c, "far-big", false, f.data, 0, &f.m, "", []string{"t"}, []int{len(f.data) / 2})
	})
	c.Sample(map[string]any{"search": cfgs[3].search, "texts": fmt.Sprintf("%+v", texts[:4])})
	c.rule = "11 texts and 6 other values x 6 ways of declaring searchable fields x whitespace styles: every one alone and every pair in a small file, all words of 8 values up to the stated length, large files; data and index files of several GiB; all plain and n-gram indexes compared entry by entry with an independent tokenizer"
}

func checkI11(c *Ctx) {
	type job struct {
		name   string
		csv    bool
		data   []byte
		search []string
	}
	var jobs []job
	for _, b := range bigFiles(c.Bound(70, 300)) {
		if b.name != "long" || c.Thorough {
			jobs = append(jobs, job{b.name, false, b.f.data, []string{"s"}})
		}
		jobs = append(jobs, job{b.name, false, b.f.data, nil})
	}
	vals := valueUniverse()
	for i, v := range vals {
		f := &jsonlFile{}
		f.add(jobj(jf("a", v), jf("b", vals[(i*3+1)%len(vals)])), wsStyles[i%len(wsStyles)])
		f.add(jobj(jf("o", jobj(jf("a", v)))), jws{})
		f.add(jobj(jf("a", vals[(i*7+2)%len(vals)])), jws{})
		jobs = append(jobs, job{fmt.Sprintf("value-%d", i), false, f.data, []string{"a"}})
	}
	for i, h := range []string{"a,b,c\n", "\"x,y\",b\n"} {
		d := h
		for k := 0; k < 250; k++ {
			d += fmt.Sprintf("%d,\"t%d\"\n", k*(i+1), k%9)
		}
		jobs = append(jobs, job{fmt.Sprintf("csv-%d", i), true, []byte(d), nil}, job{fmt.Sprintf("csv-small-%d", i), true, []byte(h + "1,\n,x\n"), nil})
	}
	jobs = append(jobs, job{"empty", false, nil, nil}, job{"csv-empty", true, nil, nil}, job{"blank-objects", false, []byte("{}\n{}\n"), nil})
	c.Par(len(jobs)*4, func(q int) {
		i := q / 4
		j := jobs[i]
		cs := map[string]any{"data": firstN(string(j.data), 600), "csv": j.csv, "search": j.search}
		c.Guard("storage", cs, func() {
			keep := append([]byte(nil), j.data...)
			data := append(make([]byte, 0, len(j.data)), j.data...)
			// two appends, with and without reopening: the last one may be empty
			for _, cuts := range [][]int{{len(data)}, {len(data), len(data)}, {len(data) / 2, len(data)}, {0, len(data) / 3, len(data)}}[q%4 : q%4+1] {
				for _, reopen := range []bool{false, true} {
					var ref []byte
					for storage := 0; storage < 6; storage++ {
						b, err := buildIn(c, storage, fmt.Sprintf("%d-%d", q, storage), j.csv, data, cuts, reopen, j.search)
						if err != nil {
							c.Violf("storage-error", cs, "storage %d cuts %v reopen %v: %v", storage, cuts, reopen, err)
							return
						}
						c.Trans(1)
						if storage == 0 {
							ref = b
						} else if !bytes.Equal(ref, b) {
							c.Violf("storage", cs, "storage %s, appends up to %v, reopening %v: the index differs from the one in memory (%d and %d bytes, first difference at %d)", storageNames[storage], cuts, reopen, len(b), len(ref), firstDiff(b, ref))
							return
						}
					}
					c.State(H64(ref))
					c.Trace(1)
				}
			}
			if !bytes.Equal(keep, data) {
				c.Violf("data", cs, "the data was modified")
			}
		})
	})
	// appending leaves unrelated indexes alone
	fields := []jval{jnum(5, "5"), jstr("new", `"new"`), jbool(true), jnull(), jarr("[1]"), jobj(jf("x", jnum(1, "1")))}
	c.Par(len(fields)*2, func(i int) {
		for n := 1; n <= c.Bound(60, 300); n += 7 {
			f := &jsonlFile{}
			for k := 0; k < n; k++ {
				f.add(jobj(jf("s", jstr(fmt.Sprint("v", k), fmt.Sprintf(`"v%d"`, k))), jf("n", jnum(float64(k), fmt.Sprint(k))), jf("z", jnull()), jf("b", jbool(k%2 == 0))), jws{})
			}
			mf := &MemFile{}
			cs := map[string]any{"records": n, "appended": fields[i/2].raw}
			c.Guard("unrelated", cs, func() {
				ix, err := syncIndex(mf, false, f.data, []string{"s"})
				if err != nil {
					c.Violf("unrelated", cs, "%v", err)
					return
				}
				before, err := readIndex(mf.Clone(), false, f.data)
				for k := 0; k < 250; k += 1 + i%2*40 {
					f.add(jobj(jf("q", fields[i/2])), jws{})
				}
				if err == nil {
					err = ix.Synchronize(f.data)
				}
				if err != nil {
					c.Violf("unrelated", cs, "%v", err)
					return
				}
				after, err := readIndex(mf.Clone(), false, f.data)
				if err != nil {
					c.Violf("unrelated", cs, "%v", err)
					return
				}
				for _, x := range before.idx {
					y := after.find(x.name, x.ft)
					if y == nil {
						c.Violf("unrelated", cs, "index %q type %d is gone", x.name, x.ft)
						return
					}
					if s := diffIdx(&dump{idx: []dIndex{*y}}, &dump{idx: []dIndex{x}}); s != "" {
						c.Violf("unrelated", cs, "appending %q changed another index: %s", "q", s)
						return
					}
				}
				c.Trans(2)
				c.Trace(1)
				c.State(H64(mf.b))
			})
		}
	})
	c.Sample(map[string]any{"files": len(jobs), "storages": storageNames})
	c.rule = "each data file x four ways of splitting it x with and without reopening, written into six kinds of storage (two of them twice) and compared byte for byte; appends of one field's values compared with the other fields' indexes before"
	_ = appendable.CurrentVersion
}

var storageNames = []string{"memory", "memory again", "seekable buffer", "ordinary file", "memory-mapped file", "memory-mapped file again"}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func buildIn(c *Ctx, storage int, name string, csv bool, data []byte, cuts []int, reopen bool, search []string) ([]byte, error) {
	var f io.ReadWriteSeeker
	var done func() ([]byte, error)
	path := filepath.Join(c.dir, "i"+name)
	mem := &MemFile{}
	switch storage {
	case 0, 1:
		f, done = mem, func() ([]byte, error) { return mem.b, nil }
	case 2:
		b := buftest.NewSeekableBuffer()
		f, done = b, func() ([]byte, error) { return b.Bytes(), nil }
	case 3:
		os.Remove(path)
		o, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
		if err != nil {
			panic(err)
		}
		defer os.Remove(path)
		f, done = o, func() ([]byte, error) { o.Close(); return os.ReadFile(path) }
	default:
		os.Remove(path)
		m, err := mmap.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
		if err != nil {
			return nil, err
		}
		defer os.Remove(path)
		f, done = m, func() ([]byte, error) {
			if err := m.Close(); err != nil {
				return nil, err
			}
			return os.ReadFile(path)
		}
	}
	var ix *appendable.IndexFile
	var err error
	for _, p := range cuts {
		if ix == nil || reopen {
			if _, err = f.Seek(0, io.SeekStart); err != nil {
				return nil, err
			}
			if ix, err = appendable.NewIndexFile(f, handlerOf(csv), search); err != nil {
				return nil, err
			}
		}
		if err := ix.Synchronize(data[:p:p]); err != nil {
			return nil, err
		}
	}
	return done()
}
