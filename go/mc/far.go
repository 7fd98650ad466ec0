package main

import (
	"errors"
	"fmt"
	"io"
	"syscall"

	"github.com/kevmo314/appendable/pkg/appendable"
)

// Data files of several GiB: the data starts at a large offset of a sparse
// mapping and the index is told that everything before has been read.

var farBases = []int{1<<31 - 40, 1<<32 - 40, 1<<32 + 1<<31 + 7, 1<<33 + 5}

// farData maps base+len(data) bytes, with head at the start and data at base.
func farData(base int, head, data []byte) ([]byte, func()) {
	m, err := syscall.Mmap(-1, 0, base+len(data), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic(fmt.Sprintf("cannot map %d bytes: %v", base+len(data), err))
	}
	copy(m, head)
	copy(m[base:], data)
	return m, func() { syscall.Munmap(m) }
}

// farEntries is how many records an index is told to hold before a far base.
func farEntries(base int) uint64 {
	return []uint64{1<<16 - 2, 1<<32 - 2, 126, 1<<31 - 2, 254}[base%5]
}

// farIndex returns an empty index that continues at base.
func farIndex(mf *MemFile, csv bool, base int, search []string, entries uint64) (*appendable.IndexFile, error) {
	ix, err := appendable.NewIndexFile(mf, handlerOf(csv), search)
	if err != nil {
		return nil, err
	}
	meta, err := ix.Metadata()
	if err != nil {
		return nil, err
	}
	meta.ReadOffset = uint64(base)
	meta.Entries = entries
	return ix, ix.SetMetadata(meta)
}

// addTotals adds to the total length recorded for every index.
func addTotals(mf *MemFile, csv bool, by uint64) (map[string]uint64, error) {
	out := map[string]uint64{}
	ix, err := appendable.NewIndexFile(mf, handlerOf(csv), nil)
	if err != nil {
		return nil, err
	}
	p, err := ix.Indexes()
	if errors.Is(err, io.EOF) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	pages, err := p.Collect()
	if err != nil {
		return nil, err
	}
	for _, pg := range pages {
		im := &appendable.IndexMeta{}
		if err := pg.UnmarshalMetadata(im); err != nil {
			return nil, err
		}
		im.TotalFieldValueLength += by
		if err := pg.MarshalMetadata(im); err != nil {
			return nil, err
		}
		out[fmt.Sprintf("%s:%d", im.FieldName, im.FieldType)] = by
	}
	return out, nil
}

func (m *expModel) shifted(by, entries uint64) *expModel {
	out := &expModel{entries: m.entries + entries, offset: m.offset + by}
	for _, x := range m.idx {
		y := &expIndex{name: x.name, ft: x.ft}
		for _, e := range x.entries {
			e.vs += by
			e.ve += by
			e.recOff += by
			e.recEnd += by
			y.entries = append(y.entries, e)
		}
		out.idx = append(out.idx, y)
	}
	return out
}

// farOnce indexes data (of which the first head bytes stay at the start of the
// file) lying at every far base, in steps given by cuts.
func farOnce(c *Ctx, key string, csv bool, all []byte, head int, m *expModel, tail string, search []string, cuts []int) {
	for bi, base := range farBases {
		// in half of the cases the index file, too, continues behind a hole
		var hole int64
		if bi%2 == 1 {
			hole = farSizes[(bi/2+len(cuts))%len(farSizes)]
		}
		cs := func() any {
			return map[string]any{"data": firstN(string(all)+tail, 1500), "base": base, "index_hole": hole, "search": search, "appends_up_to": cuts}
		}
		c.Guard(key, cs(), func() {
			body := append(append([]byte(nil), all[head:]...), tail...)
			df, free := farData(base, all[:head], body)
			defer free()
			mf := &MemFile{}
			ix, err := farIndex(mf, csv, base, search, farEntries(base))
			var added map[string]uint64
			if err != nil {
				c.Violf(key+"-open", cs(), "%v", err)
				return
			}
			for i, p := range append(append([]int(nil), cuts...), len(body)) {
				if i == len(cuts) && hole > 0 {
					mf.Grow(hole)
				}
				if i == len(cuts) && i > 0 && !csv {
					if added, err = addTotals(mf, csv, []uint64{1<<32 - 3, 1<<16 - 3, 1<<31 - 3, 125}[(base+len(all))%4]); err != nil {
						c.Violf(key+"-open", cs(), "%v", err)
						return
					}
				}
				if i%2 == 1 || i == len(cuts) {
					if ix, err = appendable.NewIndexFile(mf, handlerOf(csv), search); err != nil {
						c.Violf(key+"-open", cs(), "opening again: %v", err)
						return
					}
				}
				if err := ix.Synchronize(df[: base+p : base+p]); err != nil {
					c.Violf(key+"-error", cs(), "indexing valid data failed: %v", err)
					return
				}
				c.Trans(1)
			}
			d, err := readIndex(mf.Clone(), csv, df)
			if err != nil {
				c.Violf(key+"-read", cs(), "reading the index back failed: %v", err)
				return
			}
			for i := range d.idx {
				d.idx[i].total -= added[fmt.Sprintf("%s:%d", d.idx[i].name, d.idx[i].ft)]
			}
			if s := checkIndex(d, m.shifted(uint64(base-head), farEntries(base)), df, csv, len(search) > 0); s != "" {
				c.Violf(key, cs(), "%s", s)
			}
			c.Trace(1)
			c.State(H64(mf.b))
		})
	}
}

func farJSONL(c *Ctx, key string, every bool) {
	vals := valueUniverse()
	c.Par(len(vals)+1, func(i int) {
		f := &jsonlFile{search: map[string]bool{}}
		var search []string
		if i == len(vals) {
			search = []string{"s"}
			f.search["s"] = true
			for k := 0; k < c.Bound(150, 1500); k++ {
				s := fmt.Sprintf("v%d ab", k*37%1009)
				f.add(jobj(jf("s", jstr(s, `"`+s+`"`)), jf("n", jnum(float64(k%50), fmt.Sprint(k%50))), jf("o", jobj(jf("z", jnull())))), wsStyles[k%len(wsStyles)])
			}
			farOnce(c, key+"-big", false, f.data, 0, &f.m, `{"s":`, search, []int{len(f.data) / 3})
			return
		}
		f.add(jobj(jf("a", vals[i]), jf("b", vals[(i*3+1)%len(vals)])), wsStyles[i%len(wsStyles)])
		f.add(jobj(jf("a", vals[(i*5+2)%len(vals)])), jws{})
		f.add(jobj(jf("s", jstr("x", `"x"`)), jf("a", vals[i])), jws{postColon: " "})
		if every {
			for p := 0; p < len(f.data); p += c.Bound(5, 1) {
				farOnce(c, key, false, f.data, 0, &f.m, "", nil, []int{p})
			}
		}
		farOnce(c, key, false, f.data, 0, &f.m, `{"a"`, nil, nil)
	})
}

func farCSV(c *Ctx, key string, every bool) {
	fs := csvFields()
	c.Par(len(fs), func(i int) {
		f := newCSV([]string{"\n", "\r\n"}[i%2], ccol{"a", "a"}, ccol{`"b,c"`, "b,c"}, ccol{"d", "d"})
		head := len(f.data)
		f.row("\n", fs[i], fs[(i*3+1)%len(fs)], cs0("x"))
		f.row("\r\n", cs0("y"), fs[(i*5+2)%len(fs)])
		f.row("\n", cn("2", 2), fs[i], fs[(i*7+3)%len(fs)])
		if every {
			for p := 0; p < len(f.data)-head; p += c.Bound(5, 1) {
				farOnce(c, key, true, f.data, head, &f.m, "", nil, []int{p})
			}
		}
		farOnce(c, key, true, f.data, head, &f.m, "1,", nil, nil)
	})
}
