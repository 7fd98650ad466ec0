package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/encoding"
	"github.com/kevmo314/appendable/pkg/ngram"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// gen produces inputs for the checks of the client: index files, tokens and
// integers as the real indexer writes them.

type genCase struct {
	Name   string         `json:"name"`
	Kind   string         `json:"kind"`
	Search []string       `json:"search,omitempty"`
	CSV    bool           `json:"csv,omitempty"`
	Error  string         `json:"error,omitempty"`
	Extra  map[string]any `json:"extra,omitempty"`
	data   []byte
	index  []byte
	Base   int   `json:"base,omitempty"` // the data starts here
	chunks int   // synchronize in this many steps
	ends   []int // or up to these positions
	dump   bool  // describe the header entries
	// what happens to the index file after a step, while it is closed
	hook func(step int, mf *MemFile)
	// the parts of the file the index holds (all of it if empty), and its size
	Segs [][2]int64 `json:"segs,omitempty"`
	Size int64      `json:"size,omitempty"`
	// afterwards every tree is built anew with nodes of two or three entries,
	// which makes trees of many levels of few records
	deepen bool
	widen  bool
}

// tinyPager keeps nodes small.
type tinyPager struct {
	*pagefile.PageFile
	node int
}

func (p *tinyPager) PageSize() int { return p.node }

func deepen(mf *MemFile, csv bool, data []byte) error {
	return rebuild(mf, csv, data, func(pf *pagefile.PageFile, w uint16, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer) (pointer.MemoryPointer, error) {
		t := &bptree.BPTree{PageFile: &tinyPager{pf, 26 + 2*int(w)}, MetaPage: &rootCell{}, Data: data, DataParser: handlerOf(csv), Width: w}
		// in the order of the records
		ord := make([]int, len(keys))
		for i := range ord {
			ord[i] = i
		}
		sort.SliceStable(ord, func(a, b int) bool { return recs[ord[a]].Offset < recs[ord[b]].Offset })
		for _, i := range ord {
			if err := t.Insert(keys[i], recs[i]); err != nil {
				return pointer.MemoryPointer{}, err
			}
		}
		return t.MetaPage.Root()
	})
}

// widen rebuilds the trees of an index with two entries per leaf and as many
// children per inner node as a page holds.
func widen(mf *MemFile, csv bool, data []byte) error {
	return rebuild(mf, csv, data, func(pf *pagefile.PageFile, w uint16, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer) (mp pointer.MemoryPointer, err error) {
		put := func(n *bptree.BPTreeNode) (uint64, error) {
			n.Data, n.DataParser, n.Width = data, handlerOf(csv), w
			buf, err := n.MarshalBinary()
			if err != nil {
				return 0, err
			}
			off, err := pf.NewPage(buf)
			mp = pointer.MemoryPointer{Offset: uint64(off), Length: uint32(len(buf))}
			return mp.Offset, err
		}
		var at []uint64                   // the nodes of a level
		var low []pointer.ReferencedValue // and the first key of each
		for i := 0; i < len(keys); i += 2 {
			j := min(i+2, len(keys))
			off, err := put(&bptree.BPTreeNode{Keys: keys[i:j], LeafPointers: recs[i:j]})
			if err != nil {
				return mp, err
			}
			at, low = append(at, off), append(low, keys[i])
		}
		for len(at) > 1 {
			var at2 []uint64
			var low2 []pointer.ReferencedValue
			for i := 0; i < len(at); {
				n := &bptree.BPTreeNode{Width: w, InternalPointers: []uint64{at[i]}}
				j := i + 1
				for ; j < len(at); j++ {
					n.Keys, n.InternalPointers = append(n.Keys, low[j]), append(n.InternalPointers, at[j])
					// no node of a single child may remain
					if n.Size() > 4000 && len(at)-j != 2 {
						j++
						break
					}
				}
				off, err := put(n)
				if err != nil {
					return mp, err
				}
				at2, low2 = append(at2, off), append(low2, low[i])
				i = j
			}
			at, low = at2, low2
		}
		return mp, nil
	})
}

func rebuild(mf *MemFile, csv bool, data []byte, build func(pf *pagefile.PageFile, w uint16, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer) (pointer.MemoryPointer, error)) error {
	ix, err := appendable.NewIndexFile(mf, handlerOf(csv), nil)
	if err != nil {
		return err
	}
	first, err := ix.Indexes()
	if err != nil {
		return err
	}
	pages, err := first.Collect()
	if err != nil {
		return err
	}
	pf, err := pagefile.NewPageFile(mf)
	if err != nil {
		return err
	}
	for _, pg := range pages {
		im := &appendable.IndexMeta{}
		if err := pg.UnmarshalMetadata(im); err != nil {
			return err
		}
		root, err := pg.Root()
		if err != nil {
			return err
		}
		if root.Length == 0 {
			continue
		}
		w := treeWidth(csv, im)
		keys, recs, err := scanAll(pg.BPTree(&bptree.BPTree{Data: data, DataParser: handlerOf(csv), Width: w}), 1<<20)
		if err != nil {
			return err
		}
		mp, err := build(pf, w, keys, recs)
		if err != nil {
			return err
		}
		if err := pg.SetRoot(mp); err != nil {
			return err
		}
	}
	return nil
}

// growAfter puts a hole into the index file after a step.
func growAfter(step int, by int64) func(int, *MemFile) {
	return func(i int, mf *MemFile) {
		if i == step {
			mf.Grow(by)
		}
	}
}

// sparePages has others allocate n pages after the first step and give
// them up one after the other after the following ones.
func sparePages(n int, grow int64) func(int, *MemFile) {
	var own []int64
	return func(i int, mf *MemFile) {
		if i == 2 && grow > 0 {
			mf.Grow(grow)
		}
		pf, err := pagefile.NewPageFile(mf)
		if err != nil {
			panic(err)
		}
		if i == 0 {
			for k := 0; k < n; k++ {
				o, err := pf.NewPage(bytes.Repeat([]byte{0x77}, pageSz))
				if err != nil {
					panic(err)
				}
				own = append(own, o)
			}
			return
		}
		if len(own) > 0 {
			if err := pf.FreePage(own[0]); err != nil {
				panic(err)
			}
			own = own[1:]
		}
	}
}

type genOut struct {
	w  *bufio.Writer
	mu sync.Mutex
}

func (g *genOut) put(c *genCase) {
	m, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, b := range [][]byte{m, c.data, c.index} {
		var l [4]byte
		binary.LittleEndian.PutUint32(l[:], uint32(len(b)))
		g.w.Write(l[:])
		g.w.Write(b)
	}
}

func (c *genCase) build() {
	defer func() {
		if r := recover(); r != nil {
			c.Error = fmt.Sprintf("indexer crashed: %v", r)
		}
	}()
	mf := &MemFile{}
	defer func() {
		if mf.hole > 0 {
			c.Segs = [][2]int64{{0, mf.lo}, {mf.lo + mf.hole, int64(len(mf.b)) - mf.lo}}
			c.Size = mf.end()
		}
	}()
	if c.Base > 0 {
		df, free := farData(c.Base, nil, c.data)
		defer free()
		ix, err := farIndex(mf, c.CSV, c.Base, c.Search, 0)
		if err == nil {
			err = ix.Synchronize(df)
		}
		if err != nil {
			c.Error = err.Error()
		}
		c.index = mf.b
		return
	}
	ix, err := appendable.NewIndexFile(mf, handlerOf(c.CSV), c.Search)
	if err != nil {
		c.Error = err.Error()
		return
	}
	if c.chunks < 1 {
		c.chunks = 1
	}
	if c.ends != nil {
		c.chunks = len(c.ends)
	}
	for i := 1; i <= c.chunks; i++ {
		end := len(c.data) * i / c.chunks
		if c.ends != nil {
			end = c.ends[i-1]
		} else if i < c.chunks {
			if nl := strings.LastIndexByte(string(c.data[:end]), '\n'); nl >= 0 {
				end = nl + 1
			}
		}
		if err := ix.Synchronize(c.data[:end]); err != nil {
			c.Error = err.Error()
			return
		}
		if c.hook != nil {
			c.hook(i-1, mf)
			if ix, err = appendable.NewIndexFile(mf, handlerOf(c.CSV), c.Search); err != nil {
				c.Error = err.Error()
				return
			}
		}
	}
	if c.widen {
		if err := widen(mf, c.CSV, c.data); err != nil {
			c.Error = err.Error()
			return
		}
	}
	if c.deepen {
		if err := deepen(mf, c.CSV, c.data); err != nil {
			c.Error = err.Error()
			return
		}
	}
	c.index = mf.b
	if c.dump {
		d, err := readIndex(mf.Clone(), c.CSV, c.data)
		if err != nil {
			c.Error = err.Error()
			return
		}
		hs := []map[string]any{}
		for _, x := range d.idx {
			hs = append(hs, map[string]any{"name": x.name, "type": int(x.ft), "width": int(x.width), "total": x.total, "root": x.root.Offset, "rootLength": x.root.Length})
		}
		if c.Extra == nil {
			c.Extra = map[string]any{}
		}
		c.Extra["headers"] = hs
		c.Extra["entries"] = d.meta.Entries
		c.Extra["readOffset"] = d.meta.ReadOffset
		c.Extra["format"] = int(d.meta.Format)
	}
}

func genAll(out *genOut, cases []*genCase) {
	debug.SetGCPercent(400)
	// written in order, so that every run looks at the same cases in the same order
	var next atomic.Int64
	done := make([]chan struct{}, len(cases))
	for i := range done {
		done[i] = make(chan struct{})
	}
	for k := 0; k < runtime.NumCPU(); k++ {
		go func() {
			for {
				i := int(next.Add(1) - 1)
				if i >= len(cases) {
					return
				}
				cases[i].build()
				close(done[i])
			}
		}()
	}
	for i := range cases {
		<-done[i]
		out.put(cases[i])
		cases[i].index, cases[i].data = nil, nil
	}
}

func genMain(args []string) {
	if len(args) < 3 {
		fmt.Println("usage: mc gen ID OUT TIER")
		os.Exit(2)
	}
	f, err := os.Create(args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	out := &genOut{w: bufio.NewWriterSize(f, 1<<20)}
	thorough := args[2] == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	switch args[0] {
	case "C01":
		genAll(out, genC01(pick))
	case "C02", "C03":
		genAll(out, genC02(pick))
	case "C05":
		genC05(out, pick)
	case "C06":
		genAll(out, genC06(out, pick))
	case "C08":
		genAll(out, genC08(pick))
	case "C09":
		genC09(out, pick)
	case "C12":
		for _, g := range genC12(pick) {
			out.put(g)
		}
	case "C11":
		genAll(out, genC11(pick))
	default:
		fmt.Println("nothing to generate for", args[0])
		os.Exit(2)
	}
	if err := out.w.Flush(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := f.Close(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}

// ---- C01: data sets to query ------------------------------------------------

func genC01(pick func(q, t int) int) []*genCase {
	var out []*genCase
	// every sequence of up to 3 records over a value alphabet
	vals := []string{"", "null", "true", "false", "0", "1", "2.5", `""`, `"a"`, `"b"`, `"ab"`, `{"c":1}`, `[1]`}
	if pick(0, 1) == 1 {
		vals = append(vals, `"é"`, `"\u00e9"`, `"😀"`, `"\uffff"`, `1e300`, `9007199254740993`, `"1"`, `"null"`)
	}
	for n := 1; n <= 3; n++ {
		eachWord(len(vals), n, func(w []int) {
			var b strings.Builder
			for i, k := range w {
				if vals[k] == "" {
					fmt.Fprintf(&b, `{"id":%d}`+"\n", i)
				} else {
					fmt.Fprintf(&b, `{"id":%d,"a":%s}`+"\n", i, vals[k])
				}
			}
			out = append(out, &genCase{Name: fmt.Sprint("small", w), Kind: "small", data: []byte(b.String())})
		})
	}
	// pairs of wide-ranging values: text and number order
	wide := []string{`""`, `"\u0000"`, `"A"`, `"a"`, `"aa"`, `"a\u0000"`, `"\u007f"`, `"\u0080"`, `"߿"`, `"ࠀ"`, `"\uffff"`, `"𐀀"`, `"😀"`, `"\ud800"`, `"é"`, "\"e\u0301\"", `"\u0065\u0301"`, "\"\ufeff\"", "\"\ufeffa\"", "\"\u212a\"", `"k"`, `"\u2028"`, `"ﬁ"`, `"\udc00"`, `"\n"`, `"\\"`, `"\""`,
		`0`, `1`, `1.0`, `1e0`, `0.1`, `1e-320`, `1e21`, `1.7976931348623157e308`, `9007199254740991`, `9007199254740992`, `9007199254740993`, `4294967297`, `2147483648`, `123456789012345678901234567890`, `-0`, `-1`, `-2`, `-1e300`}
	for i := range wide {
		for j := range wide {
			out = append(out, &genCase{Name: fmt.Sprintf("wide %d %d", i, j), Kind: "small",
				data: []byte(fmt.Sprintf(`{"id":0,"a":%s}`+"\n"+`{"a":%s , "id":1 }`+"\n"+`{"id":2,"a": "a"}`+"\n"+`{"id":3,"a": 1}`+"\n", wide[i], wide[j]))})
		}
	}
	// names: nested fields, names with dots and spaces, unicode
	for _, n := range []string{`{"id":0,"o":{"x":1,"y":{"z":"q"}},"a.b":5,"":7,"ключ":"v","with space":true}
{"id":1,"o":{"x":2},"a":{"b":6}}
{"id":2,"o":null,"constructor":"c","toString":1,"hasOwnProperty":true}
{"id":3,"o":{"y":{"z":"r"}},"\u0061":"esc","big":"` + strings.Repeat("x", 9000) + `"}
{"id":4,"big":"` + strings.Repeat("x", 8999) + `y"}
`, "{\"id\":0,\"\u00e9\":1,\"e\u0301\":\"two\",\"\u212a\":true,\"K\":\"kelvin\",\"k\":1,\"\ufeff\":\"bom\",\"\ufeffid\":7,\" id\":8,\"ID\":9,\"\u2028\":null}\n" +
		"{\"id\":1,\"\\u00e9\":2,\"e\\u0301\":\"three\",\"\ufb01\":\"fi\",\"fi\":\"ligature\",\"\U0001f600\":\"\U0001f600\",\"\\ud83d\\ude01\":\"e\u0301\",\"a\\/b\":1,\"\\\\\":2,\"\\\"\":3,\"\\t\":4}\n" +
		"{\"id\":2,\"\u00e9\":\"e\u0301\",\"e\u0301\":\"\u00e9\",\"k\":\"\u212a\",\"\u212a\":\"k\",\"K\":\"K\"}\n"} {
		out = append(out, &genCase{Name: "names", Kind: "names", data: []byte(n)})
	}
	// long texts, long runs of blanks, long records
	for _, n := range []int{127, 128, 250, 255, 256, 257, 4000, 4090, 4095, 4096, 4097, 16383, 16384, 65535, 65536, 65537, pick(70000, 1<<20)} {
		x := strings.Repeat("x", n)
		out = append(out, &genCase{Name: fmt.Sprint("sizes-", n), Kind: "names", data: []byte(
			`{"id":0,"s":"b","t":1}` + "\n" +
				`{"id":1,"s":"` + x + `b"}` + "\n" +
				`{"id":2,"s":"` + x + `a"}` + "\n" +
				`{"id":3,` + strings.Repeat(" ", n) + `"s":"` + x + `"}` + "\n" +
				`{"id":4,"u":"` + x + `","s":"` + x[1:] + `"}` + "\n" +
				`{"id":5,"t":2}` + "\n")})
	}
	// trees of two levels: every insertion order, distinct and repeated keys
	nMid := pick(700, 1600)
	for _, order := range []string{"asc", "desc", "zigzag", "stride", "inside-out"} {
		var b strings.Builder
		for q, i := range permOrder(order, nMid) {
			fmt.Fprintf(&b, `{"id":%d,"f":%d,"s":"v%05d","g":%d,"b":%v,"z":null,"t":"%c","w":"%s"}`+"\n", q, i*2, i*2, i/40, i%2 == 0, 'a'+i%3, strings.Repeat("p", i%7)+fmt.Sprint(i/3))
		}
		out = append(out, &genCase{Name: "mid-" + order, Kind: "tree", data: []byte(b.String()), chunks: 1 + len(order)%3})
	}
	// nodes of several hundred keys
	for k, v := range []string{"null", "false"} {
		var b strings.Builder
		for i := 0; i < pick(1300, 2600); i++ {
			if k == 1 && i%60 == 59 {
				b.WriteString(`{"b":true}` + "\n")
				continue
			}
			fmt.Fprintf(&b, `{"%s":%s}`+"\n", "zb"[k:k+1], v)
		}
		out = append(out, &genCase{Name: "mid-dense-" + v, Kind: "tree", data: []byte(b.String())})
	}
	// mixed types: each tree holds every third record only
	{
		var b strings.Builder
		for i := 0; i < nMid; i++ {
			switch i % 3 {
			case 0:
				fmt.Fprintf(&b, `{"id":%d,"f":%d}`+"\n", i, i)
			case 1:
				fmt.Fprintf(&b, `{"id":%d,"f":"%d"}`+"\n", i, i)
			case 2:
				fmt.Fprintf(&b, `{"id":%d,"f":%v}`+"\n", i, i%4 == 0)
			}
		}
		out = append(out, &genCase{Name: "mid-mixed", Kind: "tree", data: []byte(b.String())})
	}
	// trees of many levels with few records
	for n := 1; n <= pick(12, 24); n++ {
		for k, order := range []string{"asc", "desc", "zigzag", "stride"} {
			if k != n%4 && pick(0, 1) == 0 {
				continue
			}
			out = append(out, &genCase{Name: fmt.Sprintf("levels %d %s", n, order), Kind: "names", deepen: true, data: levelsData(n, order)})
		}
	}
	for k, n := range []int{16, 23, 32, 33, 47, 64, pick(90, 200)} {
		out = append(out, &genCase{Name: fmt.Sprintf("mid-levels-%d", n), Kind: "tree", deepen: true, data: levelsData(n, []string{"stride", "asc", "desc", "inside-out"}[k%4])})
	}
	// nodes of hundreds of children
	for _, order := range []string{"stride", "desc"}[:pick(1, 2)] {
		var b strings.Builder
		for q, i := range permOrder(order, pick(700, 1500)) {
			fmt.Fprintf(&b, `{"f":%d,"s":"v%05d","id":%d}`+"\n", i*2, i*2, q)
		}
		out = append(out, &genCase{Name: "wide " + order, Kind: "deep", widen: true, data: []byte(b.String())})
	}
	// searchable fields
	out = append(out, &genCase{Name: "names searchable", Kind: "names", Search: []string{"t", "o.t", "n"}, data: []byte(
		`{"id":0,"t":"the cat","n":1,"o":{"t":"x"}}` + "\n" + `{"id":1,"t":"cat","n":"one","o":{"t":"abc"}}` + "\n" + `{"id":2,"t":null,"n":"two"}` + "\n" + `{"id":3,"t":"","n":null,"o":{"t":""}}` + "\n" + `{"id":4,"t":"cat"}` + "\n")})
	// files of several GiB
	for k, base := range farBases {
		for _, q := range []int{1, 2, 10, 12} {
			out = append(out, &genCase{Name: fmt.Sprintf("far small %d %d", base, q), Kind: "small", Base: base, data: []byte(
				fmt.Sprintf(`{"id":0,"a":%s}`+"\n"+`{"a":"a","id":1}`+"\n"+`{"id":2,"a":%s}`+"\n"+`{"id":3,"a":2}`+"\n", vals[q], vals[q]))})
		}
		var b strings.Builder
		for q, i := range permOrder([]string{"asc", "stride"}[k%2], pick(300, 700)) {
			fmt.Fprintf(&b, `{"id":%d,"f":%d,"s":"v%05d","g":%d,"b":%v,"z":null}`+"\n", q, i*2, i*2, i/40, i%2 == 0)
		}
		out = append(out, &genCase{Name: fmt.Sprintf("mid-far-%d", base), Kind: "tree", Base: base, data: []byte(b.String())})
	}
	// index files of several GiB: the header, the first nodes, all or some of the later ones lie behind
	for k, by := range append(farSizes, 1<<41) {
		for step := 0; step < 3; step++ {
			if step != 1 && pick(0, 1) == 0 && k != step {
				continue
			}
			var b strings.Builder
			for q, i := range permOrder([]string{"stride", "desc", "asc"}[step], pick(400, 900)) {
				fmt.Fprintf(&b, `{"id":%d,"f":%d,"s":"v%05d","g":%d,"b":%v,"z":null`, q, i*2, i*2, i/40, i%2 == 0)
				for x := 0; x < q/50%4*9; x++ {
					fmt.Fprintf(&b, `,"x%d":%d`, x, x)
				}
				b.WriteString("}\n")
			}
			out = append(out, &genCase{Name: fmt.Sprintf("mid-grown-%d-%d", by, step), Kind: "tree", data: []byte(b.String()), chunks: 4, hook: growAfter(step, by)})
			out = append(out, &genCase{Name: fmt.Sprintf("grown small %d %d", by, step), Kind: "small", chunks: 4, hook: growAfter(step, by), data: []byte(
				`{"id":0,"a":"ab"}` + "\n" + `{"a":"b","id":1}` + "\n" + `{"id":2,"a":1}` + "\n" + `{"id":3,"a":2}` + "\n")})
		}
	}
	// trees around a split: one leaf, just split, ...
	for _, n := range splitSizes(pick) {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `{"id":%d,"f":%d}`+"\n", i, i*2)
		}
		out = append(out, &genCase{Name: fmt.Sprintf("split-%d", n), Kind: "tree", data: []byte(b.String())})
	}
	// three levels
	{
		var b strings.Builder
		n := pick(38000, 60000)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `{"id":%d,"f":%d}`+"\n", i, i*2)
		}
		out = append([]*genCase{{Name: "deep-asc", Kind: "deep", data: []byte(b.String())}}, out...)
	}
	{
		var b strings.Builder
		n := pick(30000, 60000)
		for q, i := range permOrder("stride", n) {
			fmt.Fprintf(&b, `{"id":%d,"g":%d}`+"\n", q, i/700*2)
		}
		out = append([]*genCase{{Name: "deep-dups", Kind: "deep", data: []byte(b.String())}}, out...)
	}
	if pick(0, 1) == 1 {
		var b strings.Builder
		for i := 0; i < 150000; i++ {
			fmt.Fprintf(&b, `{"id":%d,"s":"%06d"}`+"\n", i, i*2)
		}
		out = append([]*genCase{{Name: "deep-text", Kind: "deep", data: []byte(b.String())}}, out...)
	}
	return out
}

func levelsData(n int, order string) []byte {
	var b strings.Builder
	for q, i := range permOrder(order, n) {
		fmt.Fprintf(&b, `{"id":%d,"f":%d,"s":"v%05d","g":%d,"b":%v,"z":null,"t":"%c","w":"%s"}`+"\n", q, i*2, i*2, i/3, i%2 == 0, 'a'+i%3, strings.Repeat("p", i%7)+fmt.Sprint(i/3))
	}
	return []byte(b.String())
}

func splitSizes(pick func(q, t int) int) []int {
	var out []int
	// a leaf of numbers holds about 240 entries: cover every size around the first splits
	for n := 225; n <= 275; n += pick(2, 1) {
		out = append(out, n)
	}
	for n := 345; n <= 395; n += pick(5, 1) {
		out = append(out, n)
	}
	return out
}

// ---- C02 --------------------------------------------------------------------

func genC02(pick func(q, t int) int) []*genCase {
	var out []*genCase
	var b strings.Builder
	for i := 0; i < 600; i++ {
		fmt.Fprintf(&b, `{"id":%d,"f":%d,"s":"v%04d","t":"ab cab %d"}`+"\n", i, i*2, i*2, i%4)
	}
	out = append(out, &genCase{Name: "two-level", Kind: "two", Search: []string{"t"}, data: []byte(b.String())})
	out = append(out, &genCase{Name: "tiny", Kind: "tiny", Search: []string{"t"}, data: []byte(`{"id":0,"f":1,"s":"x","t":"ab a"}
{"id":1,"f":2,"s":"y","t":"b"}
{"id":2,"f":2,"s":"x","t":"ab"}
`)})
	// header list over two pages
	b.Reset()
	for r := 0; r < 2; r++ {
		fmt.Fprintf(&b, `{"id":%d`, r)
		for i := 0; i < 20; i++ {
			fmt.Fprintf(&b, `,"f%d":%d`, i, i+r)
		}
		b.WriteString("}\n")
	}
	out = append(out, &genCase{Name: "fields", Kind: "fields", data: []byte(b.String())})
	return out
}

// ---- C05 --------------------------------------------------------------------

func genC05(out *genOut, pick func(q, t int) int) {
	lim := uint64(1) << uint(pick(16, 21))
	var vals []uint64
	for v := uint64(0); v < lim; v++ {
		vals = append(vals, v)
	}
	const max = uint64(1) << 53
	delta := uint64(pick(3, 200))
	for b := uint(1); b <= 53; b++ {
		for d := uint64(0); d <= 2*delta; d++ {
			v := uint64(1)<<b + d - delta
			if v <= max && v >= lim {
				vals = append(vals, v)
			}
		}
	}
	// every mixture of septets 0, 1, 127 and 64 up to the exact range
	eachWord(4, 7, func(w []int) {
		v := uint64(0)
		for _, k := range w {
			v = v<<7 | []uint64{0, 1, 0x7f, 0x40}[k]
		}
		vals = append(vals, v)
	})
	eachWord(3, 8, func(w []int) {
		v := uint64(0)
		for i, k := range w {
			if i == 0 {
				v = []uint64{1, 2, 15}[k]
			} else {
				v = v<<7 | []uint64{0, 1, 0x7f}[k]
			}
		}
		if v <= max {
			vals = append(vals, v)
		}
	})
	// encoded: value (8 bytes), predicted size (1), length (1), bytes
	var enc []byte
	for _, v := range vals {
		b := binary.AppendUvarint(nil, v)
		enc = binary.LittleEndian.AppendUint64(enc, v)
		enc = append(enc, byte(encoding.SizeVarint(v)), byte(len(b)))
		enc = append(enc, b...)
	}
	// the size prediction beyond the exact range of the client
	for _, v := range magnitudes64() {
		if v > max {
			b := binary.AppendUvarint(nil, v)
			enc = binary.LittleEndian.AppendUint64(enc, v)
			enc = append(enc, byte(encoding.SizeVarint(v)), byte(len(b)))
			enc = append(enc, b...)
		}
	}
	out.put(&genCase{Name: "values", Kind: "values", data: enc})
	// byte strings: length (1), bytes, value (8), consumed (1, signed)
	var dec []byte
	emit := func(s []byte) {
		v, n := binary.Uvarint(s)
		dec = append(dec, byte(len(s)))
		dec = append(dec, s...)
		dec = binary.LittleEndian.AppendUint64(dec, v)
		dec = append(dec, byte(int8(n)))
	}
	alpha := []byte{0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0xff}
	for n := 0; n <= pick(5, 7); n++ {
		eachWord(len(alpha), n, func(w []int) {
			s := make([]byte, n)
			for i, k := range w {
				s[i] = alpha[k]
			}
			emit(s)
		})
	}
	for n := 6; n <= 12; n++ {
		eachWord(2, n-1, func(w []int) {
			for _, last := range alpha {
				s := make([]byte, n)
				for i, k := range w {
					s[i] = []byte{0x80, 0xff}[k]
				}
				s[n-1] = last
				emit(s)
			}
		})
	}
	out.put(&genCase{Name: "strings", Kind: "strings", data: dec})
}

// ---- C06 --------------------------------------------------------------------

func genC06(out *genOut, pick func(q, t int) int) []*genCase {
	// file headers
	type fm struct {
		Version, Format     int
		ReadOffset, Entries string
		Bytes               []int
	}
	var fms []fm
	for _, f := range []appendable.Format{appendable.FormatJSONL, appendable.FormatCSV} {
		for _, ro := range magnitudes64() {
			for _, e := range magnitudes64() {
				if e > 1<<53 {
					continue
				}
				m := appendable.FileMeta{Version: appendable.CurrentVersion, Format: f, ReadOffset: ro, Entries: e}
				b, err := m.MarshalBinary()
				if err != nil {
					continue
				}
				x := fm{int(appendable.CurrentVersion), int(f), fmt.Sprint(ro), fmt.Sprint(e), nil}
				for _, c := range b {
					x.Bytes = append(x.Bytes, int(c))
				}
				fms = append(fms, x)
			}
		}
	}
	out.put(&genCase{Name: "file headers", Kind: "filemeta", Extra: map[string]any{"list": fms}})
	// header entries
	type im struct {
		Name        string
		Type, Width int
		Total       string
		Bytes       []int
	}
	var ims []im
	names := []string{"", "a", "a.b", "ключ", "\ufeffbom", "\ufeff", "😀", "with \"quotes\"", "\x00", strings.Repeat("n", 100), strings.Repeat("é", 100), strings.Repeat("x", 230)}
	for l := 0; l <= 240; l++ {
		names = append(names, strings.Repeat("q", l))
	}
	for ni, n := range names {
		for ti, t := range allTypes {
			for mi, tot := range magnitudes64() {
				if tot > 1<<53 || (ni > 3 && (ti+mi)%7 != ni%7) {
					continue
				}
				m := appendable.IndexMeta{FieldName: n, FieldType: t, Width: widthOf[t], TotalFieldValueLength: tot}
				b, err := m.MarshalBinary()
				if err != nil {
					continue
				}
				x := im{n, int(t), int(widthOf[t]), fmt.Sprint(tot), nil}
				for _, c := range b {
					x.Bytes = append(x.Bytes, int(c))
				}
				ims = append(ims, x)
			}
		}
	}
	out.put(&genCase{Name: "header entries", Kind: "indexmeta", Extra: map[string]any{"list": ims}})
	// the numbers standing for the value types and formats
	out.put(&genCase{Name: "numbers", Kind: "numbers", Extra: map[string]any{
		"types": map[string]int{
			"String": int(appendable.FieldTypeString), "Int64": int(appendable.FieldTypeInt64), "Uint64": int(appendable.FieldTypeUint64), "Float64": int(appendable.FieldTypeFloat64),
			"Object": int(appendable.FieldTypeObject), "Array": int(appendable.FieldTypeArray), "Boolean": int(appendable.FieldTypeBoolean), "Null": int(appendable.FieldTypeNull),
			"Trigram": int(appendable.FieldTypeTrigram), "Bigram": int(appendable.FieldTypeBigram), "Unigram": int(appendable.FieldTypeUnigram),
		},
		"formats": map[string]int{"JSONL": int(appendable.FormatJSONL), "CSV": int(appendable.FormatCSV)},
		"version": int(appendable.CurrentVersion),
	}})

	var cases []*genCase
	// every number of fields across header page boundaries
	vals := []string{`1`, `"s"`, `true`, `null`, `{"i":1}`, `[2]`}
	top := pick(50, 100)
	for n := 0; n <= top; n++ {
		for mix := 0; mix < 3; mix++ {
			var b strings.Builder
			rows := 1 + mix
			for r := 0; r < rows; r++ {
				b.WriteString("{")
				for k := 0; k < n; k++ {
					if k > 0 {
						b.WriteString(",")
					}
					name := fmt.Sprintf("f%d", k)
					if mix == 1 && k%5 == 0 {
						name = strings.Repeat("long", 1+k) + name
						if len(name) > 200 {
							name = name[len(name)-200:]
						}
					}
					fmt.Fprintf(&b, `"%s":%s`, name, vals[(k*mix+r*(k+1))%len(vals)])
				}
				b.WriteString("}\n")
			}
			search := []string(nil)
			if mix == 2 {
				search = []string{"f1", "f4"}
			}
			cases = append(cases, &genCase{Name: fmt.Sprintf("fields %d mix %d", n, mix), Kind: "index", data: []byte(b.String()), dump: true, Search: search, chunks: 1 + n%3})
		}
	}
	// every sequence of values of one field: mixtures of types in every order
	for l := 1; l <= pick(3, 4); l++ {
		eachWord(len(vals), l, func(w []int) {
			var b strings.Builder
			for r, k := range w {
				fmt.Fprintf(&b, `{"a":%s,"b%d":%s}`+"\n", vals[k], r%2, vals[(k+1)%len(vals)])
			}
			cases = append(cases, &genCase{Name: fmt.Sprint("types", w), Kind: "index", data: []byte(b.String()), dump: true, Search: []string{"a"}})
		})
	}
	// CSV
	for n := 1; n <= 33; n++ {
		var b strings.Builder
		for r := 0; r < 3; r++ {
			for k := 0; k < n; k++ {
				if k > 0 {
					b.WriteString(",")
				}
				switch {
				case r == 0:
					fmt.Fprintf(&b, "c%d", k)
				default:
					b.WriteString([]string{"1", "x", "true", "", "2.5"}[(k+r)%5])
				}
			}
			b.WriteString("\n")
		}
		cases = append(cases, &genCase{Name: fmt.Sprintf("csv %d", n), Kind: "index", CSV: true, data: []byte(b.String()), dump: true})
	}
	// names that look alike, each with several types
	{
		var b strings.Builder
		alike := []string{"é", "e\u0301", "K", "k", "\u212a", " k", "k ", "ﬁ", "fi", "İ", "i", "i\u0307", "ａ", "a", "\ufeffa", "a\u200b", "a\u0000", "1", "01", "1.0", "１"}
		for r, v := range []string{"1", `"x"`, "true", "null", `[1]`, `{"é":1,"e\u0301":"x"}`} {
			b.WriteByte('{')
			for k, n := range alike {
				if k > 0 {
					b.WriteByte(',')
				}
				q := v
				if (k+r)%7 == 6 {
					q = "2"
				}
				name, _ := json.Marshal(n)
				fmt.Fprintf(&b, "%s:%s", name, q)
			}
			b.WriteString("}\n")
		}
		cases = append(cases, &genCase{Name: "names alike", Kind: "index", dump: true, data: []byte(b.String())})
	}
	cases = append(cases, &genCase{Name: "names", Kind: "index", dump: true, data: []byte(`{"":1,"ключ":"v","with space":true,"a.b":1,"a":{"b":"x","":null},"\ufeffbom":1,"constructor":2,"__proto__":3,"q\"uote":4}` + "\n")})
	cases = append(cases, &genCase{Name: "no data", Kind: "index", dump: true, data: nil})
	// header pages in freed pages before and behind, and in files of several GiB
	for _, ns := range [][]int{{3, 6, 9, 13}, {3, 14, 15, 16}, {10, 14, 29, 44}, {10, 29, 44, 59}, {10, 28, 29, 30}, {14, 29, 44, 46}, {12, 30, 45, 60}, {0, 14, 15, 31}} {
		for k := 0; k < 8; k++ {
			var b strings.Builder
			var ends []int
			for r, n := range ns {
				// the fields appear in four steps
				b.WriteString("{")
				for q := 0; q < n; q++ {
					if q > 0 {
						b.WriteString(",")
					}
					fmt.Fprintf(&b, `"f%d":%s`, q, vals[q%2+2*(k%3)])
				}
				b.WriteString("}\n")
				if r == 0 {
					b.WriteString("{}\n")
				}
				ends = append(ends, b.Len())
			}
			h := sparePages(4, 0)
			switch {
			case k >= 5:
				h = sparePages(2+k%2, farSizes[k-5])
			case k >= 2:
				h = growAfter(k-2, farSizes[k-2])
			}
			cases = append(cases, &genCase{Name: fmt.Sprintf("layout %d fields %v", k, ns), Kind: "index", data: []byte(b.String()), dump: true, ends: ends, hook: h})
		}
	}
	cases = append(cases, &genCase{Name: "many entries", Kind: "index", dump: true, data: []byte(strings.Repeat("{\"a\":1}\n", 300))})
	cases = append(cases, &genCase{Name: "20000 entries", Kind: "index", dump: true, data: []byte(strings.Repeat("{}\n", 20000))})
	return cases
}

// ---- C08 --------------------------------------------------------------------

func genC08(pick func(q, t int) int) []*genCase {
	var out []*genCase
	texts := []string{"", "a", "ab", "ba", "abb", "a b", "abab ab"}
	if pick(0, 1) == 1 {
		texts = append(texts, "aaa", "b-a", "ab ba ab", "zz")
	}
	for n := 1; n <= 3; n++ {
		eachWord(len(texts), n, func(w []int) {
			var b strings.Builder
			for i, k := range w {
				fmt.Fprintf(&b, `{"id":%d,"t":"%s"}`+"\n", i, texts[k])
			}
			out = append(out, &genCase{Name: fmt.Sprint("corpus", w), Kind: "small", Search: []string{"t"}, data: []byte(b.String())})
		})
	}
	// larger: more records, so that the frequency weights have both signs, and other fields
	more := []string{"the cat sat on the mat", "the dog", "cat", "concatenate", "", "dog dog dog", "a quick brown fox", "mat", "Cat DOG", "12 34 cat", "naïve café", "ca-t", "tac"}
	for rot := 0; rot < len(more); rot++ {
		for _, n := range []int{5, len(more)} {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, `{"id":%d,"u":"cat %d","t":"%s"}`+"\n", i, i, more[(i+rot)%len(more)])
				if i%4 == 1 {
					fmt.Fprintf(&b, `{"id":%d,"t":%d}`+"\n", 100+i, i)
				}
				if i%4 == 2 {
					fmt.Fprintf(&b, `{"id":%d}`+"\n", 100+i)
				}
			}
			out = append(out, &genCase{Name: fmt.Sprintf("words %d/%d", rot, n), Kind: "words", Search: []string{"t", "u"}, data: []byte(b.String())})
		}
	}
	// many occurrences in a record
	for _, n := range []int{2, 64, 127, 255, 256, pick(300, 5000)} {
		var b strings.Builder
		for i, s := range []string{strings.Repeat("cat ", n), "cat", strings.Repeat("the ", n) + "dog", "dog dog", strings.Repeat("12x", n), "", "naive"} {
			fmt.Fprintf(&b, `{"id":%d,"u":"x","t":"%s"}`+"\n", i, s)
		}
		out = append(out, &genCase{Name: fmt.Sprintf("words often %d", n), Kind: "words", Search: []string{"t", "u"}, data: []byte(b.String())})
	}
	// long records
	for _, n := range []int{4090, 16384, 65530, pick(70000, 1<<20)} {
		var b strings.Builder
		for i, s := range more {
			fmt.Fprintf(&b, `{"id":%d,"u":"cat %d","t":"%s","v":"%s"}`+"\n", i, i, s, strings.Repeat("x", i%3*n/2))
		}
		out = append(out, &genCase{Name: fmt.Sprintf("words long %d", n), Kind: "words", Search: []string{"t", "u"}, data: []byte(b.String())})
	}
	// files of several GiB
	for _, base := range farBases {
		var b strings.Builder
		for i, s := range more {
			fmt.Fprintf(&b, `{"id":%d,"u":"cat %d","t":"%s"}`+"\n", i, i, s)
		}
		out = append(out, &genCase{Name: fmt.Sprintf("words far %d", base), Kind: "words", Base: base, Search: []string{"t", "u"}, data: []byte(b.String())})
	}
	for _, by := range farSizes {
		var b strings.Builder
		for i := 0; i < 5*len(more); i++ {
			fmt.Fprintf(&b, `{"id":%d,"u":"cat %d","t":"%s"}`+"\n", i, i, more[i%len(more)])
		}
		out = append(out, &genCase{Name: fmt.Sprintf("words grown %d", by), Kind: "words", chunks: 3, hook: growAfter(0, by), Search: []string{"t", "u"}, data: []byte(b.String())})
	}
	// many levels with few records
	for _, k := range []int{1, 3, 5} {
		var b strings.Builder
		for i := 0; i < k*len(more); i++ {
			fmt.Fprintf(&b, `{"id":%d,"u":"cat %d","t":"%s"}`+"\n", i, i, more[(i*i+k)%len(more)])
		}
		out = append(out, &genCase{Name: fmt.Sprintf("words levels %d", k), Kind: "words", deepen: true, Search: []string{"t", "u"}, data: []byte(b.String())})
	}
	// nodes of hundreds of children
	{
		var b strings.Builder
		for i := 0; i < 700; i++ {
			fmt.Fprintf(&b, `{"id":%d,"u":"cat %d","t":"%s"}`+"\n", i, i, more[i%len(more)])
		}
		out = append(out, &genCase{Name: "words wide", Kind: "words", widen: true, Search: []string{"t", "u"}, data: []byte(b.String())})
	}
	// n-gram trees of several levels
	var b strings.Builder
	n := pick(1100, 3000)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, `{"id":%d,"t":"%s x%d"}`+"\n", i, []string{"abc", "bcd cde", "cab abc", "zzz"}[i%4], i%10)
	}
	out = append(out, &genCase{Name: "large", Kind: "large", Search: []string{"t"}, data: []byte(b.String())})
	return out
}

// ---- C11: the same kind of records, more and more of them ------------------

func genC11(pick func(q, t int) int) []*genCase {
	var out []*genCase
	for _, n := range []int{1, 12, 60, 400, 3000, pick(12000, 40000)} {
		for _, order := range []string{"asc", "stride", "desc"} {
			if n < 400 && order != "asc" || n > 20000 && order == "desc" {
				continue
			}
			var b strings.Builder
			for _, i := range permOrder(order, n) {
				fmt.Fprintf(&b, `{"id":%d,"d":%d,"s":"the text of number %06d","b":%v,"z":null,"rest":"%s"}`+"\n", 2*i, i%7, 2*i, i%3 == 0, strings.Repeat("x", 100+i%50))
			}
			out = append(out, &genCase{Name: fmt.Sprintf("%d %s", n, order), Kind: "field", data: []byte(b.String())})
		}
	}
	// many fields, which makes a long list of headers
	for _, fields := range []int{20, 100} {
		var b strings.Builder
		for i := 0; i < 100; i++ {
			b.WriteString(`{"id":` + fmt.Sprint(2*i))
			for f := 0; f < fields; f++ {
				fmt.Fprintf(&b, `,"f%d":%d`, f, i+f)
			}
			b.WriteString("}\n")
		}
		out = append(out, &genCase{Name: fmt.Sprintf("100 of %d fields", fields), Kind: "field", Extra: map[string]any{"fields": fields + 1, "last": fmt.Sprintf("f%d", fields-1)}, data: []byte(b.String())})
	}
	for _, n := range []int{1, 20, 200, pick(8000, 20000)} {
		var b strings.Builder
		for i := 0; i < n; i++ {
			w := "many"
			if i%10 == 7 {
				w = "some"
			}
			if i == n/2 {
				w = "bcd"
			}
			fmt.Fprintf(&b, `{"id":%d,"t":"%s","rest":"%s"}`+"\n", i, w, strings.Repeat("x", 300))
		}
		out = append(out, &genCase{Name: fmt.Sprintf("search %d", n), Kind: "search", Search: []string{"t"}, data: []byte(b.String())})
	}
	return out
}

// ---- C12: every state an index file goes through while it is extended ------

// moments is an index together with the writes of its extension, appended to the index:
// offset, length and bytes of each. Letter k of whole says whether after k writes every
// entry of the header list has its description.
func moments(name string, search []string, base, more []string, from int) *genCase {
	g := &genCase{Name: name, Kind: "moments", Search: search}
	old := []byte(strings.Join(base, ""))
	g.data = []byte(strings.Join(base, "") + strings.Join(more, ""))
	g.Extra = map[string]any{"base": len(base), "from": from}
	mf := &MemFile{}
	if len(base) > 0 {
		if _, err := syncIndex(mf, false, old, search); err != nil {
			g.Error = err.Error()
			return g
		}
	}
	img := append([]byte(nil), mf.b...)
	mf.logWrites = true
	if _, err := syncIndex(mf, false, g.data, search); err != nil {
		g.Error = err.Error()
		return g
	}
	g.Extra["image"] = len(img)
	g.index = append([]byte(nil), img...)
	whole := ""
	described := func() {
		if undescribed(img) {
			whole += "n"
		} else {
			whole += "y"
		}
	}
	described()
	for _, w := range mf.log {
		g.index = binary.LittleEndian.AppendUint64(g.index, uint64(w.off))
		g.index = binary.LittleEndian.AppendUint32(g.index, uint32(len(w.data)))
		g.index = append(g.index, w.data...)
		img = applyWrite(img, w.off, w.data)
		described()
	}
	g.Extra["whole"] = whole
	return g
}

// undescribed reports whether the last entry of the header list has been added
// but not described yet; anything else that is wrong with the list is no excuse.
func undescribed(img []byte) bool {
	for off, hops := uint64(4096), 0; off%4096 == 0 && off+4096 <= uint64(len(img)) && hops < 1000; hops++ {
		p := img[off : off+4096]
		next, count := binary.LittleEndian.Uint64(p), int(p[8])
		if next != ^uint64(0) {
			off = next
			continue
		}
		return count >= 1 && count <= 15 && p[9+(count-1)*265+12] == 0
	}
	return false
}

func genC12(pick func(q, t int) int) []*genCase {
	var out []*genCase
	kinds := []struct {
		name   string
		search []string
		rec    func(id int) string
		sizes  [][2]int
	}{
		{"number", nil, func(id int) string { return fmt.Sprintf(`{"id":%d}`+"\n", id) }, [][2]int{{0, 30}, {1, 20}, {200, pick(300, 900)}}},
		{"mixed", nil, func(id int) string {
			return fmt.Sprintf(`{"id":%d,"s":"text %04d","b":%v,"z":null,"o":{"x":%d}}`+"\n", id, id, id%4 == 0, id%7)
		}, [][2]int{{0, 10}, {pick(150, 400), pick(80, 200)}}},
		{"long", nil, func(id int) string {
			return fmt.Sprintf(`{"id":%d,"s":"%s%04d"}`+"\n", id, strings.Repeat("x", 900), id)
		}, [][2]int{{5, 20}, {pick(90, 200), pick(60, 200)}}},
		{"search", []string{"t"}, func(id int) string {
			return fmt.Sprintf(`{"id":%d,"t":"common w%02d"}`+"\n", id, id%50)
		}, [][2]int{{0, 3}, {1, 10}, {pick(30, 80), pick(12, 40)}}},
	}
	for _, k := range kinds {
		for _, n := range k.sizes {
			for _, order := range []string{"asc", "stride", "desc"} {
				if n[0] < 10 && order != "asc" {
					continue
				}
				var base, more []string
				for _, i := range permOrder(order, n[0]) {
					base = append(base, k.rec(2*i))
				}
				for _, i := range permOrder(order, n[1]) {
					id := 2*(n[0]+i) + 1 // behind the old ones
					if order == "stride" {
						id = 2*(i*n[0]/n[1]) + 1 // between the old ones
						if n[1] > n[0] {
							id = 2*i + 1
						}
					} else if order == "desc" {
						id = 2*n[0] + 2*i + 1
					}
					more = append(more, k.rec(id))
				}
				out = append(out, moments(fmt.Sprintf("%s %d+%d %s", k.name, n[0], n[1], order), k.search, base, more, 0))
			}
		}
	}
	// new fields, which makes the header list grow over pages
	for _, n := range []int{1, 12, 13, 14, pick(18, 40)} {
		var base, more []string
		for i := 0; i < 3; i++ {
			base = append(base, fmt.Sprintf(`{"id":%d,"s":"x%d"}`+"\n", 2*i, i))
		}
		for i := 0; i < 2; i++ {
			r := fmt.Sprintf(`{"id":%d,"s":"y"`, 2*i+1)
			for f := 0; f < n; f++ {
				r += fmt.Sprintf(`,"f%d":%d`, f, i)
			}
			more = append(more, r+"}\n")
		}
		out = append(out, moments(fmt.Sprintf("%d new fields", n), nil, base, more, 0))
	}
	// a tree about to get its third level
	if n := thirdLevel(); n > 0 {
		var base, more []string
		for i := 0; i < n-3; i++ {
			base = append(base, fmt.Sprintf(`{"id":%d}`+"\n", 2*i))
		}
		for i := 0; i < pick(6, 150); i++ {
			more = append(more, fmt.Sprintf(`{"id":%d}`+"\n", 2*(n-3+i)))
		}
		out = append(out, moments(fmt.Sprintf("third level %d", n), nil, base, more, 2*(n-700)))
	}
	return out
}

// thirdLevel is the number of ascending numbers that give the tree its third level.
func thirdLevel() int {
	var data []byte
	var ends []int
	for i := 0; i < 60000; i++ {
		data = append(data, fmt.Sprintf(`{"id":%d}`+"\n", 2*i)...)
		ends = append(ends, len(data))
	}
	mf := &MemFile{}
	levels := func(n int) int {
		ix, err := syncIndex(mf, false, data[:ends[n-1]], nil)
		if err != nil {
			return 0
		}
		pg, _, err := ix.FindOrCreateIndex("id", appendable.FieldTypeFloat64)
		if err != nil {
			return 0
		}
		root, err := pg.Root()
		if err != nil {
			return 0
		}
		l := 1
		for off := root.Offset; ; l++ {
			n := &bptree.BPTreeNode{Data: data, DataParser: handlerOf(false), Width: 9}
			if off+4096 > uint64(len(mf.b)) || n.UnmarshalBinary(mf.b[off:off+4096]) != nil || l > 9 {
				return 0
			}
			if n.Leaf() {
				return l
			}
			off = n.Pointer(0).Offset
		}
	}
	// the file can only grow: look for it in big steps first
	for n := 1000; n <= len(ends); n += 500 {
		before := append([]byte(nil), mf.b...)
		if levels(n) < 3 {
			continue
		}
		mf.b = before
		for m := n - 499; m <= n; m++ {
			if levels(m) >= 3 {
				return m
			}
		}
	}
	return 0
}

// ---- C09 --------------------------------------------------------------------

func genC09(out *genOut, pick func(q, t int) int) {
	alpha := []string{"a", "Z", "0", "-", " ", "\n"}
	var list []string
	for n := 0; n <= pick(5, 7); n++ {
		eachWord(len(alpha), n, func(w []int) {
			s := ""
			for _, k := range w {
				s += alpha[k]
			}
			list = append(list, s)
		})
	}
	// every ASCII character alone, between letters and next to each other class
	for c := 0; c < 128; c++ {
		x := string(rune(c))
		list = append(list, x, "a"+x+"b", "ab"+x+"cd", x+"abc", "abc"+x, "a "+x+" b", x+x+x, "abcd"+x+"efgh"+x)
		for d := 0; d < 128; d += pick(1, 1) {
			list = append(list, "ab"+x+string(rune(d))+"cd")
		}
	}
	type tokList struct {
		Text string      `json:"t"`
		Tok  [3][]string `json:"g"`
	}
	var b []byte
	for _, s := range list {
		l := tokList{Text: s}
		for g := 1; g <= 3; g++ {
			l.Tok[g-1] = []string{}
			for _, t := range ngram.BuildNgram(s, g) {
				l.Tok[g-1] = append(l.Tok[g-1], t.Word)
			}
		}
		j, err := json.Marshal(l)
		if err != nil {
			panic(err)
		}
		b = append(append(b, j...), '\n')
	}
	out.put(&genCase{Name: "tokens", Kind: "tokens", data: b})
}

// eachWord enumerates all words of length n over k letters.
func eachWord(k, n int, f func(w []int)) {
	w := make([]int, n)
	for {
		f(w)
		i := n - 1
		for i >= 0 && w[i] == k-1 {
			w[i] = 0
			i--
		}
		if i < 0 {
			return
		}
		w[i]++
	}
}

// numberLiterals are decimal literals of every shape: sign x integer part x
// fraction x exponent, without those out of the range of a double.
func numberLiterals(thorough bool) []string {
	ints := []string{"0", "1", "9", "10", "123", "4294967296", "9007199254740993", "18446744073709551616", "123456789012345678901234567890"}
	fracs := []string{"", ".0", ".1", ".5", ".25", ".3333333333333333", ".123456789012345678901"}
	exps := []string{"", "e0", "e5", "E-7", "e+22", "e-300", "e250", "e-320"}
	if thorough {
		ints = append(ints, "2", "7", "99", "1000000", "2147483648", "16777217", "9007199254740992", "9223372036854775807", "9223372036854775808")
		fracs = append(fracs, ".2", ".9", ".75", ".015625", ".30000000000000004", ".99999999999999999", ".0000001")
		exps = append(exps, "e1", "E2", "e-1", "e10", "e-10", "e22", "e23", "e100", "e-100")
	}
	var out []string
	for _, s := range []string{"", "-"} {
		for _, i := range ints {
			for _, f := range fracs {
				for _, e := range exps {
					if v, err := strconv.ParseFloat(s+i+f+e, 64); err == nil && (s == "" || v != 0) {
						out = append(out, s+i+f+e)
					}
				}
			}
		}
	}
	return out
}

// plainRunes are characters that may stand for themselves in every format.
func plainRunes(thorough bool) []rune {
	var out []rune
	for r := rune(0x20); r < 0x20000; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		if !thorough && r > 0x250 && r%61 != 0 && !(r >= 0x2000 && r < 0x2100) && r < 0xfe00 || r > 0x10000 && r%509 != 0 {
			continue
		}
		out = append(out, r)
	}
	return append(out, 0x1f600, 0x10fffd, 0x10ffff)
}

func chunks(n, size int) (out [][2]int) {
	for i := 0; i < n; i += size {
		out = append(out, [2]int{i, min(n, i+size)})
	}
	return
}
