package main

import (
	"fmt"
	"sort"
	"strings"
)

// sizeClasses are the lengths at which buffers, varints and counters of
// common widths roll over, with their neighbours.
func sizeClasses(thorough bool) []int {
	var out []int
	add := func(n, d int) {
		for k := n - d; k <= n+d; k++ {
			out = append(out, k)
		}
	}
	d := 1
	if thorough {
		d = 4
	}
	for _, n := range []int{128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
		add(n, d)
	}
	add(128<<10, d-1)
	add(1<<20, d-1)
	if thorough {
		add(2<<20, 1)
		add(5<<20, 0)
	}
	return out
}

// jsonlSizes are files with one part of about n bytes: a text, blanks, an
// array, a nested object, a line of many small fields.
func jsonlSizes(n int) map[string]*jsonlFile {
	out := map[string]*jsonlFile{}
	x := strings.Repeat("x", n)
	str := func(s string) jval { return jstr(s, `"`+s+`"`) }
	f := &jsonlFile{}
	f.add(jobj(jf("a", jnum(1, "1")), jf("s", str("b"))), jws{})
	f.add(jobj(jf("s", str(x+"b")), jf("k", jbool(true))), jws{})
	f.add(jobj(jf("s", str(x+"a"))), jws{postColon: " "})
	f.add(jobj(jf("s", jstr(x+"A", `"`+x+`\u0041"`))), jws{})
	f.add(jobj(jf("s", str(x))), jws{})
	f.add(jobj(jf("s", str(x[1:])), jf("a", jnum(2, "2"))), jws{})
	out["text"] = f
	f = &jsonlFile{}
	w := strings.Repeat(" ", n)
	for k, ws := range []jws{{open: w}, {preColon: w}, {postColon: w}, {end: w}, {}} {
		f.add(jobj(jf("a", jnum(float64(k), fmt.Sprint(k))), jf("s", str("v"))), ws)
	}
	out["blanks"] = f
	f = &jsonlFile{}
	a := "[" + strings.Repeat(`1,{"s":"]"},`, n/12) + strings.Repeat(" ", n%12) + "2]"
	f.add(jobj(jf("r", jarr(a)), jf("s", str("after"))), jws{})
	f.add(jobj(jf("b", jbool(false)), jf("r", jarr(a)), jf("o", jobj(jf("r", jarr(a)), jf("t", jnull())))), jws{})
	out["array"] = f
	f = &jsonlFile{}
	// many fields share one name in nested objects of different names
	var fs []jfield
	for k := 0; k*11 < n && k < 300; k++ {
		fs = append(fs, jf(fmt.Sprintf("f%d", k), jnum(float64(k), fmt.Sprint(k))))
	}
	f.add(jobj(fs...), jws{})
	f.add(jobj(jf("f1", str("x")), jf("z", jnull())), jws{})
	f.add(jobj(fs[len(fs)/2:]...), jws{})
	out["fields"] = f
	return out
}

// hugeRecord is longer than 24 bits count: one text of n bytes, then blanks of
// the same length inside a record.
func hugeRecord(n int) *jsonlFile {
	f := &jsonlFile{}
	s := strings.Repeat("x", n)
	f.add(jobj(jf("a", jnum(1, "1")), jf("s", jstr("b", `"b"`))), jws{})
	f.add(jobj(jf("a", jnum(2, "2")), jf("s", jstr(s, `"`+s+`"`)), jf("k", jbool(true))), jws{})
	f.add(jobj(jf("a", jnum(0, "0")), jf("s", jstr("a", `"a"`))), jws{postColon: strings.Repeat(" ", n)})
	f.add(jobj(jf("a", jnum(3, "3"))), jws{})
	return f
}

func jsonlSizeCheck(c *Ctx, key string, search []string) {
	indexOnce(c, key+"-huge", hugeRecord(1<<24+5), "", search)
	ns := sizeClasses(c.Thorough)
	c.Par(len(ns), func(i int) {
		for name, f := range jsonlSizes(ns[len(ns)-1-i]) {
			if name == "fields" && ns[len(ns)-1-i] > 4200 {
				continue
			}
			indexOnce(c, key+"-"+name, f, "", search)
		}
	})
}

// csvSizes: the same for CSV.
func csvSizes(n int) map[string]*csvFile {
	out := map[string]*csvFile{}
	x := strings.Repeat("x", n)
	f := newCSV("\n", ccol{"a", "a"}, ccol{"s", "s"})
	f.row("\n", cn("1", 1), cs0("b"))
	f.row("\n", cs0(x+"b"), cs0(x+"a"))
	f.row("\r\n", csq(`"`+x+`"`, x), cs0(x[1:]))
	f.row("\n", cn("2", 2), csq(`"`+x+`"""`, x+`"`))
	f.row("\n", cs0("c"), cfield{raw: "false", kind: 'b'})
	out["text"] = f
	if n <= 1100 {
		var cols []ccol
		for k := 0; k < n/3; k++ {
			s := fmt.Sprintf("c%d", k)
			cols = append(cols, ccol{s, s})
		}
		f = newCSV("\n", cols...)
		var row []cfield
		for k := 0; k < n/3; k++ {
			row = append(row, []cfield{cn("1", 1), cs0("x"), {kind: 'z'}}[k%3])
		}
		f.row("\n", row...)
		f.row("\n", row[n/8:]...)
		f.row("\n", row[1:]...)
		out["columns"] = f
	}
	return out
}

func csvSizeCheck(c *Ctx, key string) {
	h, x := newCSV("\n", ccol{"a", "a"}, ccol{"s", "s"}), strings.Repeat("x", 1<<24+5)
	h.row("\n", cn("1", 1), cs0("b"))
	h.row("\n", cn("2", 2), cs0(x))
	h.row("\n", cn("0", 0), cs0("a"))
	csvOnce(c, key+"-huge", h, "")
	ns := sizeClasses(c.Thorough)
	c.Par(len(ns), func(i int) {
		for name, f := range csvSizes(ns[len(ns)-1-i]) {
			csvOnce(c, key+"-"+name, f, "")
		}
	})
}

// incrSizes appends to files with long lines: all pairs of boundaries around
// line ends and buffer-sized offsets.
func incrSizes(c *Ctx, key string, csv bool) {
	ns := []int{250, 4096, 70000}
	if c.Thorough {
		ns = []int{250, 255, 256, 1024, 4090, 4096, 8192, 32768, 65530, 65536, 70000, 1 << 20}
	}
	for _, n := range ns {
		x := strings.Repeat("x", n)
		var lines []string
		if csv {
			lines = []string{"a,s\n", "1,b\n", x + "b,2\n", "true," + x + "\r\n", "\"" + x + "\",\n", "2,c\n"}
		} else {
			lines = []string{`{"a":1,"s":"b"}` + "\n", `{"s":"` + x + `b","k":true}` + "\n", `{"s" : "` + x + `a"}` + strings.Repeat(" ", n) + "\r\n", `{"a":2}` + "\n", `{"o":{"r":[` + strings.Repeat("1,", n/2) + `0]},"a":"` + x + `"}` + "\n"}
		}
		data := []byte(strings.Join(lines, ""))
		at := map[int]bool{}
		add := func(p, d int) {
			for q := p - d; q <= p+d; q++ {
				if q >= 0 && q <= len(data) {
					at[q] = true
				}
			}
		}
		p := 0
		for _, l := range lines {
			add(p, c.Bound(0, 1))
			add(p+len(l)-1, 0)
			add(p+len(l)/2, 0)
			p += len(l)
		}
		add(p, 0)
		for q := 4096; q < len(data); q *= c.Bound(4, 2) {
			add(q, c.Bound(0, 1))
		}
		var cuts []int
		for q := range at {
			cuts = append(cuts, q)
		}
		sort.Ints(cuts)
		f := &incrFile{csv: csv, data: data, fresh: make([]*dump, len(data)+1), brief: fmt.Sprintf("lines around %d bytes", n)}
		c.Par(len(cuts), func(i int) {
			c.Guard(key+"-fresh", n, func() {
				q := cuts[i]
				d, _, err := fresh(csv, data[:q:q], nil)
				if err != nil {
					c.Violf(key+"-fresh", map[string]any{"line": n, "upto": q}, "indexing valid data failed: %v", err)
					return
				}
				f.fresh[q] = d
			})
		})
		for _, q := range cuts {
			if f.fresh[q] == nil {
				return
			}
		}
		c.Par(len(cuts), func(i int) {
			a := cuts[i]
			f.run(c, key, []int{a, len(data), len(data)}, 2)
			for j := i; j < len(cuts); j++ {
				f.run(c, key, []int{a, cuts[j], len(data)}, uint(i*3+j)%8)
				if c.Expired("sizes") {
					return
				}
			}
		})
	}
}
