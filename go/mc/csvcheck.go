package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
)

func init() {
	register("I04", "model_checking", checkI04)
	register("I05", "model_checking", checkI05)
}

// cfield is a CSV field: how it is written, its text and what it means.
type cfield struct {
	raw, text string
	kind      byte // z n b s
	num       float64
}

func cs0(s string) cfield             { return cfield{raw: s, text: s, kind: 's'} }
func csq(raw, s string) cfield        { return cfield{raw: raw, text: s, kind: 's'} }
func cn(raw string, f float64) cfield { return cfield{raw: raw, text: raw, kind: 'n', num: f} }

func csvFields() []cfield {
	return []cfield{
		{raw: "", kind: 'z'}, {raw: `""`, kind: 'z'}, cn("1", 1), cn("-2.5", -2.5), cn("1e3", 1000), cn("0", 0), cn("007", 7), cn("123456789012", 123456789012), {raw: `"12"`, text: "12", kind: 'n', num: 12},
		{raw: "true", text: "true", kind: 'b', num: 1}, {raw: "false", text: "false", kind: 'b'}, {raw: `"true"`, text: "true", kind: 'b', num: 1},
		cs0("x"), cs0("text 2"), cs0(" sp"), cs0("é世"), cs0("1 2"), cs0("truex"), csq(`"quoted"`, "quoted"), csq(`"a,b"`, "a,b"), csq(`"q""q"`, `q"q`), csq(`""""`, `"`), csq(`","`, ","), csq(`"x"`, "x"), csq(`" "`, " "), cs0("1-2"), cs0("{}"), cs0("null"), cs0("#x"), cs0("x\r"), cs0("\ty;"),
	}
}

type csvFile struct {
	data  []byte
	cols  []string
	m     expModel
	inner map[uint64][2]uint64
}

type ccol struct{ raw, name string }

func newCSV(eol string, cols ...ccol) *csvFile {
	f := &csvFile{}
	for i, c := range cols {
		if i > 0 {
			f.data = append(f.data, ',')
		}
		f.data = append(f.data, c.raw...)
		f.cols = append(f.cols, c.name)
	}
	f.data = append(f.data, eol...)
	f.m.offset = uint64(len(f.data))
	return f
}

func (f *csvFile) row(eol string, fs ...cfield) {
	if n := len(fs); eol == "\n" && n > 0 && strings.HasSuffix(fs[n-1].raw, "\r") {
		eol = "\r\n" // would read as one line end otherwise
	}
	start := uint64(len(f.data))
	type pend struct {
		x *expIndex
		e expEntry
	}
	var ps []pend
	for i, c := range fs {
		if i > 0 {
			f.data = append(f.data, ',')
		}
		vs := uint64(len(f.data))
		f.data = append(f.data, c.raw...)
		e := expEntry{vs: vs, ve: uint64(len(f.data)), quoted: len(c.raw) >= 2 && c.raw[0] == '"'}
		ft := appendable.FieldTypeString
		switch c.kind {
		case 'z':
			ft, e.key = appendable.FieldTypeNull, []byte{}
		case 'n':
			ft, e.key = appendable.FieldTypeFloat64, f64key(c.num)
		case 'b':
			ft, e.key = appendable.FieldTypeBoolean, []byte{byte(c.num)}
		default:
			e.key = []byte(c.text)
		}
		ps = append(ps, pend{f.m.at(f.cols[i], ft), e})
	}
	f.data = append(f.data, eol...)
	for _, p := range ps {
		p.e.recOff, p.e.recEnd = start, uint64(len(f.data))-1
		p.x.entries = append(p.x.entries, p.e)
	}
	f.m.entries++
	f.m.offset = uint64(len(f.data))
}

func csvOnce(c *Ctx, key string, f *csvFile, tail string) {
	cs := map[string]any{"data": firstN(string(f.data)+tail, 1500)}
	c.Guard(key, cs, func() {
		data := append(append([]byte(nil), f.data...), tail...)
		keep := string(data)
		mf := &MemFile{}
		if _, err := syncIndex(mf, true, data, nil); err != nil {
			c.Violf(key+"-error", cs, "indexing valid data failed: %v", err)
			return
		}
		if string(data) != keep {
			c.Violf(key+"-data", cs, "indexing changed the data")
		}
		d, err := readIndex(&MemFile{b: mf.b}, true, data)
		if err != nil {
			c.Violf(key+"-read", cs, "reading the index back failed: %v", err)
			return
		}
		if s := checkIndex(d, &f.m, data, true, false); s != "" {
			c.Violf(key, cs, "%s", s)
		}
		c.Trans(int(f.m.entries) + 1)
		c.Trace(1)
		c.State(H64(mf.b))
	})
}

var csvHeaders = [][]ccol{
	{{"a", "a"}, {"b", "b"}, {"c", "c"}},
	{{`"a"`, "a"}, {`"b,x"`, "b,x"}, {`"c""d"`, `c"d`}},
	{{"a", "a"}, {"a", "a"}, {"", ""}},
	{{" a", " a"}, {"é", "é"}, {"1", "1"}},
	{{"#a", "#a"}, {"\tb", "\tb"}, {"null", "null"}},
}

func checkI04(c *Ctx) {
	fs := csvFields()
	eols := []string{"\n", "\r\n"}
	c.Par(len(fs), func(i int) {
		for hi, h := range csvHeaders {
			for _, eol := range eols {
				for j := range fs {
					// one row of two fields, a short and a full one; two rows
					f := newCSV(eol, h...)
					f.row(eol, fs[i], fs[j])
					csvOnce(c, "pair", f, "")
					f = newCSV(eol, h...)
					f.row(eol, fs[i], fs[j], fs[(i*5+j*3+hi)%len(fs)])
					f.row(eol, fs[j], fs[i])
					csvOnce(c, "rows", f, "1,2")
					if hi == 0 {
						for k := range fs {
							if !c.Thorough && (i+j+k)%4 != 0 {
								continue
							}
							f = newCSV(eol, h...)
							f.row(eol, fs[i], fs[j], fs[k])
							csvOnce(c, "triple", f, "")
						}
					}
				}
			}
		}
		// single column: an empty row cannot be told from a blank line
		f := newCSV("\n", ccol{"only", "only"})
		for k := 0; k < 3; k++ {
			if fs[i].raw != "" {
				f.row(eols[k%2], fs[i])
			}
		}
		csvOnce(c, "single", f, "")
	})
	// words of rows, with an unfinished last line
	rows := [][]cfield{
		{cn("1", 1), cs0("x"), {raw: "", kind: 'z'}}, {cs0("x"), cn("1", 1)}, {{raw: "", kind: 'z'}, {raw: "", kind: 'z'}, {raw: "", kind: 'z'}},
		{csq(`"q,1"`, "q,1"), csq(`"r""s"`, `r"s`), cn("-1", -1)}, {{raw: "true", text: "true", kind: 'b', num: 1}, cs0("é"), {raw: "false", text: "false", kind: 'b'}}, {cs0("x")}, {cn("1.0", 1), cs0("y"), csq(`"y"`, "y")},
	}
	tails := []string{"", "1", `"unterminated`, "1,2,3,4,5", ","}
	for n := 0; n <= c.Bound(5, 6); n++ {
		words(c, len(rows), n, func(w []int) {
			k := 0
			for i, x := range w {
				k += x * (i + 1)
			}
			f := newCSV(eols[k%2], csvHeaders[0]...)
			for i, x := range w {
				f.row(eols[(k/2+i)%2], rows[x]...)
			}
			csvOnce(c, "word", f, tails[k%len(tails)])
		})
	}
	csvOnce(c, "empty", &csvFile{}, "")
	csvOnce(c, "only-partial-header", &csvFile{}, "a,b")
	// many rows and many columns
	n := c.Bound(900, 4000)
	orders := []string{"asc", "desc", "zigzag", "stride", "inside-out"}
	c.Par(len(orders)+1, func(i int) {
		if i == len(orders) {
			var cols []ccol
			for k := 0; k < 45; k++ {
				s := fmt.Sprintf("column %d", k)
				cols = append(cols, ccol{s, s})
			}
			f := newCSV("\n", cols...)
			for r := 0; r < 40; r++ {
				var row []cfield
				for k := 0; k < 1+(r*7)%45; k++ {
					row = append(row, fs[(r*11+k*5)%len(fs)])
				}
				if len(row) == 1 && row[0].raw == "" {
					row[0] = cs0("x")
				}
				f.row("\n", row...)
			}
			csvOnce(c, "big-columns", f, "x")
			return
		}
		f := newCSV("\n", ccol{"id", "id"}, ccol{"name", "name"}, ccol{"flag", "flag"}, ccol{"empty", "empty"}, ccol{"m", "m"})
		for _, v := range permOrder(orders[i], n) {
			s := fmt.Sprintf("n%05d", v*3)
			q := cs0(s)
			if v%3 == 0 {
				q = csq(`"`+s+`"`, s)
			}
			f.row("\n", cn(fmt.Sprint(v), float64(v)), q, cfield{raw: fmt.Sprint(v%2 == 0), text: "", kind: 'b', num: float64(1 - v%2)}, cfield{kind: 'z'}, fs[v%len(fs)])
		}
		csvOnce(c, "big-"+orders[i], f, "5,")
	})
	// numbers of every shape, texts and column names of every character
	lits := numberLiterals(c.Thorough)
	for _, l := range numberLiterals(false) {
		if l[0] != '-' {
			lits = append(lits, "+"+l, "00"+l)
		}
	}
	lits = append(lits, "1.", ".5", "-.5", "5.e3", "-0", "-0.0", "0e9")
	ch := chunks(len(lits), 40)
	c.Par(len(ch), func(i int) {
		f := newCSV("\n", ccol{"n", "n"}, ccol{"q", "q"})
		for k := ch[i][0]; k < ch[i][1]; k++ {
			v, err := strconv.ParseFloat(lits[k], 64)
			if err != nil {
				panic(err)
			}
			if v == 0 {
				v = math.Abs(v)
				if n := strings.TrimLeft(lits[k], "-0"); lits[k][0] == '-' && n != "" {
					v = -v
				}
			}
			f.row(eols[k%2], cn(lits[k], v), cfield{raw: `"` + lits[k] + `"`, text: lits[k], kind: 'n', num: v})
		}
		csvOnce(c, "numbers", f, "")
	})
	runes := plainRunes(c.Thorough)
	cr := chunks(len(runes), 30)
	c.Par(len(cr), func(i int) {
		f := newCSV("\n", ccol{"p", "p"}, ccol{"q", "q"}, ccol{"l", "l"})
		var cols []ccol
		for k := cr[i][0]; k < cr[i][1]; k++ {
			r := runes[k]
			s := string(r)
			raw, quoted := cs0("x"+s), csq(`"`+s+`y"`, s+"y")
			switch r {
			case '"':
				raw, quoted = csq(`"x"""`, `x"`), csq(`"""y"`, `"y`)
				cols = append(cols, ccol{`"n"""`, `n"`})
			case ',':
				raw = csq(`"x,"`, "x,")
				cols = append(cols, ccol{`",n"`, ",n"})
			default:
				cols = append(cols, ccol{"n" + s, "n" + s})
			}
			f.row(eols[k%2], raw, quoted, raw)
		}
		csvOnce(c, "texts", f, "")
		g := newCSV(eols[i%2], cols...)
		var row []cfield
		for k := range cols {
			row = append(row, fs[(k*5+i)%len(fs)])
		}
		g.row("\n", row...)
		csvOnce(c, "columns", g, "")
	})
	for _, s := range []string{"TRUE", "True", "FALSE", "False"} {
		f := newCSV("\n", ccol{"p", "p"}, ccol{"q", "q"})
		b := cfield{raw: s, text: s, kind: 'b'}
		if s[0] == 'T' {
			b.num = 1
		}
		f.row("\n", b, b)
		csvOnce(c, "booleans", f, "")
	}
	for _, s := range []string{"tRUE", "truE", "yes", "no", "1e", "e1", "1.2.3", "1,", "0x", "--1", "+-1", "1e+", "1 ", " 1", "1\t", "\u0661", "1e400", "-1e400", "null", "nil", "NULL", "-", "+", ".", "-.", "1-"} {
		f := newCSV("\n", ccol{"p", "p"}, ccol{"q", "q"})
		q := csq(`"`+s+`"`, s)
		p := cs0(s)
		if strings.Contains(s, ",") {
			p = q
		}
		f.row("\n", p, q)
		csvOnce(c, "not-numbers", f, "")
	}
	csvSizeCheck(c, "sizes")
	farCSV(c, "far", false)
	// rows that have to be refused
	bad := []string{"1,2,3,4", ",,,", `"a",b,c,d`, `"unterminated`, `x,"unterminated`, `a"b,c`, `"a"b,c`, `1,2,"3`, `x,y,z,`, `1,2,3,"`}
	goods := []string{`7,x,"y"`, `true,,z`}
	for _, b := range bad {
		for pre := 0; pre <= 2; pre++ {
			for mid := 0; mid <= 1; mid++ {
				for post := 0; post <= 1; post++ {
					for hi, h := range []string{"a,b,c\n", "\"a\",b,\"c\"\r\n"} {
						malformed(c, "refused", true, goods, b, pre, mid, post, []string{"1,2,3", `"r"`}[(pre+hi)%2], h)
					}
				}
			}
		}
	}
	c.Sample(map[string]any{"fields": fmt.Sprintf("%+v", fs[:6])})
	c.rule = "28 fields (null, numbers, booleans, text, quoted forms): every pair in one row and in two rows x 4 headers x 2 line endings, triples, all words of 7 rows up to the stated length with unfinished last lines, large files in systematic orders; number literals of every shape, texts and column names of every character, fields of up to 1 MiB and up to 275 columns; rows at offsets around 2 and 4 GiB and beyond; rows to be refused in every position of a small history; the whole index read back and compared entry by entry with an independent reference"
	c.Assume("rows hold no line breaks within quotes", "no blank lines")
}

func checkI05(c *Ctx) {
	rows := []string{"1,x", `"q,1",`, ",true", `x`, `"y""",2.5`, "1,2,false"}
	heads := []string{"a,b,c\n", "\"a,b\",c,\"d\"\n", "id,x,id\r\n"}
	for i := range rows {
		for j := range rows {
			h := heads[(i+j)%len(heads)]
			data := h + rows[i] + "\n" + rows[j] + []string{"\n", "\r\n"}[j%2]
			if (i+j)%3 == 0 || c.Thorough {
				data += rows[(i*5+j+1)%len(rows)] + "\n"
			}
			if i%2 == 0 {
				data += "1,"
			}
			if f := newIncrFile(c, "cuts", true, []byte(data), nil); f != nil {
				f.allCuts(c, "cuts", len(data) < c.Bound(30, 50))
			}
		}
	}
	// column names that are read again for every append: odd ones
	odd := []string{" a", "a ", `" a"`, "#a", "\tb", "", `""`, `"a""b"`, "é", "null", `"c,d"`, "\ufeffx", "A", "a", `" "`, "a;b", "'a'", `"#"`, "1", "true"}
	for i := range odd {
		h := odd[i] + "," + odd[(i*3+5)%len(odd)] + "," + odd[(i*7+11)%len(odd)] + []string{"\n", "\r\n"}[i%2]
		data := h + rows[i%len(rows)] + "\n" + rows[(i/2+1)%len(rows)] + []string{"\n", "\r\n"}[i/2%2]
		if f := newIncrFile(c, "headers", true, []byte(data), nil); f != nil {
			f.allCuts(c, "headers", false)
		}
	}
	bigIncrements(c, "batches", true)
	incrSizes(c, "sizes", true)
	farCSV(c, "far", true)
	// many columns: several header pages, columns filled for the first time late
	c.Par(8, func(i int) {
		data := ""
		for k := 0; k < 40; k++ {
			data += fmt.Sprintf("col%d,", k)
		}
		data += "last\n"
		ends := []int{len(data)}
		for r := 0; r < 41; r++ {
			k := (r*(2*i+7))%41 + 1
			for q := 0; q < k; q++ {
				if q > 0 {
					data += ","
				}
				data += []string{"1", "true", "x", ""}[(q+r+i)%4]
			}
			if k == 1 && data[len(data)-1] == '\n' {
				data += "z"
			}
			data += "\n"
			ends = append(ends, len(data))
		}
		cs := map[string]any{"data": firstN(data, 800), "variant": i}
		c.Guard("columns", cs, func() {
			mf := &MemFile{}
			for q, e := range ends {
				ix, err := syncIndex(mf, true, []byte(data[:e]), nil)
				if err != nil || ix == nil {
					c.Violf("columns-error", cs, "append %d: %v", q, err)
					return
				}
				c.Trans(1)
				d, err := readIndex(&MemFile{b: mf.b}, true, []byte(data[:e]))
				want, _, err2 := fresh(true, []byte(data[:e]), nil)
				if err != nil || err2 != nil {
					c.Violf("columns-read", cs, "append %d: %v %v", q, err, err2)
					return
				}
				if s := diffDump(d, want); s != "" {
					c.Violf("columns", cs, "append %d: %s", q, s)
					return
				}
			}
			c.Trace(1)
			c.State(H64(mf.b))
		})
	})
	c.Sample(map[string]any{"header": heads[1], "rows": rows})
	c.rule = "for every combination of two or three rows and three headers: every pair of append boundaries at byte granularity (including within and right after the header) x every reopen pattern, every triple for short files, byte-by-byte growth; batches across node splits, many columns, lines of up to 70000 bytes (1 MiB), files of several GiB; after every synchronization the whole index is compared with one built in one go"
}
