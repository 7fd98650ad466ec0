package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/kevmo314/appendable/pkg/appendable"
)

func init() {
	register("I01", "model_checking", checkI01)
}

func scalarUniverse() []jval {
	return []jval{
		jstr("", `""`), jstr("a", `"a"`), jstr("b", `"\u0062"`), jstr("q\"\\/\n", `"q\"\\\/\n"`), jstr("é世", `"é世"`), jstr("😀", `"\ud83d\ude00"`), jstr("x:{},y", `"x:{},y"`), jstr(" sp ", `" sp "`), jstr("null", `"null"`), jstr("12", `"12"`),
		jnum(0, "0"), jnum(math0(), "-0"), jnum(1, "1"), jnum(-1.5, "-1.5"), jnum(1000, "1e3"), jnum(1000, "1000.0"), jnum(123456789012, "123456789012"), jnum(5e-324, "5e-324"), jnum(1e308, "1E+308"),
		jbool(true), jbool(false), jnull(),
	}
}

func math0() float64 { z := 0.0; return -z }

func valueUniverse() []jval {
	return append(scalarUniverse(),
		jarr("[]"), jarr(`[1,"]",{"z":[{}]},null]`), jarr(`[[["}"]]]`), jarr(`[ true , {"k" : "v"} ]`),
		jobj(), jobj(jf("x", jnum(7, "7"))), jobj(jf("x", jstr("n", `"n"`)), jf("y", jnull())), jobj(jf("x", jobj(jf("y", jbool(true)), jf("z", jarr("[1]")))), jf("w", jstr("t", `"t"`))))
}

// indexOnce indexes a file from scratch and compares the result.
func indexOnce(c *Ctx, key string, f *jsonlFile, tail string, search []string) {
	cs := func() any { return map[string]any{"data": firstN(string(f.data)+tail, 1500), "search": search} }
	c.Guard(key, cs(), func() {
		data := append(append([]byte(nil), f.data...), tail...)
		keep := string(data)
		mf := &MemFile{}
		if _, err := syncIndex(mf, false, data, search); err != nil {
			c.Violf(key+"-error", cs(), "indexing valid data failed: %v", err)
			return
		}
		if string(data) != keep {
			c.Violf(key+"-data", cs(), "indexing changed the data")
		}
		d, err := readIndex(&MemFile{b: mf.b}, false, data)
		if err != nil {
			c.Violf(key+"-read", cs(), "reading the index back failed: %v", err)
			return
		}
		if s := checkIndex(d, &f.m, data, false, len(search) > 0); s != "" {
			c.Violf(key, cs(), "%s", s)
		}
		c.Trans(int(f.m.entries) + 1)
		c.Trace(1)
		c.State(H64(mf.b))
	})
}

func checkI01(c *Ctx) {
	vals := valueUniverse()
	// 1. one and two fields, every value and whitespace style, several name forms
	names := []jfield{jf("a", jval{}), jf("", jval{}), jf("a.b", jval{}), jf("é", jval{}), jfr("q\"", `"q\""`, jval{}), jfr("u", `"\u0075"`, jval{}), jfr("c:d", `"c:d"`, jval{}), jf(string(make236()[:200]), jval{}), jfr(" ", `" "`, jval{})}
	c.Par(len(vals), func(i int) {
		for _, w := range wsStyles {
			for _, n := range names {
				f := &jsonlFile{}
				f.add(jobj(jfield{n.name, n.rawName, vals[i]}), w)
				indexOnce(c, "single", f, "", nil)
				f = &jsonlFile{}
				f.add(jobj(jf("o", jobj(jfield{n.name[:min(len(n.name), 100)], cutRaw(n.rawName), vals[i]}))), w)
				indexOnce(c, "nested", f, "", nil)
			}
			for j := range vals {
				f := &jsonlFile{}
				f.add(jobj(jf("a", vals[i]), jf("b", vals[j])), w)
				indexOnce(c, "pair", f, "", nil)
				f = &jsonlFile{}
				f.add(jobj(jf("a", vals[i])), w)
				f.add(jobj(jf("a", vals[j])), wsStyles[(i+j)%len(wsStyles)])
				indexOnce(c, "two-records", f, "", nil)
			}
		}
	})
	for _, v := range scalarUniverse() {
		f := &jsonlFile{}
		f.add(jobj(jf(string(make236()), v), jf("z", v)), jws{})
		f.add(jobj(jf("z", v), jf(string(make236()), v)), jws{})
		indexOnce(c, "longest-name", f, "", nil)
	}
	// 2. words of records with an unfinished last line
	recs := []jval{
		jobj(), jobj(jf("a", jnum(1, "1"))), jobj(jf("a", jnum(1, "1.0"))), jobj(jf("a", jstr("x", `"x"`))), jobj(jf("a", jnull())), jobj(jf("b", jbool(true)), jf("a", jbool(false))),
		jobj(jf("a", jobj(jf("b", jnum(2, "2"))))), jobj(jf("a", jarr("[1]")), jf("c", jstr("x", `"x"`))), jobj(jf("c", jstr("", `""`)), jf("d", jstr("", `""`))),
	}
	tails := []string{"", "{", `{"a":5`, `{"zz":1}`, "garbage"}
	for n := 0; n <= c.Bound(5, 6); n++ {
		words(c, len(recs), n, func(w []int) {
			f := &jsonlFile{}
			for i, x := range w {
				f.add(recs[x], wsStyles[(i+x)%len(wsStyles)])
			}
			k := 0
			for _, x := range w {
				k += x
			}
			indexOnce(c, "word", f, tails[k%len(tails)], nil)
		})
	}
	// 3. many records (trees of several levels) and many fields (several header pages)
	big := bigFiles(c.Bound(900, 4000))
	c.Par(len(big), func(i int) { indexOnce(c, "big-"+big[i].name, big[i].f, `{"tail`, nil) })
	// counters: nesting depths, numbers of records around the ranges of common integer types
	deep := []int{1, 2, 30, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 9000}
	c.Par(len(deep)+4, func(i int) {
		f := &jsonlFile{}
		if i < len(deep) {
			n := deep[i]
			a := strings.Repeat("[", n) + `1,"]"` + strings.Repeat("]", n)
			b := strings.Repeat(`[{"a":`, n/2) + "[2]" + strings.Repeat("}]", n/2)
			f.add(jobj(jf("a", jarr(a)), jf("b", jnum(1, "1"))), jws{})
			f.add(jobj(jf("o", jobj(jf("r", jarr(b)), jf("s", jstr("x", `"x"`)))), jf("b", jnum(2, "2"))), jws{})
			v := jnum(7, "7")
			for k := 0; k < min(n, 110); k++ {
				v = jobj(jf([]string{"n", ""}[k%2], v), jf("m", jnull()))
			}
			f.add(v, jws{})
			f.add(jobj(jf("a", jarr("[]")), jf("b", jnum(3, "3"))), jws{})
			indexOnce(c, "deep", f, "", nil)
			return
		}
		n := []int{255, 256, 65535, 65537}[i-len(deep)]
		for k := 0; k < n; k++ {
			f.add(jobj(), jws{})
		}
		f.add(jobj(jf("a", jnum(1, "1"))), jws{})
		indexOnce(c, "records", f, "{}", nil)
	})
	// 4. numbers of every shape, texts and names of every character
	lits := numberLiterals(c.Thorough)
	ch := chunks(len(lits), 40)
	c.Par(len(ch), func(i int) {
		f := &jsonlFile{}
		for k := ch[i][0]; k < ch[i][1]; k++ {
			v, err := strconv.ParseFloat(lits[k], 64)
			if err != nil {
				panic(err)
			}
			f.add(jobj(jf("n", jnum(v, lits[k]))), wsStyles[k%len(wsStyles)])
		}
		indexOnce(c, "numbers", f, "", nil)
	})
	runes := plainRunes(c.Thorough)
	cr := chunks(len(runes), 30)
	c.Par(len(cr), func(i int) {
		f, g := &jsonlFile{}, &jsonlFile{}
		for k := cr[i][0]; k < cr[i][1]; k++ {
			r := runes[k]
			plain, esc := string(r), ""
			for _, u := range utf16.Encode([]rune{r}) {
				esc += fmt.Sprintf([]string{"\\u%04x", "\\u%04X"}[k%2], u)
			}
			if r == '"' || r == '\\' {
				plain = "\\" + plain
			}
			s := "x" + string(r)
			f.add(jobj(jf("s", jstr(s, `"x`+plain+`"`)), jf("e", jstr(s, `"x`+esc+`"`)), jf("l", jstr(string(r)+"y", `"`+plain+`y"`))), wsStyles[k%len(wsStyles)])
			g.add(jobj(jfr("n"+string(r), `"n`+plain+`"`, jnum(1, "1")), jf("o", jobj(jfr("m"+string(r), `"m`+esc+`"`, jbool(true))))), wsStyles[k%len(wsStyles)])
		}
		indexOnce(c, "texts", f, "", nil)
		indexOnce(c, "names", g, "", nil)
	})
	// control characters and short escapes
	f := &jsonlFile{}
	for r := 0; r < 0x20; r++ {
		f.add(jobj(jf("s", jstr("x"+string(rune(r)), fmt.Sprintf(`"x\u%04x"`, r))), jfr("n"+string(rune(r)), fmt.Sprintf(`"n\u%04x"`, r), jnull())), jws{})
	}
	for k, e := range []string{"b\b", "f\f", "n\n", "r\r", "t\t", `\"`[1:] + `"`, `\\`, "//"} {
		f.add(jobj(jf("s", jstr(e[1:]+"z", `"\`+e[:1]+`z"`)), jf("k", jnum(float64(k), fmt.Sprint(k)))), jws{})
	}
	indexOnce(c, "escapes", f, "", nil)
	// nesting: chains of objects with fields before and after each level
	c.Par(30, func(d int) {
		for _, shape := range []int{0, 1, 2, 3} {
			f := &jsonlFile{}
			for rep := 0; rep < 2; rep++ {
				v := jobj(jf("x", jnum(float64(d), fmt.Sprint(d))))
				for k := 0; k < d; k++ {
					fs := []jfield{jf("o", v)}
					if shape&1 != 0 {
						fs = append([]jfield{jf("b", jstr("t", `"t"`))}, fs...)
					}
					if shape&2 != 0 {
						fs = append(fs, jf("a", jarr(`[{"o":["]"]}]`)), jf("c", jobj(jf("x", jnull()))), jf("d", jbool(k%2 == 0)))
					}
					v = jobj(fs...)
				}
				f.add(v, wsStyles[(d+shape+rep)%len(wsStyles)])
			}
			indexOnce(c, "depth", f, "", nil)
		}
	})
	// texts, blanks, arrays and records of sizes around every power of two
	jsonlSizeCheck(c, "sizes", nil)
	// data beyond 2 and 4 GiB
	farJSONL(c, "far", false)
	c.Sample(string(big[0].f.data[:200]))
	c.rule = "every value (22 scalars, 4 arrays, 4 nested objects) x whitespace style x field name form; all pairs in one record and in two records; all words of 9 records up to the stated length with unfinished last lines; large files in systematic orders; number literals of every shape, texts and names of every character, nesting up to 30 levels, texts, blanks and arrays of up to 1 MiB, up to 300 fields; records at offsets around 2 and 4 GiB and beyond; the whole index read back and compared entry by entry with an independent reference"
	c.Assume("field names occur at most once per object")
	_ = appendable.FieldTypeString
}

func make236() []byte {
	b := make([]byte, 236)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	return b
}

func cutRaw(raw string) string {
	if len(raw) > 102 {
		return raw[:101] + `"`
	}
	return raw
}

type bigFile struct {
	name string
	f    *jsonlFile
}

func bigFiles(n int) []bigFile {
	var out []bigFile
	for _, order := range []string{"asc", "desc", "zigzag", "stride", "inside-out"} {
		f := &jsonlFile{}
		for q, i := range permOrder(order, n) {
			s := fmt.Sprintf("v%05d", i*7)
			f.add(jobj(jf("s", jstr(s, `"`+s+`"`)), jf("n", jnum(float64(i)*1.5, fmt.Sprint(float64(i)*1.5))), jf("dup", jnum(float64(i%3), fmt.Sprint(i%3))), jf("b", jbool(i%2 == 0)), jf("z", jnull()), jf("o", jobj(jf("x", jnum(-float64(i), fmt.Sprintf("-%d", i)))))), wsStyles[q%len(wsStyles)])
		}
		out = append(out, bigFile{order, f})
	}
	// long strings: few keys per node, references beyond two varint bytes
	f := &jsonlFile{}
	for i := 0; i < n/2; i++ {
		s := fmt.Sprintf("%0*d", 1+(i*37)%300, i*7919%1000)
		f.add(jobj(jf("s", jstr(s, `"`+s+`"`))), jws{})
	}
	out = append(out, bigFile{"long", f})
	// many fields of varying types
	f = &jsonlFile{}
	vs := valueUniverse()
	for r := 0; r < 60; r++ {
		var fs []jfield
		for k := 0; k < 1+r%7; k++ {
			fs = append(fs, jf(fmt.Sprintf("field%d", (r*5+k)%53), vs[(r*11+k*3)%len(vs)]))
		}
		f.add(jobj(fs...), wsStyles[r%len(wsStyles)])
	}
	out = append(out, bigFile{"fields", f})
	return out
}
