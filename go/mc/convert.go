package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
)

func init() { register("R01", "model_checking", checkR01) }

// buildConverter builds the converter from a copy of its sources, so that
// nothing is written into the repository.
func buildConverter(c *Ctx) string {
	base := filepath.Join(verifDir(), ".build", "rust")
	src := filepath.Join(base, "src."+fmt.Sprint(os.Getpid()))
	os.MkdirAll(src, 0755)
	defer os.RemoveAll(src)
	from := filepath.Join(repoDir(), "scripts", "jsonl2json")
	if out, err := exec.Command("cp", "-r", from+"/.", src).CombinedOutput(); err != nil {
		fmt.Printf("cannot copy the converter: %s\n", out)
		os.Exit(2)
	}
	target := filepath.Join(base, "target")
	cmd := exec.Command("cargo", "build", "--offline", "--manifest-path", filepath.Join(src, "Cargo.toml"), "--target-dir", target)
	cmd.Env = append(os.Environ(), "CARGO_INCREMENTAL=0")
	cmd.Dir = src
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("cannot build the converter: %v\n%s", err, out)
		os.Exit(2)
	}
	bin := filepath.Join(c.dir, "jsonl2json")
	b, err := os.ReadFile(filepath.Join(target, "debug", "jsonl2json"))
	if err == nil {
		err = os.WriteFile(bin, b, 0755)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	return bin
}

// decodeExact decodes one JSON value keeping numbers exact.
func decodeExact(b []byte) (any, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("not valid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

// sameJSON compares decoded values; numbers by exact value (of a double when
// they cannot be a 64-bit integer).
func sameJSON(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameJSON(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		p, ok1 := new(big.Rat).SetString(string(x))
		q, ok2 := new(big.Rat).SetString(string(y))
		if !ok1 || !ok2 {
			return false
		}
		if p.Cmp(q) == 0 {
			return true
		}
		if p.IsInt() && (p.Num().IsInt64() || p.Num().IsUint64()) {
			return false
		}
		f, _ := p.Float64()
		g, _ := q.Float64()
		return f == g
	}
	return a == b
}

// oneUlp: both are doubles (not 64-bit integers) that are neighbours.
func oneUlp(a, b any) bool {
	x, ok1 := a.(json.Number)
	y, ok2 := b.(json.Number)
	if !ok1 || !ok2 {
		return false
	}
	f, err1 := x.Float64()
	g, err2 := y.Float64()
	return err1 == nil && err2 == nil && math.Nextafter(f, g) == g && math.Nextafter(g, f) == f && (f != math.Trunc(f) || math.Abs(f) >= 1<<63)
}

type convCase struct {
	key     string
	path    string // relative to the scratch directory
	content []byte
	arg     string // how the path is given; empty: as it is
	others  map[string]string
}

// expectedOutput is where the result has to be; empty when only the input's
// safety is prescribed.
func (x *convCase) expectedOutput() string {
	if s := strings.TrimSuffix(x.path, ".jsonl"); s != x.path && !strings.Contains(filepath.Base(s), ".jsonl") {
		return s + ".json"
	}
	return ""
}

func (x *convCase) run(c *Ctx, bin string) {
	cs := map[string]any{"path": x.path, "argument": x.arg, "content": firstN(string(x.content), 600)}
	c.Guard(x.key, cs, func() {
		e := newCmdEnv(c, bin)
		defer e.close()
		full := filepath.Join(e.dir, x.path)
		os.MkdirAll(filepath.Dir(full), 0755)
		os.WriteFile(full, x.content, 0640)
		for k, v := range x.others {
			os.MkdirAll(filepath.Dir(filepath.Join(e.dir, k)), 0755)
			os.WriteFile(filepath.Join(e.dir, k), []byte(v), 0640)
		}
		arg := strings.ReplaceAll(x.arg, "DIR", e.dir)
		if arg == "" {
			arg = x.path
		}
		before := e.tree()
		r := e.run("-f", arg)
		after := e.tree()
		c.Trace(1)
		if r.code == -2 {
			c.Violf(x.key+"-hang", cs, "%s", r.output)
			return
		}
		if before[x.path] != after[x.path] {
			c.Violf(x.key+"-input", cs, "the input file was changed")
			return
		}
		// the records, line by line
		var want []any
		valid := true
		lines := strings.Split(string(x.content), "\n")
		if lines[len(lines)-1] == "" {
			lines = lines[:len(lines)-1]
		}
		for _, l := range lines {
			v, err := decodeExact([]byte(strings.TrimSuffix(l, "\r")))
			if err != nil || strings.ToValidUTF8(l, "") != l {
				valid = false
				break
			}
			want = append(want, v)
		}
		ch := changed(before, after, x.path)
		out := x.expectedOutput()
		if !valid {
			if r.code == 0 {
				c.Violf(x.key+"-accepted", cs, "a file with a line that is not JSON is converted")
			} else if len(ch) > 0 {
				c.Violf(x.key+"-left", cs, "the conversion failed but changed or created %v", ch)
			}
			c.State(H64("invalid", x.path, x.content))
			return
		}
		if out == "" {
			// whatever the name: refused, or one new file in the same directory
			if r.code != 0 {
				if len(ch) > 0 {
					c.Violf(x.key+"-left", cs, "the conversion failed but changed or created %v", ch)
				}
				return
			}
			if len(ch) != 1 || filepath.Dir(strings.TrimPrefix(ch[0], "new ")) != filepath.Dir(x.path) {
				c.Violf(x.key+"-where", cs, "changed or created %v instead of one file next to the input", ch)
				return
			}
			out = strings.TrimPrefix(ch[0], "new ")
		} else if r.code != 0 {
			c.Violf(x.key+"-fails", cs, "valid input is refused with status %d: %s", r.code, r.output)
			return
		}
		for _, p := range ch {
			if strings.TrimPrefix(p, "new ") != out {
				c.Violf(x.key+"-where", cs, "changed or created %v, only %q is expected", ch, out)
				return
			}
		}
		b, err := os.ReadFile(filepath.Join(e.dir, out))
		if err != nil {
			c.Violf(x.key+"-where", cs, "no output %q: %v", out, err)
			return
		}
		got, err := decodeExact(b)
		if err != nil {
			c.Violf(x.key+"-output", cs, "the output is not JSON (%v): %s", err, firstN(string(b), 200))
			return
		}
		list, ok := got.([]any)
		if !ok || len(list) != len(want) {
			c.Violf(x.key+"-records", cs, "%d records in, output: %s", len(want), firstN(string(b), 200))
			return
		}
		for i := range list {
			if !sameJSON(want[i], list[i]) {
				w, _ := json.Marshal(want[i])
				g, _ := json.Marshal(list[i])
				key := x.key + "-value"
				if oneUlp(want[i], list[i]) {
					key = "double-one-ulp-off" // only ever the nearest neighbour of the right double
				}
				c.Violf(key, cs, "record %d is %s, expected %s", i, g, w)
				if key == "double-one-ulp-off" {
					continue
				}
				return
			}
		}
		c.State(H64(x.path, b))
	})
}

func checkR01(c *Ctx) {
	bin := buildConverter(c)
	values := []string{
		"{}", `{"a":1}`, `{"b":2,"a":{"z":[],"y":{}}}`, "[]", "[1,[2,{}],null]", `"text"`, `""`, "0", "-1", "1.5", "true", "false", "null",
		` {"s" : "\u00e9\n\"\\/" , "é世😀":"\ud83d\ude00" } `, `{"":""}`, "[\t1 ,2\t]", `{"n":[0.1,1e3,1E-2,-2.5e+1]}`, `{"big":[9007199254740993,-9223372036854775808,18446744073709551615]}`,
	}
	bad := []string{"", " ", "{", `{"a":}`, "nonsense", "1 2", "{}{}", "[1,]", `"open`, "01", "+1", ".5", "1.", "NaN", "'x'", "\xff", "\"\xc3\"", "\ufeff{}", "{}\x00", `{"a":1}//`, `"\x"`, "tru", "\"a\tb\""}
	var cases []convCase
	add := func(key, path string, content string) {
		cases = append(cases, convCase{key: key, path: path, content: []byte(content)})
	}
	// every list of up to two values (three in the thorough tier), with every line ending
	ends := []string{"\n", "\r\n", ""}
	add("empty", "x.jsonl", "")
	for _, a := range values {
		for _, e := range ends {
			add("values", "x.jsonl", a+e)
		}
		for bi, b := range values {
			for ei, e := range ends {
				if e != "" || c.Thorough {
					sep := e
					if sep == "" {
						sep = "\n"
					}
					add("values", "x.jsonl", a+sep+b+e)
				}
				if c.Thorough && ei == 0 {
					for _, d := range values {
						add("values", "x.jsonl", a+e+b+e+d+e)
					}
				}
			}
			_ = bi
		}
	}
	// numbers
	var nums []string
	for _, m := range []string{"1", "9", "12345", "1.1", "0.3", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "123456789.987654321", "9007199254740993", "4.35", "0.1e1", "100e-2"} {
		nums = append(nums, m, "-"+m)
	}
	for k := 0; k <= 64; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), uint(k))
		for _, d := range []int64{-1, 0, 1} {
			n := new(big.Int).Add(p, big.NewInt(d))
			if n.IsUint64() {
				nums = append(nums, n.String())
			}
			if n.Neg(n).IsInt64() {
				nums = append(nums, n.String())
			}
		}
	}
	for m := 1; m < c.Bound(100, 1000); m += 2 {
		for e := -30; e <= 30; e += c.Bound(6, 1) {
			nums = append(nums, fmt.Sprintf("%de%d", m, e), fmt.Sprintf("%d.%de%d", m, (m*7919)%1000003, e))
		}
	}
	for i := 0; i < len(nums); i += 20 {
		add("numbers", "n.jsonl", strings.Join(nums[i:min(i+20, len(nums))], "\n")+"\n")
	}
	// strings: every character of the basic plane's start and the edges, plain and escaped
	for _, r := range []rune{0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028} {
		add("characters", "s.jsonl", fmt.Sprintf("\"%c\"\n{\"%c\":\"%c%c\"}\n", r, r, r, r))
	}
	for r := 0; r < 0x100; r++ {
		add("characters", "s.jsonl", fmt.Sprintf("\"\\u%04x\"\n{\"\\u%04X\":1}\n", r, r))
	}
	// a bad line in every position
	for _, b := range bad {
		for _, g := range []string{`{"a":1}`, "3"} {
			for _, e := range ends[:2] {
				add("bad", "x.jsonl", b+e)
				add("bad", "x.jsonl", b+e+g+e)
				add("bad", "x.jsonl", g+e+b+e)
				add("bad", "x.jsonl", g+e+b)
				add("bad", "x.jsonl", g+e+b+e+g+e)
			}
		}
		cases = append(cases, convCase{key: "bad-existing", path: "x.jsonl", content: []byte("{}\n" + b + "\n"), others: map[string]string{"x.json": "keep me"}})
	}
	// names
	parts := []string{"x.jsonl", "x", "x.json", "x.JSONL", "x.jsonl.bak", "x.jsonl.jsonl", ".jsonl", "jsonl", "xjsonl", "x.jsonlx", "x.jsonl ", "x y.jsonl", "é.jsonl", "x.json.jsonl", "-x.jsonl", "x.jsonl.json", "x.jsonlines.jsonl"}
	dirs := []string{"", "d", "d.jsonl", "d.json", "a.jsonl/b.jsonl", ".jsonl"}
	for _, p := range parts {
		for _, d := range dirs {
			path := filepath.Join(d, p)
			for _, content := range []string{"{\"a\":1}\n[]\n", "", "{\n"} {
				for form := 0; form < 3; form++ {
					x := convCase{key: "names", path: path, content: []byte(content), arg: []string{"./" + path, "DIR/" + path, "DIR/./" + path}[form]}
					cases = append(cases, x)
					// directories the name might be mistaken for
					x.key = "names-decoy"
					x.others = map[string]string{}
					if dd := strings.ReplaceAll(d, ".jsonl", ".json"); dd != d {
						x.others[filepath.Join(dd, "decoy")] = "keep"
					}
					if o := x.expectedOutput(); o != "" && len(content) != 2 {
						x.others[o] = "old contents that are longer than what replaces them " + strings.Repeat("x", 300)
					}
					if len(x.others) > 0 {
						cases = append(cases, x)
					}
				}
			}
		}
	}
	// sizes around buffers
	for _, n := range []int{4095, 4096, 8191, 8192, 8193, 65536} {
		for d := -2; d <= 2; d++ {
			add("sizes", "x.jsonl", `"`+strings.Repeat("y", n+d-3)+"\"\n{\"a\":[1]}\n")
			add("sizes", "x.jsonl", strings.Repeat("7\n", (n+d)/2)+"[]")
		}
	}
	for _, n := range []int{1 << 17, 1 << 20, c.Bound(1<<20, 1<<24)} {
		x := strings.Repeat("long text ", n/10)
		add("sizes", "x.jsonl", `{"a":"`+x+`"}`+"\n[1]\n"+`{"b":["`+x+`"],"c":2}`)
		add("sizes", "x.jsonl", "1\n"+strings.Repeat(" ", n)+"2\n3")
		add("sizes", "x.jsonl", "["+strings.Repeat("1,", n/2)+"2]\n{}\n")
		add("sizes", "x.jsonl", strings.Repeat(`{"a":1}`+"\n", n/8)+`{"a":1}}`)
		add("sizes", "x.jsonl", `{"a":"`+x+"\n"+`{"a":"`+x+`"}`)
	}
	add("sizes", "x.jsonl", strings.Repeat("7\n", 1<<20+3)+"{}\n")
	add("sizes", "x.jsonl", strings.Repeat(`{"a":"`+strings.Repeat("twenty megabytes ", 1<<12)+`"}`+"\n", 300)+`[true]`)
	add("sizes", "x.jsonl", strings.Repeat(`["`+strings.Repeat("twenty megabytes ", 1<<12)+`"]`+"\n", 300)+`[true`)
	// the largest first, so that they do not end up last
	slices.Reverse(cases)
	c.Par(len(cases), func(i int) { cases[i].run(c, bin) })
	// arguments without a file
	for _, args := range [][]string{{}, {"-f"}, {"-f", "missing.jsonl"}, {"-f", "d"}, {"-x"}, {"-f", ""}, {"x.jsonl"}, {"-f", "x.jsonl", "y"}, {"-f", "x.jsonl/"}, {"-f", "d.jsonl"}} {
		cs := map[string]any{"arguments": args}
		c.Guard("arguments", cs, func() {
			e := newCmdEnv(c, bin)
			defer e.close()
			os.Mkdir(filepath.Join(e.dir, "d"), 0755)
			os.Mkdir(filepath.Join(e.dir, "d.jsonl"), 0755)
			os.WriteFile(filepath.Join(e.dir, "x.jsonl"), []byte("{}\n"), 0640)
			before := e.tree()
			if r := e.run(args...); r.code == 0 {
				c.Violf("arguments", cs, "succeeds")
			}
			if ch := changed(before, e.tree()); len(ch) > 0 {
				c.Violf("arguments-touch", cs, "changed or created %v", ch)
			}
			c.Trace(1)
		})
	}
	c.Sample(map[string]any{"path": "d.jsonl/x.jsonl", "content": values[2] + "\n" + values[9] + "\n"})
	c.rule = "the converter built from the working tree and run in scratch directories: every list of up to two (three) values from a menu with every line ending, a grid of numbers and characters, a bad line in every position, every name and directory pattern with existing files in the way, sizes around buffer boundaries; the output is decoded with exact numbers and every other file compared byte for byte"
	c.Assume("nesting of at most 100 levels", "numbers representable as doubles or 64-bit integers")
}
