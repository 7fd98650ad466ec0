package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() { register("R02", "model_checking", checkR02) }

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// cmdEnv is a scratch directory with a data file, used for one history.
type cmdEnv struct {
	c           *Ctx
	bin, dir    string
	data, index string
}

type cmdResult struct {
	code   int
	output string
}

// run runs the real command with a time limit.
func (e *cmdEnv) run(args ...string) cmdResult {
	var cmd *exec.Cmd
	var out bytes.Buffer
	for try := 0; ; try++ {
		cmd = exec.Command(e.bin, args...)
		cmd.Dir = e.dir
		cmd.Env = []string{"HOME=" + e.dir, "PATH=/nonexistent", "TMPDIR=" + e.dir, "GOMAXPROCS=2"}
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Start()
		if err == nil {
			break
		}
		// the machine may be short of memory for a moment
		if try == 20 || !errors.Is(err, syscall.ENOMEM) && !errors.Is(err, syscall.EAGAIN) {
			panic(err)
		}
		time.Sleep(500 * time.Millisecond)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	e.c.Trans(1)
	if !t.Stop() {
		return cmdResult{-2, "does not end within a minute"}
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return cmdResult{x.ExitCode(), firstN(out.String(), 600)}
		}
		panic(err)
	}
	return cmdResult{0, out.String()}
}

// tree lists every file below the directory with its contents.
func (e *cmdEnv) tree() map[string]string {
	m := map[string]string{}
	filepath.Walk(e.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != e.dir {
			r, _ := filepath.Rel(e.dir, p)
			if fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				m[r] = fmt.Sprint(fi.Mode(), " ") + string(b)
			} else {
				m[r] = fmt.Sprint(fi.Mode())
			}
		}
		return nil
	})
	return m
}

// changed lists the files that differ, other than the ones allowed to.
func changed(a, b map[string]string, except ...string) []string {
	skip := map[string]bool{}
	for _, x := range except {
		skip[x] = true
	}
	var out []string
	for k, v := range a {
		if !skip[k] && b[k] != v {
			out = append(out, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok && !skip[k] {
			out = append(out, "new "+k)
		}
	}
	sort.Strings(out)
	return out
}

func formatFlag(csv bool) string {
	if csv {
		return "-csv"
	}
	return "-jsonl"
}

func newCmdEnv(c *Ctx, bin string) *cmdEnv {
	d, err := os.MkdirTemp(c.dir, "cmd-")
	if err != nil {
		panic(err)
	}
	return &cmdEnv{c: c, bin: bin, dir: d, data: filepath.Join(d, "data"), index: filepath.Join(d, "index")}
}

func (e *cmdEnv) close() { os.RemoveAll(e.dir) }

// cmdFile is a data file together with what its index has to hold.
type cmdFile struct {
	name   string
	csv    bool
	data   []byte
	search []string
	m      *expModel // of all complete lines; nil: only compared with the library
	fresh  map[int]*dump
	form   int // how search fields are given
}

func (f *cmdFile) flags() []string {
	a := []string{formatFlag(f.csv)}
	for _, s := range f.search {
		switch f.form {
		case 0:
			a = append(a, "-s", s)
		case 1:
			a = append(a, "-s="+s)
		case 2:
			a = append(a, "--s", s)
		}
	}
	return a
}

func (f *cmdFile) at(c *Ctx, p int) *dump {
	if f.fresh[p] == nil {
		d, _, err := fresh(f.csv, f.data[:p:p], f.search)
		if err != nil {
			c.Violf("fresh", map[string]any{"data": firstN(string(f.data[:p]), 500)}, "indexing valid data failed: %v", err)
			d = &dump{}
		}
		f.fresh[p] = d
	}
	return f.fresh[p]
}

// history runs the command after every append; idle tells after which of them
// it is run a second time.
func (f *cmdFile) history(c *Ctx, bin string, cuts []int, idle bool) {
	cs := map[string]any{"data": firstN(string(f.data), 400), "runs_with_data_up_to": cuts, "flags": strings.Join(f.flags(), " ")}
	c.Guard("history", cs, func() {
		e := newCmdEnv(c, bin)
		defer e.close()
		args := append(f.flags(), "-i", e.index, e.data)
		done := 0
		fd, err := os.OpenFile(e.data, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0640)
		if err != nil {
			panic(err)
		}
		defer fd.Close()
		stamp := time.Unix(1000000000, 0)
		for i, p := range cuts {
			if _, err := fd.Write(f.data[done:p]); err != nil {
				panic(err)
			}
			done = p
			times := 1
			if idle {
				times = 2
			}
			for k := 0; k < times; k++ {
				os.Chtimes(e.data, stamp, stamp)
				before := e.tree()
				r := e.run(args...)
				if r.code != 0 {
					c.Violf("run-fails", cs, "run %d fails with status %d: %s", i, r.code, r.output)
					return
				}
				after := e.tree()
				except := []string{"index"}
				if k > 0 || i > 0 && cuts[i-1] == p {
					except = nil
				}
				if ch := changed(before, after, except...); len(ch) > 0 {
					c.Violf("touched", cs, "run %d (repeated %d times) changed or created %v", i, k, ch)
					return
				}
				if fi, err := os.Stat(e.data); err != nil || !fi.ModTime().Equal(stamp) {
					c.Violf("touched", cs, "run %d wrote to the data file", i)
					return
				}
			}
			b, err := os.ReadFile(e.index)
			if err != nil {
				c.Violf("no-index", cs, "run %d leaves no index: %v", i, err)
				return
			}
			d, err := readIndex(&MemFile{b: b}, f.csv, f.data[:p:p])
			if err != nil {
				c.Violf("unreadable", cs, "the index cannot be read after run %d: %v", i, err)
				return
			}
			if s := diffDump(d, f.at(c, p)); s != "" {
				c.Violf("content", cs, "after run %d: %s", i, s)
				return
			}
			if p == len(f.data) && f.m != nil {
				if s := checkIndex(d, f.m, f.data, f.csv, len(f.search) > 0); s != "" {
					c.Violf("content", cs, "after run %d: %s", i, s)
					return
				}
			}
			c.State(H64(f.name, p, b))
		}
		c.Trace(1)
	})
}

func cmdJSONL(search []string, tail string, recs ...jval) *cmdFile {
	f := &jsonlFile{search: map[string]bool{}}
	for _, s := range search {
		f.search[s] = true
	}
	for i, r := range recs {
		f.add(r, wsStyles[i%2])
	}
	return &cmdFile{name: "jsonl " + strings.Join(search, ",") + tail, data: append(f.data, tail...), search: search, m: &f.m, fresh: map[int]*dump{}}
}

func cmdBig(csv bool, n int, search []string) *cmdFile {
	if csv {
		f := newCSV("\n", ccol{"id", "id"}, ccol{"name", "name"})
		for k := 0; k < n; k++ {
			v := (k * 7919) % 100003
			f.row("\n", cn(fmt.Sprint(v), float64(v)), cs0(fmt.Sprintf("n%d", v)))
		}
		return &cmdFile{name: "big csv", csv: true, data: f.data, m: &f.m, fresh: map[int]*dump{}}
	}
	f := &jsonlFile{search: map[string]bool{}}
	for _, s := range search {
		f.search[s] = true
	}
	for k := 0; k < n; k++ {
		v := (k * 7919) % 100003
		s := fmt.Sprintf("n%d zz", v)
		f.add(jobj(jf("id", jnum(float64(v), fmt.Sprint(v))), jf("name", jstr(s, `"`+s+`"`))), wsStyles[k%3])
	}
	return &cmdFile{name: "big jsonl", data: f.data, search: search, m: &f.m, fresh: map[int]*dump{}}
}

func checkR02(c *Ctx) {
	bin := filepath.Join(c.dir, "appendable")
	build := exec.Command("go", "build", "-o", bin, "./cmd")
	build.Dir = repoDir()
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Printf("cannot build the command: %v\n%s", err, out)
		os.Exit(2)
	}
	c.Trans(0)
	var files []*cmdFile
	a, s := jobj(jf("a", jnum(1, "1")), jf("s", jstr("ab cab", `"ab cab"`))), jobj(jf("s", jstr("é ab", `"é ab"`)), jf("o", jobj(jf("t", jstr("xyz", `"xyz"`)))))
	b := jobj(jf("a", jnull()), jf("s", jbool(true)), jf("l", jarr("[1]")))
	files = append(files,
		cmdJSONL(nil, "", a, b),
		cmdJSONL([]string{"s"}, `{"a"`, b, s),
		cmdJSONL([]string{"s", "o.t"}, "", s, a),
	)
	for _, eol := range []string{"\n", "\r\n"} {
		f := newCSV(eol, ccol{"a", "a"}, ccol{"b", "b"})
		f.row(eol, cn("1", 1), cs0("x"))
		f.row(eol, cfield{kind: 'z'}, csq(`"q,r"`, "q,r"))
		files = append(files, &cmdFile{name: "csv" + eol, csv: true, data: append(f.data, "7,"...), m: &f.m, fresh: map[int]*dump{}})
	}
	for _, f := range files {
		for p := 0; p <= len(f.data); p++ {
			f.at(c, p)
		}
	}
	// every append boundary, and pairs of them
	step := c.Bound(5, 1)
	for fi, f := range files {
		n := len(f.data)
		c.Par(n+1, func(i int) {
			f.history(c, bin, []int{i, n}, true)
			for j := i + (fi+i)%step; j <= n; j += step {
				f.history(c, bin, []int{i, j, n}, false)
			}
		})
		var all []int
		for p := 0; p <= n; p++ {
			all = append(all, p)
		}
		f.history(c, bin, all, false)
	}
	// every way of naming fields to search
	names := []string{"s", "o.t", "o", "a", "nope", ""}
	var sets [][]string
	for i := -1; i < len(names); i++ {
		for j := -1; j < len(names); j++ {
			for k := -1; k < len(names); k++ {
				var set []string
				for _, x := range []int{i, j, k} {
					if x >= 0 {
						set = append(set, names[x])
					}
				}
				if i < 0 && j >= 0 || j < 0 && k >= 0 {
					continue
				}
				sets = append(sets, set)
			}
		}
	}
	c.Par(len(sets), func(i int) {
		f := cmdJSONL(sets[i], "", s, a, b)
		f.history(c, bin, []int{len(f.data)}, i%4 == 0)
		if c.Thorough {
			f.history(c, bin, []int{40, len(f.data)}, true)
		}
	})
	// fields whose names look alike or hold characters that separate lists,
	// options or patterns elsewhere
	odd := []string{"s", "t", "s,t", "s, t", " s", "s ", "s t", "s=t", "=s", "-s", "--", "s;t", "s|t", "S", "s.t", "\u00e4", "s\tt", "s/t", "s:t", "*", "s*", "[s]", "%73", "'s'", "\"s\"", "s\\t", "$s", "true", "0", "s,"}
	var fs []jfield
	for i, n := range odd {
		fs = append(fs, jfr(n, quoteName(n), jstr(fmt.Sprintf("w%d", i), fmt.Sprintf(`"w%d"`, i))))
	}
	c.Par(len(odd)*(len(odd)+1)*3, func(i int) {
		form, x, y := i%3, odd[i/3/(len(odd)+1)], i/3%(len(odd)+1)
		set := []string{x}
		if y < len(odd) {
			if form > 0 && !c.Thorough && (i/3)%5 != 0 {
				return
			}
			set = append(set, odd[y])
		}
		f := cmdJSONL(set, "", jobj(fs...))
		f.form = form
		f.history(c, bin, []int{len(f.data)}, false)
	})
	// many records
	for _, f := range []*cmdFile{cmdBig(false, c.Bound(600, 3000), nil), cmdBig(true, c.Bound(600, 3000), nil), cmdBig(false, c.Bound(250, 1000), []string{"name"})} {
		n := len(f.data)
		for _, k := range []int{1, 2, 7} {
			var cuts []int
			for x := 1; x <= k; x++ {
				cuts = append(cuts, n*x/k)
			}
			for _, p := range cuts {
				f.at(c, p)
			}
			f.history(c, bin, cuts, true)
		}
	}
	// long lines, blanks, arrays and records
	ns := []int{4096, 65536, 1 << 20}
	c.Par(len(ns), func(i int) {
		n := ns[len(ns)-1-i]
		var fs []*cmdFile
		for name, f := range jsonlSizes(n) {
			if name != "fields" || n == 4096 {
				fs = append(fs, &cmdFile{name: fmt.Sprintf("%s of %d", name, n), data: f.data, m: &f.m, fresh: map[int]*dump{}})
			}
		}
		for name, f := range csvSizes(min(n, 1<<17)) {
			fs = append(fs, &cmdFile{name: fmt.Sprintf("csv %s of %d", name, n), csv: true, data: f.data, m: &f.m, fresh: map[int]*dump{}})
		}
		for _, f := range fs {
			for _, p := range []int{len(f.data) / 3, len(f.data) * 2 / 3, len(f.data)} {
				f.at(c, p)
			}
			f.history(c, bin, []int{len(f.data)}, true)
			f.history(c, bin, []int{len(f.data) / 3, len(f.data) * 2 / 3, len(f.data)}, true)
		}
	})
	cmdOptions(c, bin, files)
	cmdRefusals(c, bin, files)
	c.Sample(map[string]any{"data": string(files[1].data), "flags": strings.Join(files[1].flags(), " "), "runs": "after every pair of append positions, each idle run repeated"})
	c.rule = "the command built from the working tree, run in scratch directories: every append position (and pairs of them) of small JSON Lines and CSV files with a run after each append and idle runs, every list of up to three search fields from a menu, larger files in batches, harmless options, every kind of refused invocation on absent, empty and filled indexes; index contents compared with the reference indexer and every other file compared byte for byte"
	c.Assume("no two runs at the same time on one index")
}

func quoteName(n string) string {
	b, err := json.Marshal(n)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// options that only report things must not change the outcome
func cmdOptions(c *Ctx, bin string, files []*cmdFile) {
	opts := [][]string{{"-debug"}, {"-t"}, {"-t", "-debug"}, {"-pprof", "extra1"}, {"-b", "extra2"}, {"-b", "extra2", "-pprof", "extra1", "-t", "-debug"}, {"--"}}
	for _, f := range files {
		f := f
		c.Par(len(opts)*4, func(i int) {
			o, form := opts[i/4], i%4
			cs := map[string]any{"data": string(f.data), "flags": strings.Join(f.flags(), " "), "options": strings.Join(o, " "), "naming": form}
			c.Guard("options", cs, func() {
				e := newCmdEnv(c, bin)
				defer e.close()
				data, index := "data", "index"
				switch form {
				case 1:
					data, index = "a dir/-data ü.jsonl", "an other/index%20.index"
					os.Mkdir(filepath.Join(e.dir, "a dir"), 0755)
					os.Mkdir(filepath.Join(e.dir, "an other"), 0755)
				case 2:
					os.Mkdir(filepath.Join(e.dir, "real"), 0755)
					os.Symlink(filepath.Join("real", "d"), filepath.Join(e.dir, "data"))
					os.Symlink(filepath.Join("real", "i"), filepath.Join(e.dir, "index"))
				}
				os.WriteFile(filepath.Join(e.dir, data), f.data, 0444)
				args := append(f.flags(), "-i", index)
				if form == 3 {
					args = append(f.flags(), "-i=other", "-i="+index)
				}
				args = append(append(args, o...), data)
				before := e.tree()
				for k := 0; k < 2; k++ {
					if r := e.run(args...); r.code != 0 {
						c.Violf("options-fail", cs, "status %d: %s", r.code, r.output)
						return
					}
				}
				if ch := changed(before, e.tree(), index, "extra1", "extra2", filepath.Join("real", "i")); len(ch) > 0 {
					c.Violf("options-touch", cs, "changed or created %v", ch)
					return
				}
				got, err := os.ReadFile(filepath.Join(e.dir, index))
				if err != nil {
					c.Violf("options", cs, "no index: %v", err)
					return
				}
				d, err := readIndex(&MemFile{b: got}, f.csv, f.data)
				if err != nil {
					c.Violf("options", cs, "the index cannot be read: %v", err)
					return
				}
				if s := checkIndex(d, f.m, f.data, f.csv, len(f.search) > 0); s != "" {
					c.Violf("options", cs, "%s", s)
				}
				c.Trace(1)
				c.State(H64("options", f.name, i))
			})
		})
	}
}

// refused invocations: status other than 0, nothing changed
func cmdRefusals(c *Ctx, bin string, files []*cmdFile) {
	type refusal struct {
		name string
		args func(f *cmdFile) []string
		prep func(e *cmdEnv, f *cmdFile)
		// the data is at fault: what was indexed before has to stay
		data bool
		more bool // good lines were added as well
	}
	d := func(f *cmdFile, more ...string) []string { return append(f.flags(), more...) }
	bad := func(lines string) func(e *cmdEnv, f *cmdFile) {
		return func(e *cmdEnv, f *cmdFile) {
			b := append([]byte(nil), f.data[:f.m.offset]...)
			os.WriteFile(e.data, append(b, lines...), 0640)
		}
	}
	rs := []refusal{
		{name: "no arguments", args: func(f *cmdFile) []string { return nil }},
		{name: "no data file", args: func(f *cmdFile) []string { return d(f, "-i", "index") }},
		{name: "two data files", args: func(f *cmdFile) []string { return d(f, "-i", "index", "data", "data") }},
		{name: "option after the data file", args: func(f *cmdFile) []string { return d(f, "-i", "index", "data", "-t") }},
		{name: "no format", args: func(f *cmdFile) []string { return []string{"-i", "index", "data"} }},
		{name: "no format, search", args: func(f *cmdFile) []string { return []string{"-s", "s", "-i", "index", "data"} }},
		{name: "format turned off", args: func(f *cmdFile) []string { return []string{formatFlag(f.csv) + "=false", "-i", "index", "data"} }},
		{name: "no index", args: func(f *cmdFile) []string { return d(f, "data") }},
		{name: "empty index name", args: func(f *cmdFile) []string { return d(f, "-i", "", "data") }},
		{name: "unknown option", args: func(f *cmdFile) []string { return d(f, "-i", "index", "-x", "data") }},
		{name: "option without value", args: func(f *cmdFile) []string { return d(f, "data", "-i") }},
		{name: "search without value", args: func(f *cmdFile) []string { return d(f, "-i", "index", "-s") }},
		{name: "missing data file", args: func(f *cmdFile) []string { return d(f, "-i", "index", "missing") }},
		{name: "data is a directory", args: func(f *cmdFile) []string { return d(f, "-i", "index", "dir") }},
		{name: "index is a directory", args: func(f *cmdFile) []string { return d(f, "-i", "dir", "data") }},
		{name: "index in a missing directory", args: func(f *cmdFile) []string { return d(f, "-i", "none/index", "data") }},
		{name: "data below a file", args: func(f *cmdFile) []string { return d(f, "-i", "index", "data/x") }},
		{name: "benchmark file in a missing directory", args: func(f *cmdFile) []string { return d(f, "-i", "index", "-b", "none/x", "data") }},
		{name: "profile in a missing directory", args: func(f *cmdFile) []string { return d(f, "-i", "index", "-pprof", "none/x", "data") }},
		{name: "the other format", args: func(f *cmdFile) []string { return []string{formatFlag(!f.csv), "-i", "index", "data"} }},
		{name: "data replaced by less", args: func(f *cmdFile) []string { return d(f, "-i", "index", "data") }, prep: func(e *cmdEnv, f *cmdFile) { os.WriteFile(e.data, f.data[:f.m.offset-3], 0640) }, data: true},
		{name: "data emptied", args: func(f *cmdFile) []string { return d(f, "-i", "index", "data") }, prep: func(e *cmdEnv, f *cmdFile) { os.WriteFile(e.data, nil, 0640) }, data: true},
	}
	for i, b := range []string{"{\"a\":1\n", "nonsense\n", "{\"a\":1}x\n", "[1]\n", "\n", "{\"a\":2}\n{\"a\":}\n", "\x00\n", "{\"a\":1e999}\n"} {
		rs = append(rs, refusal{name: fmt.Sprintf("malformed line %d", i), args: func(f *cmdFile) []string {
			if f.csv {
				return nil
			}
			return d(f, "-i", "index", "data")
		}, prep: bad(b), data: true, more: i == 5})
	}
	// index files that are none
	junk := map[string][]byte{"one byte": {1}, "text": []byte("hello\n"), "short page": bytes.Repeat([]byte{7}, 4095), "two pages of 01": bytes.Repeat([]byte{1}, 8192), "page of text": bytes.Repeat([]byte("{\"a\":1}\n"), 512*5)}
	var jn []string
	for k := range junk {
		jn = append(jn, k)
	}
	sort.Strings(jn)
	for _, k := range jn {
		b := junk[k]
		rs = append(rs, refusal{name: "index is " + k, args: func(f *cmdFile) []string { return d(f, "-i", "index", "data") }, prep: func(e *cmdEnv, f *cmdFile) { os.WriteFile(e.index, b, 0640) }})
	}
	for fi, f := range files {
		f := f
		c.Par(len(rs)*3, func(i int) {
			r, state := rs[i/3], i%3
			args := r.args(f)
			if args == nil && r.data {
				return
			}
			cs := map[string]any{"invocation": r.name, "args": strings.Join(args, " "), "index": []string{"absent", "of a part of the data", "of all the data"}[state], "data": string(f.data)}
			// without an index there is nothing that is the other format or more than the data
			if state == 0 && (r.name == "the other format" || r.name == "data emptied" || r.name == "data replaced by less") {
				return
			}
			if strings.HasPrefix(r.name, "data ") && r.data && state != 2 {
				return
			}
			c.Guard("refusal", cs, func() {
				e := newCmdEnv(c, bin)
				defer e.close()
				os.Mkdir(filepath.Join(e.dir, "dir"), 0755)
				upto := int(f.m.offset)
				if state == 1 {
					upto = bytes.IndexByte(f.data, '\n') + 1
				}
				os.WriteFile(e.data, f.data[:upto], 0640)
				if state > 0 {
					if x := e.run(append(f.flags(), "-i", "index", "data")...); x.code != 0 {
						c.Violf("setup", cs, "status %d: %s", x.code, x.output)
						return
					}
				}
				os.WriteFile(e.data, f.data, 0640)
				if r.prep != nil {
					r.prep(e, f)
				}
				data, _ := os.ReadFile(e.data)
				before := e.tree()
				for k := 0; k < 2; k++ {
					x := e.run(args...)
					if x.code == 0 {
						c.Violf("accepted", cs, "the command succeeds: %s", x.output)
						return
					}
					if x.code == -2 {
						c.Violf("hang", cs, "%s", x.output)
						return
					}
					// files it may create: an index that was not there, reports
					except := []string{"extra1", "extra2"}
					if before["index"] == "" || r.data {
						except = append(except, "index")
					}
					if ch := changed(before, e.tree(), except...); len(ch) > 0 {
						c.Violf("refusal-touch", cs, "changed or created %v", ch)
						return
					}
					if r.data && state > 0 {
						b, _ := os.ReadFile(e.index)
						if len(data) < upto {
							data = f.data // only what was there before can be in the index
						}
						got, err := readIndex(&MemFile{b: b}, f.csv, data)
						if err != nil {
							c.Violf("refusal-index", cs, "the index cannot be read afterwards: %v", err)
							return
						}
						for _, w := range f.at(c, upto).idx {
							y := got.find(w.name, w.ft)
							if y == nil || !subset(w.entries, y.entries) {
								c.Violf("refusal-lost", cs, "entries of %q are gone", w.name)
								return
							}
						}
					}
				}
				// and it works once the cause is gone
				if !r.more && (r.data || state > 0 && !strings.HasPrefix(r.name, "index is")) {
					os.WriteFile(e.data, f.data, 0640)
					if x := e.run(append(f.flags(), "-i", "index", "data")...); x.code != 0 {
						c.Violf("afterwards", cs, "the correct invocation fails afterwards: status %d: %s", x.code, x.output)
						return
					}
					b, _ := os.ReadFile(e.index)
					got, err := readIndex(&MemFile{b: b}, f.csv, f.data)
					if err != nil {
						c.Violf("afterwards", cs, "%v", err)
						return
					}
					if s := checkIndex(got, f.m, f.data, f.csv, len(f.search) > 0); s != "" {
						c.Violf("afterwards", cs, "%s", s)
						return
					}
				}
				c.Trace(1)
				c.State(H64("refusal", fi, i))
			})
		})
	}
}
