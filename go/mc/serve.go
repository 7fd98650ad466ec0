package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// serveMain serves the files of a directory over HTTP on a port of the loopback
// interface until its standard input is closed:
//
//	/whole/F    never answers with a part
//	/single/F   answers with a part if one range is asked for
//	/full/F     answers like the standard library, with several parts too
//	/flush/F    the same in many small chunks
func serveMain(dir string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Println("error", err)
		os.Exit(2)
	}
	fmt.Println(l.Addr().(*net.TCPAddr).Port)
	go func() {
		io.Copy(io.Discard, os.Stdin)
		os.Exit(0)
	}()
	http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mode, name := filepath.Dir(r.URL.Path), filepath.Base(r.URL.Path)
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			http.NotFound(w, r)
			return
		}
		switch mode {
		case "/whole":
			r.Header.Del("Range")
		case "/single":
			if strings.Contains(r.Header.Get("Range"), ",") {
				r.Header.Del("Range")
			}
		case "/flush":
			w = &flushing{w}
		}
		http.ServeContent(w, r, name, time.Time{}, bytes.NewReader(b))
	}))
}

type flushing struct{ http.ResponseWriter }

func (f *flushing) Write(b []byte) (int, error) {
	n := 0
	for len(b) > 0 {
		k := min(len(b), 37+n%900)
		m, err := f.ResponseWriter.Write(b[:k])
		n += m
		if err != nil {
			return n, err
		}
		f.ResponseWriter.(http.Flusher).Flush()
		b = b[k:]
	}
	return n, nil
}
