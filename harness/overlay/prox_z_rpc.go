package main

import (
	"bufio"
	"encoding/json"
	"os"
)

// A line-by-line server for the functions of this command, used by the checks:
// {"fn","dir","files":[{"p","c","m"}],"args":[...]} -> {"res":[...],"err":"..."}.
// It never starts unless VERIF_RPC is set.

var verifFns = map[string]func(a []string) ([]string, error){}

func init() {
	if os.Getenv("VERIF_RPC") == "" {
		return
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	// the functions under test may print; keep the protocol apart
	os.Stdout = os.Stderr
	dec := json.NewDecoder(in)
	for {
		var q struct {
			Fn    string
			Dir   string
			Files []struct {
				P, C string
				M    uint32
			}
			Args []string
		}
		if dec.Decode(&q) != nil {
			os.Exit(0)
		}
		var r struct {
			Res []string `json:"res"`
			Err string   `json:"err"`
			Bad string   `json:"bad"`
		}
		for _, f := range q.Files {
			if err := os.WriteFile(f.P, []byte(f.C), os.FileMode(f.M)); err != nil {
				r.Bad = err.Error()
			}
		}
		if q.Dir != "" {
			if err := os.Chdir(q.Dir); err != nil {
				r.Bad = err.Error()
			}
		}
		fn := verifFns[q.Fn]
		if fn == nil && q.Fn != "" {
			r.Bad = "no function " + q.Fn
		}
		if r.Bad == "" && fn != nil {
			res, err := fn(q.Args)
			r.Res = res
			if err != nil {
				if r.Err = err.Error(); r.Err == "" {
					r.Err = "error"
				}
			}
		}
		out.Encode(r)
	}
}
