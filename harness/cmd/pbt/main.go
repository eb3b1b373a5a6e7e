// pbt runs the check of one property: pbt ID [--replay FILE].
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"

	"verif/harness/fw"
	"verif/harness/props"
	"verif/harness/rpc"
)

func main() {
	if len(os.Args) < 2 {
		fw.Fatal("usage: pbt ID [--replay FILE]")
	}
	id := os.Args[1]
	if id == "serve" { // helper process of U02 and P01
		rpc.Serve()
	}
	if id == "conc-child" { // helper process of C04
		props.ConcChild()
	}
	if id == "store-child" { // helper process of C05
		props.StoreChild()
	}
	if id == "compile-hashes" { // helper process of C03
		in, err := io.ReadAll(os.Stdin)
		if err != nil {
			fw.Fatal("%v", err)
		}
		out, err := props.CompileHashes(in)
		if err != nil {
			fw.Fatal("%v", err)
		}
		fmt.Println(out)
		return
	}
	var rp *fw.Replay
	if len(os.Args) >= 4 && os.Args[2] == "--replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fw.Fatal("%v", err)
		}
		rp = new(fw.Replay)
		if err := json.Unmarshal(b, rp); err != nil {
			fw.Fatal("%v", err)
		}
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			fw.Fatal("VERIF_SEED: %v", err)
		}
		if seed = v; seed == 0 {
			seed = 0xC0FFEE
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	f, ok := props.All[id]
	if !ok {
		fw.Fatal("unknown property %s", id)
	}
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintln(os.Stderr, "harness error:", p)
			panic(p)
		}
	}()
	x := fw.NewCtx(id, tier, seed, root, rp)
	f(x)
	os.Exit(x.Finish())
}
