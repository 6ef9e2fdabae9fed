// Command native replays recorded inputs against the compiled code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"
	_ "time/tzdata"

	"verifh/sym"
)

// registry is filled by the generated file registry_gen.go.
var registry = map[string]func(){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: native VECTOR.json [stress] | native -rand HARNESS SEED")
		os.Exit(2)
	}
	limit := 20 * time.Second
	name := ""
	if os.Args[1] == "-rand" {
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		sym.LoadRandom(seed, os.Getenv("VERIF_TIER") == "thorough")
		name = os.Args[2]
	} else {
		b, err := os.ReadFile(os.Args[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v sym.Vector
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if v.TZ != "" {
			loc, err := time.LoadLocation(v.TZ)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			time.Local = loc
		}
		sym.Load(&v)
		name = v.Harness
		if len(os.Args) > 2 {
			n, _ := strconv.Atoi(os.Args[2])
			sym.SetStress(n)
		}
	}
	if s := os.Getenv("REPLAY_LIMIT_MS"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Millisecond
	}
	f := registry[name]
	if f == nil {
		fmt.Println("no harness", name)
		os.Exit(2)
	}
	time.AfterFunc(limit, func() { sym.Finish("TIMEOUT", "the run did not end") })
	f()
	sym.Finish("OK", "")
}
