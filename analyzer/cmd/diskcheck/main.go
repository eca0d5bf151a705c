// Command diskcheck decides one property of the repository statically.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"

	"diskcheck/props"
)

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	if *prop == "" {
		var ids []string
		for id := range props.Specs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	if f := os.Getenv("DC_PROF"); f != "" { // CPU profile of the first 25 s
		w, err := os.Create(f)
		if err == nil && pprof.StartCPUProfile(w) == nil {
			go func() {
				time.Sleep(25 * time.Second)
				pprof.StopCPUProfile()
				w.Close()
			}()
		}
	}
	os.Exit(props.Main(*prop, *repo, *verif))
}
