package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vsa check <ID> [quick|thorough] | vsa all | vsa list")
		os.Exit(1)
	}
	if f := os.Getenv("VSA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	exit := func(rc int) {
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		exit(runCheck(os.Args[2], tier))
	case "all":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			if runCheck(id, "quick") != 0 {
				rc = 1
			}
		}
		exit(rc)
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	}
}
