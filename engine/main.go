package main

import (
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	// quick development driver: engine dev PKG FUNC
	t0 := time.Now()
	dir, _ := os.MkdirTemp("", "verif-dev-")
	defer os.RemoveAll(dir)
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_DEV_REPO"); v != "" {
		repo = v
	}
	e, err := loadEngine(repo, verif, dir, []string{repoMod + "/" + os.Args[2]}, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	for _, fnName := range os.Args[3:] {
		fn := e.funcOf(repoMod+"/"+os.Args[2], fnName)
		if fn == nil {
			fmt.Println("no such harness", fnName)
			os.Exit(2)
		}
		r := e.newRun(fnName, fn, 300*time.Second, 0)
		r.debug = os.Getenv("VDEBUG") != ""
		var ws []*Worker
		for i := 0; i < 8; i++ {
			ws = append(ws, newWorker(e))
		}
		e.explore(r, ws)
		fmt.Println(fnName, "wall", r.wall, "paths", r.paths, "ended", r.ended, "asserts", r.asserts, "steps", r.steps, "queries", statQueries, "cached", statCached, "unk", statUnknown, "err", statErrors, "solver ms", statSolveNS/1e6, "fns", len(r.fns))
		fmt.Println(" reached", r.reached)
		for _, n := range r.noteList() {
			fmt.Println("  note", n)
		}
		for _, v := range r.viols {
			fmt.Println("  VIOL", v.Kind, v.Label, v.Where, v.Inputs, v.Notes, v.Goros)
		}
	}
}
