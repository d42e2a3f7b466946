package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C30"] = checkDef{"model_checking", runC30}
	if len(os.Args) > 3 && os.Args[1] == "prepare" {
		// prepare REPO TIER PROPERTY: runs the generator and writes the packages that
		// the second build of this program links
		prepare := prepareMain
		if len(os.Args) > 4 && os.Args[4] == "C29" {
			prepare = prepareGolden
		}
		if err := prepare(os.Args[2], os.Args[3] == "thorough"); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(0)
	}
}

func setupDirs() (work, driver, bin string) {
	work = os.Getenv("VERIF_WORK")
	driver = filepath.Join(work, "gendriver")
	bin = filepath.Join(work, "fakebin")
	os.MkdirAll(bin, 0755)
	os.WriteFile(filepath.Join(bin, "gofmt"), []byte("#!/bin/sh\nexit 0\n"), 0755)
	return
}

func runC30(c *Ctx) {
	defs := universe(c.Repo, c.Thorough())
	var pr prepared
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_WORK"), "prepared.json"))
	if err == nil {
		err = json.Unmarshal(b, &pr)
	}
	if err != nil || len(pr.Defs) != len(defs) {
		fmt.Fprintln(os.Stderr, "not prepared:", err)
		os.Exit(2)
	}
	c.Par("compile", len(defs), func(i int) string { return defs[i].text }, func(t *T, i int) {
		r := pr.Defs[i]
		if r.Gen != "" {
			t.Failf("generate", "%s", r.Gen)
		}
		if len(r.Errs) > 0 {
			key := "compile"
			switch defs[i].sect {
			case "include", "clash":
				key += "-" + defs[i].sect
			}
			t.Failf(key, "%s", strings.Join(r.Errs, "; "))
		}
		t.Trace()
		t.StateS(defs[i].text)
		if len(r.Unused) > 0 {
			key := "remote-imports"
			for _, u := range r.Unused {
				if !strings.Contains(u, `"math" imported and`) && !strings.Contains(u, `"strconv" imported and`) {
					key = "remote-other-imports"
				}
			}
			t.Failf(key, "%s", strings.Join(r.Unused, "; "))
		}
	})
	clean := func(i int) bool { return pr.Defs[i].Gen == "" && len(pr.Defs[i].Errs) == 0 }
	runBehaviour(c, defs, clean, &pr)
}
