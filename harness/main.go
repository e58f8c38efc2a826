package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

// Quick deadlines leave ample room below the 900 s limit; a run that reaches its
// deadline reports exhaustive:false and what was cut, and exits 0.
var checks = map[string]func(*Check){
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": concCheck, "C10": concCheck, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26,
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: polymc <property> [quick|thorough]")
		os.Exit(2)
	}
	prop := os.Args[1]
	if prop == "conc-worker" {
		concWorker(os.Args[2:])
		return
	}
	if prop == "conc-free" {
		concFree(os.Args[2:])
		return
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	f, ok := checks[prop]
	if !ok {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "unknown property", prop, "- have", ids)
		os.Exit(2)
	}
	c := NewCheck(prop, tier, 400*time.Second, 3*time.Hour)
	go watchdog(c)
	f(c)
	code := c.Finish()
	cleanup()
	os.Exit(code)
}
