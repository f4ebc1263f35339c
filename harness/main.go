// The harness runs the library under generated workloads and judges what it observes.
// usage: harness <property id>   (VERIF_SEED, VERIF_TIER; VERIF_WORKLOAD and VERIF_CASE to replay)
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

func main() {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	if len(os.Args) < 2 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		os.Exit(2)
	}
	check := checks[os.Args[1]]
	if check == nil {
		fmt.Fprintln(os.Stderr, "no check for", os.Args[1])
		os.Exit(2)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
			os.Exit(2)
		}
		seed = n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	onlyCase := -1
	if s := os.Getenv("VERIF_CASE"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_CASE:", err)
			os.Exit(2)
		}
		onlyCase = n
	}
	if err := loadKnown(filepath.Join(verif, "known_findings.json")); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(2)
	}
	// run.sh makes the library's global random source start from a fixed state that it cannot
	// reseed from the clock; advance it by an amount that depends on the seed.
	for i := int64(0); i < seed%1000; i++ {
		rand.Int63()
	}
	os.Exit(runCheck(check, verif, seed, tier, os.Getenv("VERIF_WORKLOAD"), onlyCase))
}
