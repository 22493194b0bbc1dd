// Command vh runs one property check against the idmd binaries named by the
// environment (IDMD, IDMD_RACE, IDMD_TRACE).
package main

import (
	"fmt"
	"os"
	"os/signal"
	"sort"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: vh ID;", ids)
		os.Exit(2)
	}
	c, ok := checks[os.Args[1]]
	if !ok {
		fmt.Println("unknown check", os.Args[1])
		os.Exit(2)
	}
	t := newT(os.Args[1])
	t.Level = c.level
	t.Rule = c.rule
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		t.abort(2)
	}()
	// Watchdog: a run that does not end is inconclusive, never a violation.
	limit := 850 * time.Second
	time.AfterFunc(limit, func() {
		fmt.Printf("# %s inconclusive: watchdog after %v\n", t.ID, limit)
		t.abort(2)
	})
	os.Exit(t.run(c.run))
}
