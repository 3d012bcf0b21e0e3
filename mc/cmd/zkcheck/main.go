// zkcheck decides one property: zkcheck <verif root> <property id>.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"zkmc/checks"
)

func main() {
	if os.Getenv("ZKMC_CHILD") != "" {
		os.Exit(checks.ChildMain())
	}
	if len(os.Args) < 3 {
		fmt.Println(checks.IDs())
		os.Exit(2)
	}
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(12 << 30)
	os.Exit(checks.Main(os.Args[1], os.Args[2], 240*time.Second, 780*time.Second))
}
