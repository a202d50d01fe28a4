// vxreplay runs one harness of the checker as ordinary Go code on the values of
// a recorded counterexample. Exit status: 0 property held, 10 violated, 11 the
// values do not satisfy the harness's assumptions, 12 the code crashed.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/opencoff/sigtool/internal/vx"
)

func run(f func()) (code int, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case vx.AssumeFailed:
				code, msg = 11, x.Why
			case vx.Violated:
				code, msg = 10, x.Msg
			default:
				code, msg = 12, fmt.Sprint(r)
				if vx.Verbose {
					msg += "\n" + string(debug.Stack())
				}
			}
		}
	}()
	f()
	return 0, ""
}

func main() {
	n := 1
	if s := os.Getenv("VX_ATTEMPTS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	vx.Verbose = os.Getenv("VX_VERBOSE") != ""
	if err := vx.Load(os.Args[1]); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	h := harnesses[vx.C.Harness]
	if h == nil {
		fmt.Println("no such harness", vx.C.Harness)
		os.Exit(3)
	}
	t0 := time.Now()
	code, msg := 0, ""
	for i := 0; i < n; i++ {
		vx.Reset()
		vx.Attempt = i
		code, msg = run(h)
		vx.Cleanup()
		if code == 10 || code == 12 {
			break
		}
		if time.Since(t0) > 20*time.Second {
			break
		}
	}
	fmt.Printf("result=%d attempt=%d %s\n", code, vx.Attempt, msg)
	os.Exit(code)
}
