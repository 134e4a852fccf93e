PAR = "parallel/parallel.go"; SPEC = "speculative/speculative.go"
SEEDS = [
dict(id="s01-range-extra-batches", property="C05",
 needs="a Range call with at least three batches, whose number of body calls is counted",
 breaks="parallel.Range creates more batches than the caller asked for",
 edits=[(PAR, "recur(mid, high, n-half)", "recur(mid, high, n-half+1)")],
 demo='''
package main

import (
	"fmt"
	"os"
	"sync/atomic"

	"github.com/intel/forGoParallel/parallel"
)

func main() {
	for n := 1; n <= 9; n++ {
		var calls int64
		parallel.Range(0, 1000, n, func(low, high int) { atomic.AddInt64(&calls, 1) })
		if int(calls) > n {
			fmt.Println(n, "batches requested,", calls, "made")
			os.Exit(1)
		}
	}
}
'''),
dict(id="s02-reduce-join-order", property="C03",
 needs="a join that is associative but not commutative, and at least three functions",
 breaks="parallel.Reduce joins the results of three or more functions in the wrong order",
 edits=[(PAR, "right = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)", "left = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)"), (PAR, "left = Reduce(join, firstFunction, moreFunctions[:half]...)", "right = Reduce(join, firstFunction, moreFunctions[:half]...)")],
 demo='''
package main

import (
	"fmt"
	"os"

	"github.com/intel/forGoParallel/parallel"
)

func main() {
	f := func(s string) func() string { return func() string { return s } }
	join := func(x, y string) string { return x + y }
	if s := parallel.Reduce(join, f("a"), f("b"), f("c"), f("d")); s != "abcd" {
		fmt.Println(s)
		os.Exit(1)
	}
}
'''),
dict(id="s03-rangeor-lost-panic", property="C04",
 needs="the right half of a RangeOr panics while the left half returns true",
 breaks="a panic of a right-hand batch is lost when the left-hand result is true",
 edits=[(PAR, "if p != nil {\n				panic(p)\n			}\n			return b0 || b1", "if p != nil && !b0 {\n				panic(p)\n			}\n			return b0 || b1")],
 demo='''
package main

import (
	"fmt"
	"os"

	"github.com/intel/forGoParallel/parallel"
)

func main() {
	defer func() {
		if p := recover(); p == nil {
			fmt.Println("panic lost")
			os.Exit(1)
		}
	}()
	parallel.RangeOr(0, 2, 2, func(low, high int) bool {
		if low == 1 {
			panic("right")
		}
		return true
	})
}
'''),
dict(id="s04-spec-range-waits", property="C08",
 needs="a speculative Range whose left batch signals while the right batch is still blocked",
 breaks="speculative.Range waits for the right half although the left half has already decided the result",
 edits=[(SPEC, "if recur(low, mid, half) {\n				return true\n			}\n			wg.Wait()", "b0 := recur(low, mid, half)\n			wg.Wait()\n			if b0 {\n				return true\n			}")],
 demo='''
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/intel/forGoParallel/speculative"
)

func main() {
	block := make(chan struct{})
	done := make(chan bool, 1)
	go func() {
		done <- speculative.Range(0, 2, 2, func(low, high int) bool {
			if low == 1 {
				<-block
				return false
			}
			return true
		})
	}()
	select {
	case b := <-done:
		if !b {
			os.Exit(1)
		}
	case <-time.After(10 * time.Second):
		fmt.Println("blocked")
		os.Exit(1)
	}
	close(block)
}
'''),
]
