package kit

import (
	"sync"
	"sync/atomic"
)

var clock atomic.Int64

// Clock is a logical clock for real goroutines: every call returns a larger
// value, consistent with real time.
func Clock() int64 { return clock.Add(1) }

// Parallel runs n bodies at once and waits for them.
func Parallel(n int, body func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			body(i)
		}(i)
	}
	close(start)
	wg.Wait()
}
