package model

import (
	"fmt"
	"runtime"
	"syscall"
	"time"

	"github.com/go-air/dupi"
)

// Next calls q.Next, and fails if the call takes an excessive time of a
// processor (not of the clock, so other load does not matter).
func Next(q *dupi.Query, dst []dupi.Blot) (int, error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	t := threadTime()
	n, err := q.Next(dst)
	t = threadTime() - t
	if t < 5*time.Second {
		return n, err
	}
	docs := 0
	for i := range dst {
		docs += cap(dst[i].Docs)
	}
	// this many can take a while
	if t < 5*time.Second+time.Duration(docs)*100*time.Microsecond+time.Duration(len(dst))*20*time.Microsecond {
		return n, err
	}
	return n, fmt.Errorf("Next computed for %v to give %d blots, %d documents, error %v", t, n, docs, err)
}

// threadTime is what the thread has computed.
func threadTime() time.Duration {
	var u syscall.Rusage
	// RUSAGE_THREAD
	if err := syscall.Getrusage(1, &u); err != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}
