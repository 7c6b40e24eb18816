package hx

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"
)

// Virtual runs f in a virtual-time bubble (time advances only when every goroutine of the
// bubble is blocked) and answers for the case from inside it, because the code under test may
// leave goroutines behind that never end. The facet has to be OneShot.
func Virtual(rec *Rec, f func() error) error {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "case", F: func(t *testing.T) {
		synctest.Test(t, func(*testing.T) {
			ReplyAndExit(rec, f())
		})
	}}}, nil, nil)
	return fmt.Errorf("HARNESS: the bubble ended without an answer")
}
