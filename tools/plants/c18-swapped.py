prop = "C18"
pkg = "scouterx/dump"
needs = "a mutex profile in binary form"
breaks = "the profile is taken for as many seconds as its rate says, at a rate of one in as many as it should take seconds"
edits = [("scouterx/dump/dump.go", """	go profileMutex(fileName, sec, rate, 0)
""", """	go profileMutex(fileName, rate, sec, 0)
""")]
demo = r'''
package dump

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(d)
	os.Setenv("SCOUTER_AGENT_HOME", d)
	ProfileMutexBinaryDump(3, 60)
	time.Sleep(500 * time.Millisecond)
	if n := runtime.SetMutexProfileFraction(-1); n != 60 {
		t.Fatalf("one in %d is recorded, one in 60 was asked for", n)
	}
	for i := 0; i < 60; i++ {
		time.Sleep(100 * time.Millisecond)
		if l, _ := filepath.Glob(filepath.Join(getBinaryDumpPath(), "go_mutex_*")); len(l) > 0 {
			return
		}
	}
	t.Fatal("there is no profile after six seconds, three were asked for")
}
'''
