prop = "C18"
pkg = "scouterx/dump"
needs = "a text dump file of more than 64 KB"
breaks = "the tail of a dump file is not shown when the last read is short"
edits = [("scouterx/dump/dump.go", """		if count, err = reader.Read(part); err != nil {
			break
		}
""", """		if count, err = reader.Read(part); err != nil {
			break
		}
		if sent += count; sent > 1<<16 && count < 16 { // nothing worth another frame
			break
		}
"""), ("scouterx/dump/dump.go", """	var count int

	for {
		if count""", """	var count, sent int

	for {
		if count""")]
demo = r'''
package dump

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	os.MkdirAll(getDumpPath(), 0755)
	b := bytes.Repeat([]byte("x"), 1<<16+7)
	if err := ioutil.WriteFile(filepath.Join(getDumpPath(), "big.log"), b, 0644); err != nil {
		t.Skip(err)
	}
	p := netdata.NewMapPack()
	p.Put("name", "big.log")
	out := netdata.NewDataOutputX(nil)
	StreamDumpFileContents(p, out)
	if n := bytes.Count(out.Bytes(), []byte("x")); n != len(b) {
		t.Fatalf("%d of %d bytes were sent", n, len(b))
	}
}
'''
