prop = "C11"
pkg = "scouterx/netio/tcpclient"
needs = "a saved text with Windows line ends"
breaks = "the file holds another text than the one saved"
edits = [("scouterx/netio/tcpclient/handlers.go", """		text := p.GetString("setConfig")
""", """		text := strings.Replace(p.GetString("setConfig"), "\\r\\n", "\\n", -1) // edited on Windows
"""), ("scouterx/netio/tcpclient/handlers.go", """	"strconv"
""", """	"strconv"
	"strings"
""")]
demo = r'''
package tcpclient

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(d)
	os.Setenv("SCOUTER_CONFIG", d+"/demo.conf")
	text := "obj_name=a\r\n# note\r\n"
	p := netdata.NewMapPack()
	p.Put("setConfig", text)
	saveConfig(p)
	b, _ := ioutil.ReadFile(d + "/demo.conf")
	if string(b) != text {
		t.Fatalf("%q was saved as %q", text, b)
	}
}
'''
