prop = "C04"
pkg = "scouterx/netio"
needs = "a login or a description used before and after a cache reset"
breaks = "logins are not sent again after the collector lost its dictionary"
edits = [("scouterx/netio/dataproxy.go", """	errorSent.Clear()
	loginSent.Clear()
""", """	errorSent.Clear()
""")]
demo = r'''
package netio

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
)

func TestDemo(t *testing.T) {
	SendLogin("somebody")
	if !loginSent.Contains(util.HashString("somebody")) {
		t.Skip("the text could not be queued")
	}
	ResetTextSent()
	if loginSent.Contains(util.HashString("somebody")) {
		t.Fatal("the text counts as sent after a reset")
	}
}
'''
