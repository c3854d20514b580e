prop = "C04"
pkg = "scouterx/netio"
needs = "the same text used first as a user agent and then as a referer"
breaks = "the text is looked up in the wrong set of texts already sent, so the collector never gets it as a referer"
edits = [("scouterx/netio/dataproxy.go", """	if refererSent.Contains(hash) {
		return hash
	}
""", """	if refererSent.Contains(hash) || (userAgentSent.Contains(hash) && !userAgentSent.Empty()) {
		return hash
	}
""")]
demo = r'''
package netio

import "testing"

func TestDemo(t *testing.T) {
	SendUserAgent("https://example.com/bot")
	h := SendReferer("https://example.com/bot")
	if !refererSent.Contains(h) {
		t.Fatal("the text was not sent as a referer")
	}
}
'''
