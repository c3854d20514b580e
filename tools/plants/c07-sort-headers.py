prop = "C07"
pkg = "scouterx/strace"
needs = "profile_http_header_enabled and a request with several values of one header, not in alphabetical order"
breaks = "the values of a header in the application's request are put in another order by StartHttpService"
edits = [("scouterx/strace/tracemain.go", """			for k, v := range r.Header {
				vs""", """			for k, v := range r.Header {
				sort.Strings(v)
				vs"""), ("scouterx/strace/tracemain.go", """	"runtime"
""", """	"runtime"
	"sort"
""")]
demo = r'''
package strace

import (
	"context"
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	ac.ProfileHttpHeaderEnabled = true
	r, _ := http.NewRequest("GET", "http://x/", nil)
	r.Header["X-A"] = []string{"z", "a"}
	StartHttpService(context.Background(), r)
	if v := r.Header["X-A"]; v[0] != "z" {
		t.Fatalf("the request's headers were changed to %v", v)
	}
}
'''
