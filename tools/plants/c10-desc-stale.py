prop = "C10"
pkg = "scouterx/conf"
needs = "a switch changed in the configuration file while running, and the settings listed afterwards"
breaks = "the list of settings goes on showing the first value of every true/false setting after the file has changed"
edits = [("scouterx/conf/configure.go", """	value := props.GetBool(key, defaultValue)
	descMap.Put(key, ConfigureDesc{
""", """	value := props.GetBool(key, defaultValue)
	if d, ok := descMap.Get(key); ok && d.(ConfigureDesc).Value != "" && d.(ConfigureDesc).ValueType == vtBool {
		return value // described already
	}
	descMap.Put(key, ConfigureDesc{
""")]
demo = r'''
package conf

import (
	"testing"

	"github.com/magiconair/properties"
)

func TestDemo(t *testing.T) {
	p := properties.NewProperties()
	boolOf(p, "demo_switch", false, "")
	p.Set("demo_switch", "true")
	boolOf(p, "demo_switch", false, "")
	d, _ := GetConfigureDescMap().Get("demo_switch")
	if v := d.(ConfigureDesc).Value; v != "true" {
		t.Fatalf("the setting is true but is listed as %s", v)
	}
}
'''
