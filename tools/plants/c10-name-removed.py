prop = "C10"
pkg = "scouterx/conf"
needs = "obj_name removed from the file while the agent runs"
breaks = "a removed obj_name stays in force instead of the default until a restart"
edits = [("scouterx/conf/configure.go", """	oldObjName := conf.ObjName
	newObjSimpleName := stringOf(props,"obj_name", defaultName, "object name")
""", """	oldObjName := conf.ObjName
	newObjSimpleName := stringOf(props,"obj_name", defaultName, "object name")
	if conf.ObjNameSimple != "" && conf.ObjNameSimple != defaultName && newObjSimpleName == defaultName {
		newObjSimpleName = conf.ObjNameSimple // not given: as it was
	}
""")]
demo = r'''
package conf

import (
	"testing"

	"github.com/magiconair/properties"
)

func TestDemo(t *testing.T) {
	c := new(Configure)
	p := properties.NewProperties()
	p.Set("obj_name", "orders")
	c.resetObjNameAndType(p)
	c.resetObjNameAndType(properties.NewProperties())
	if c.ObjNameSimple != "go1" {
		t.Fatalf("obj_name was removed from the configuration but is still %s", c.ObjNameSimple)
	}
}
'''
