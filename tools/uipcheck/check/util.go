package check

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

func itoa(i int) string { return strconv.Itoa(i) }

// rel shortens a file name to its path in the repository.
func rel(p *load.Prog, f string) string {
	if p.Dir != "" {
		return strings.TrimPrefix(f, strings.TrimSuffix(p.Dir, "/")+"/")
	}
	return f
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// short names a function without the module path.
func short(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), load.ModPath+"/", "")
}

// calleeName names what a call calls, for messages and models.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			return o.String()
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "function value"
}
