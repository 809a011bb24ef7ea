// Command mcrun runs the enumeration phases of the checks (worker side).
package main

import (
	"verif/mc/ev"
	_ "verif/mc/props"
)

func main() { ev.Main() }
