// Command mirrorsim runs one simulated execution of go-apt-mirror.
package main

import (
	"verif/sim/mirrormain"
	"verif/sim/sim"
)

func main() {
	sim.Main(sim.Program{
		Gen:  sim.GenMirror,
		Exec: func(p *sim.Plan) { sim.ExecMirror(p, mirrormain.Main) },
	})
}
