// Command cachersim runs one simulated execution of go-apt-cacher.
package main

import (
	"verif/sim/cachermain"
	"verif/sim/sim"
)

func main() {
	sim.Main(sim.Program{
		Gen:  sim.GenCacher,
		Exec: func(p *sim.Plan) { sim.ExecCacher(p, cachermain.Main) },
	})
}
