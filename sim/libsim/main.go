// Command libsim runs one simulated execution of library level workloads of
// packages apt and cacher.
package main

import "verif/sim/sim"

func main() {
	sim.Main(sim.Program{Gen: sim.GenLib, Exec: sim.ExecLib})
}
