module verif/sim

go 1.26

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/anishathalye/porcupine v1.3.1
	github.com/cybozu-go/aptutil v0.0.0
	github.com/cybozu-go/log v1.5.0
	github.com/cybozu-go/well v1.10.0
	github.com/ulikunitz/xz v0.5.10
)

replace github.com/cybozu-go/aptutil => /repo

replace github.com/cybozu-go/well => ../.build/ov/well
