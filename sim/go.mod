module verif/sim

go 1.24

require (
	github.com/oarkflow/permission v0.0.0
	verif/simrt v0.0.0
)

require (
	github.com/oarkflow/maps v0.0.0 // indirect
	github.com/oarkflow/xsync v0.0.0 // indirect
)

replace (
	github.com/oarkflow/maps => ../stubs/maps
	github.com/oarkflow/permission => ../.build/gen
	github.com/oarkflow/xsync => ../stubs/xsync
	verif/simrt => ../simrt
)
