module github.com/oarkflow/maps

go 1.24

require verif/simrt v0.0.0

replace verif/simrt => ../../simrt
