module verifharness

go 1.23

require (
	github.com/infobloxopen/go-trees v0.0.0
	verifsim v0.0.0
)
