module verif/harness

go 1.23

require (
	github.com/aboukirev/ouro v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/aboukirev/ouro => /repo
