module verif/harness

go 1.25.0

require (
	golang.org/x/text v0.23.0
	pgregory.net/rapid v1.3.0
)
