module verif/harness

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/exascience/pargo v0.0.0
)

replace github.com/exascience/pargo => /repo
