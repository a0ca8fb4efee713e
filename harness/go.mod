module verif/harness

go 1.16

require (
	github.com/benoitkugler/textlayout v0.3.1
	github.com/benoitkugler/textprocessing v0.0.0
	golang.org/x/text v0.3.7
)

replace github.com/benoitkugler/textprocessing => /repo
