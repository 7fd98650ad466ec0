module verifmc

go 1.22.0

require (
	github.com/kevmo314/appendable v0.0.0
	golang.org/x/sys v0.16.0
)

require golang.org/x/text v0.14.0 // indirect

replace github.com/kevmo314/appendable => /repo
