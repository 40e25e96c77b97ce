module dupiverif

go 1.23

require (
	github.com/go-air/dupi v0.0.0
	pgregory.net/rapid v1.3.0
)

require golang.org/x/sys v0.0.0-20210902050250-f475640dd07b // indirect

replace github.com/go-air/dupi => /repo
