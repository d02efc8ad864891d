module hv

go 1.23

require github.com/hound-search/hound v0.0.0

require (
	github.com/blang/semver/v4 v4.0.0 // indirect
	golang.org/x/mod v0.10.0
)

replace github.com/hound-search/hound => /repo
