module disko-sim

go 1.23

require github.com/dargueta/disko v0.0.0

require (
	github.com/boljen/go-bitmap v0.0.0-20151001105940-23cd2fb0ce7d // indirect
	github.com/hashicorp/errwrap v1.1.0 // indirect
	github.com/hashicorp/go-multierror v1.1.1 // indirect
	github.com/jszwec/csvutil v1.10.0 // indirect
	github.com/xaionaro-go/bytesextra v0.0.0-20220103144954-846e454ddea9 // indirect
)

replace github.com/dargueta/disko => /repo
