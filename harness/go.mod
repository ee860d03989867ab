module verif/harness

go 1.25

require (
	github.com/NubeDev/bacnet v0.0.0
	github.com/sirupsen/logrus v1.8.1
)

require (
	github.com/patrickmn/go-cache v2.1.0+incompatible // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/sys v0.0.0-20220412211240-33da011f77ad // indirect
	golang.org/x/text v0.3.7 // indirect
)

replace github.com/NubeDev/bacnet => /repo
