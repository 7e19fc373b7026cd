module verif

go 1.22

require (
	github.com/boynton/sadl v0.0.0
)

replace github.com/boynton/sadl => /repo

replace github.com/boynton/scanner => ../standin/scanner

replace github.com/boynton/smithy => ../standin/smithy
