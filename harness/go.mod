module verif/harness

go 1.23

require (
	github.com/xuri/xgen v0.0.0
	golang.org/x/net v0.7.0
)

require golang.org/x/text v0.7.0

replace github.com/xuri/xgen => /repo
