module verif/worker

go 1.24

require (
	github.com/dalzilio/rudd v0.0.0
	verif/rsim v0.0.0
)

replace github.com/dalzilio/rudd => ../../.build/rudd

replace verif/rsim => ../rsim
