module verif.local/harness

go 1.24

require (
	github.com/shellyln/takenoco v0.0.0
	verif.local/vsim v0.0.0
)

replace github.com/shellyln/takenoco => ../sut

replace verif.local/vsim => ../vsim
