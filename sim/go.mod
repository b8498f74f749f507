module vsim

go 1.21.6

replace github.com/romshark/jscan/v2 => github.com/romshark/jscan/v2 v2.0.0-20240202182356-7609d33f4408

replace github.com/romshark/jscan-experimental-decoder => /repo

require (
	github.com/romshark/jscan-experimental-decoder v0.0.0
	github.com/romshark/jscan/v2 v2.0.2
)
