module verif/vh

go 1.23

require pgregory.net/rapid v1.3.0
