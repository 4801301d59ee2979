module verif/libs

go 1.23
