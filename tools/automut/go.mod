module verif/automut

go 1.23
