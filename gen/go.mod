module verif/gen

go 1.27
