module verif/engine

go 1.25
