module verif/rsim

go 1.24
