module verif/driver

go 1.24

require verif/rsim v0.0.0

replace verif/rsim => ../rsim
