module verif.local/instrument

go 1.24
