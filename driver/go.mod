module verifdriver

go 1.22
