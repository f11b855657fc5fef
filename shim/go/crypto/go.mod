module golang.org/x/crypto

go 1.22
