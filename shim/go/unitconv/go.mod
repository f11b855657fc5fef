module github.com/dsnet/golib/unitconv

go 1.22
