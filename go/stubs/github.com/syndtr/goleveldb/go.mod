module github.com/syndtr/goleveldb

go 1.20
