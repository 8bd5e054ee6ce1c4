module ga
go 1.24
