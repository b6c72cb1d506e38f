module vtools

go 1.22
