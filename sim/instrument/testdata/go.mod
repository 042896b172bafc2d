module tort

go 1.13
