module verifdrive

go 1.23
