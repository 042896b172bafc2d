module verifinst

go 1.23
