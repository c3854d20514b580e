module verifsim

go 1.24
