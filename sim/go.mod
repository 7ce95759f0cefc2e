module verifsim

go 1.23
