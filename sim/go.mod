module verifsim

go 1.22.2
