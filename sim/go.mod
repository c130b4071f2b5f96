module verifsim

go 1.21

require github.com/ericlagergren/decimal v0.0.0

replace github.com/ericlagergren/decimal => /repo
