module vsim

go 1.24

require github.com/jtcaraball/goexpdt v0.0.0

replace github.com/jtcaraball/goexpdt => /repo
