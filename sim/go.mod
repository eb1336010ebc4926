module verifsim

go 1.21

require github.com/botlink/go-mavlink2 v0.0.0

replace github.com/botlink/go-mavlink2 => /repo
