module verifharness

go 1.24

require github.com/bantling/micro v0.0.0

replace github.com/bantling/micro => /repo
