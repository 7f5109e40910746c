module uipverif

go 1.19

require github.com/qiniu/uip v0.0.0

replace github.com/qiniu/uip => /repo
