module verif/harness

go 1.26.0

require github.com/wdamron/amt v0.0.0

replace github.com/wdamron/amt => /repo
