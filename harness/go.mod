module verif/harness

go 1.21

require github.com/couchbaselabs/gojsonsm v0.0.0
require github.com/alecthomas/participle v0.7.1

replace github.com/couchbaselabs/gojsonsm => /repo
