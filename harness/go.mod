module github.com/itstarsun/go-thrift/verifharness

go 1.23

require github.com/itstarsun/go-thrift v0.0.0

replace github.com/itstarsun/go-thrift => /repo
