module verifharness

go 1.27

require github.com/zeldovich/go-rpcgen v0.0.0

replace github.com/zeldovich/go-rpcgen => /repo
