module verif/harness

go 1.27

require github.com/sfomuseum/go-edtf v0.0.0

replace github.com/sfomuseum/go-edtf => /repo
