module oracle

go 1.25.0

require github.com/trim21/go-phpserialize v0.0.0

require go4.org/unsafe/assume-no-moving-gc v0.0.0-20231121144256-b99613f794b6

replace github.com/trim21/go-phpserialize => /repo
