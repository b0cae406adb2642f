module rewrite

go 1.23
