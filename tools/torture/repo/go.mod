module example.org/tort

go 1.15
