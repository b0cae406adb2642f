module stompmc/mc

go 1.23
