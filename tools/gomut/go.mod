module gomut

go 1.23
