module simgen

go 1.21
