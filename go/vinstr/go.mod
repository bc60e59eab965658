module vinstr

go 1.21
