module vinstr

go 1.27
