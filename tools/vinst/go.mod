module vinst

go 1.23
