module mutation

go 1.21
