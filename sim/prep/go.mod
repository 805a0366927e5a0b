module simprep

go 1.23
