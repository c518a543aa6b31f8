module zzmutate

go 1.26
