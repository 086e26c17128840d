module zsim

go 1.25
