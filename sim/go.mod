module lhasim

go 1.25
