module github.com/atotto/clipboard

go 1.18

require github.com/aarondl/readline v0.0.1
