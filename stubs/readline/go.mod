module github.com/aarondl/readline

go 1.18
