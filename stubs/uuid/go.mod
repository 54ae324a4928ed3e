module github.com/google/uuid

go 1.20
