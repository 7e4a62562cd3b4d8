module github.com/Masterminds/sprig/v3

go 1.20
