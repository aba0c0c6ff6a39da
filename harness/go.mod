module kfverif

go 1.23

require (
	github.com/antlr4-go/antlr/v4 v4.13.0
	github.com/kwilteam/kuneiform v0.0.0
	github.com/kwilteam/kwil-db/parse v0.1.2
	pgregory.net/rapid v1.3.0
)

require (
	github.com/kwilteam/action-grammar-go v0.1.1 // indirect
	github.com/kwilteam/sql-grammar-go v0.1.0 // indirect
	golang.org/x/exp v0.0.0-20230817173708-d852ddb80c63 // indirect
)

replace github.com/kwilteam/kuneiform => /repo
