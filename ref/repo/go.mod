module github.com/vim-jp/go-vimlparser

go 1.14
