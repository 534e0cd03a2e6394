// Parses the scripts of cases.txt and prints trees, compiled forms and errors.
package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/compiler"
)

func dump(b *strings.Builder, v reflect.Value, ind string) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil\n")
			return
		}
		dump(b, v.Elem(), ind)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "\n")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(ind + "  " + v.Type().Field(i).Name + ": ")
			dump(b, v.Field(i), ind+"  ")
		}
	case reflect.Slice:
		fmt.Fprintf(b, "[%d]\n", v.Len())
		for i := 0; i < v.Len(); i++ {
			b.WriteString(ind + "  - ")
			dump(b, v.Index(i), ind+"  ")
		}
	default:
		fmt.Fprintf(b, "%#v\n", v.Interface())
	}
}

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(strings.TrimSpace(string(data)), "\n") {
		kind := strings.Fields(l)[0]
		src, err := strconv.Unquote(strings.TrimSpace(l[len(kind):]))
		if err != nil {
			panic(err)
		}
		fmt.Println("###", l)
		var b strings.Builder
		if kind == "expr" {
			n, err := vimlparser.ParseExpr(strings.NewReader(src))
			fmt.Printf("%v %#v\n", n == nil, err)
			if err == nil {
				dump(&b, reflect.ValueOf(n), "")
			}
			fmt.Print(b.String())
			continue
		}
		f, err := vimlparser.ParseFile(strings.NewReader(src), "f.vim", &vimlparser.ParseOption{Neovim: kind == "neovim"})
		fmt.Println(f == nil, err)
		if err == nil {
			dump(&b, reflect.ValueOf(f), "")
			var o bytes.Buffer
			fmt.Println(compiler.Compile(&o, f))
			fmt.Print(b.String(), o.String())
		}
	}
}
