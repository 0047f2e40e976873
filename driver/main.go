// candiceverif drives the real candice front end and compiler from /repo.
//
//	compile FILE OUT   parse, analyze and compile FILE, write its LLVM IR to OUT
//	                   exit status 0, or 3 parse error, 4 semantic error, 5 back end refused,
//	                   1 compile error (the compiler's own exit)
//
//	lex FILE           one line of hexadecimal digits is one text: writes one line with its tokens,
//	                   up to the end or the first illegal one
//
// With CDV_CC=copy the program plays the C compiler of GenerateExecutableCXX and copies its input.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/gabivlj/candice/internals/compiler"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
	"github.com/gabivlj/candice/internals/token"
)

func die(code int, what string, err interface{}) {
	fmt.Println(what, err)
	os.Exit(code)
}

func main() {
	if os.Getenv("CDV_CC") == "copy" {
		b, err := os.ReadFile(os.Args[1])
		if err == nil {
			err = os.WriteFile(os.Args[3], b, 0o644)
		}
		if err != nil {
			os.Exit(9)
		}
		return
	}
	if len(os.Args) < 2 {
		die(2, "usage", "")
	}
	switch os.Args[1] {
	case "compile":
		compile(os.Args[2], os.Args[3])
	case "lex":
		lex(os.Args[2])
	default:
		die(2, "unknown mode", os.Args[1])
	}
}

func compile(file, out string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "READ", err)
	}
	p := parser.New(lexer.New(string(b)))
	t := p.Parse()
	if len(p.Errors) > 0 {
		die(3, "PARSE", p.Errors)
	}
	s := semantic.New()
	s.Analyze(t)
	if len(s.Errors) > 0 {
		die(4, "SEM", s.Errors)
	}
	c := compiler.New(s)
	c.Compile(t)
	self, err := os.Executable()
	if err != nil {
		die(2, "SELF", err)
	}
	os.Setenv("CDV_CC", "copy")
	if err := c.GenerateExecutableCXX(out, self, nil); err != nil {
		die(5, "CC", err)
	}
}

// the names that the specification has for the tokens that are not named after their text
var tokenNames = map[token.TypeToken]string{
	token.STRUCT: "struct", token.FUNCTION: "func", token.TRUE: "true", token.FALSE: "false", token.IF: "if",
	token.ELSE: "else", token.RETURN: "return", token.IMPORT: "import", token.FOR: "for", token.BREAK: "break",
	token.CONTINUE: "continue", token.EXTERN: "extern", token.AS: "as", token.MACRO_IF: "#if", token.SWITCH: "switch",
	token.CASE: "case", token.DEFAULT: "default", token.CONST: "const", token.TYPE: "type", token.PUBLIC: "pub",
	token.UNION: "union", token.CHAR: "CHAR", token.IDENT: "IDENT", token.INT: "INT", token.HEX: "HEX",
	token.BINARY: "BINARY", token.FLOAT: "FLOAT", token.STRING: "STRING", token.ILLEGAL: "ILLEGAL", token.EOF: "EOF",
}

type lexed struct {
	T string `json:"t"`
	V string `json:"v"`
	L uint32 `json:"l"`
}

func lexOne(text string) (res []lexed, trouble string) {
	defer func() {
		if e := recover(); e != nil {
			trouble = fmt.Sprint("panic: ", e)
		}
	}()
	l := lexer.New(text)
	for n := 0; n <= len(text)+1; n++ {
		t := l.NextToken()
		name, ok := tokenNames[t.Type]
		if !ok {
			name = string(t.Type)
		}
		res = append(res, lexed{name, hex.EncodeToString([]byte(t.Literal)), t.Line})
		if t.Type == token.EOF || t.Type == token.ILLEGAL {
			return res, ""
		}
	}
	return res, "more tokens than bytes"
}

func lex(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "READ", err)
	}
	for _, line := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		text, err := hex.DecodeString(line)
		if err != nil {
			die(2, "HEX", err)
		}
		res, trouble := lexOne(string(text))
		o, _ := json.Marshal(map[string]interface{}{"ts": res, "trouble": trouble})
		fmt.Println(string(o))
	}
}
