// Package log replaces the standard package: Fatal ends the simulated process.
package log

import (
	"fmt"
	"io"
	real "log"

	"verifsim/rt"
)

var std = real.New(io.Discard, "", 0)

func Default() *real.Logger        { return std }
func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Output(d int, s string) error { return nil }
func SetOutput(w io.Writer)        {}
func Fatal(v ...any)               { rt.Fatal("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalf(f string, v ...any)    { rt.Fatal("log.Fatal: " + fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)             { rt.Fatal("log.Fatal: " + fmt.Sprintln(v...)) }
func Panic(v ...any)               { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any)    { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)             { panic(fmt.Sprintln(v...)) }
