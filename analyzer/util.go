package main

import "fmt"

func errf(f string, a ...any) error { return fmt.Errorf(f, a...) }
