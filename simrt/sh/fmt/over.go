// Package fmt is package fmt with simulated standard streams.
package fmt

import (
	"fmt"
	"io"

	"simmod/simrt"
)

func out(s string) (int, error) {
	simrt.StdWrite(1, []byte(s))
	return len(s), nil
}
func Print(a ...interface{}) (int, error)            { return out(fmt.Sprint(a...)) }
func Println(a ...interface{}) (int, error)          { return out(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) (int, error) { return out(fmt.Sprintf(f, a...)) }

type in struct{}

func (in) Read(b []byte) (int, error) {
	n := simrt.StdRead(b)
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}
func Scan(a ...interface{}) (int, error)            { return fmt.Fscan(in{}, a...) }
func Scanln(a ...interface{}) (int, error)          { return fmt.Fscanln(in{}, a...) }
func Scanf(f string, a ...interface{}) (int, error) { return fmt.Fscanf(in{}, f, a...) }
