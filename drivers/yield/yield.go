// Package yield is called between the statements of the instrumented
// packages.
package yield

// Hook is run at every point when it is set (before the program starts any
// goroutine).
var Hook func(id int)

func At(id int) {
	if Hook != nil {
		Hook(id)
	}
}
